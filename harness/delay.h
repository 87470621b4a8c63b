// Random delays at the synchronisation points of the real code (mutexes, condition variables): they widen the windows between a
// thread's looking at the shared state and its waiting, locking or notifying. Linked with -Wl,--wrap of the functions below.
#pragma once
#include "h.h"
#include <pthread.h>
#include <sched.h>
#include <cerrno>
namespace delay {
inline std::atomic<unsigned> rate{0};            // per 10000 synchronisations
inline std::atomic<long long> injected{0};
inline void point(unsigned times=1)
{
    const unsigned r=rate.load(std::memory_order_relaxed); if (!r) return;
    static thread_local uint64_t x=0;
    if (!x) x=(reinterpret_cast<uint64_t>(&x)^uint64_t(time(nullptr)))*0x9E3779B97F4A7C15ull|1;
    x^=x<<13; x^=x>>7; x^=x<<17;
    if (x%10000>=r*times) return;
    const int e=errno; injected.fetch_add(1,std::memory_order_relaxed);
    const unsigned k=unsigned(x>>32)%16, v=unsigned(x>>40);
    if (k<6) sched_yield(); else h::nap(v%(k==15?600:60));
    errno=e;
}
// for a case: none, few or many
inline void arm(h::Rng& r) { static const unsigned rates[]={0,0,5,20,100,400}; rate=rates[r.below(6)]; }
inline void done() { rate=0; if (long long n=injected.exchange(0)) h::stat("injected-delays",n); }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*,pthread_mutex_t*); int __real_pthread_cond_signal(pthread_cond_t*); int __real_pthread_cond_broadcast(pthread_cond_t*);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*,void*);
void __real__ZNSt18condition_variable10notify_allEv(void*); void __real__ZNSt18condition_variable10notify_oneEv(void*);
__attribute__((used)) inline int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { delay::point(); return __real_pthread_mutex_lock(m); }
__attribute__((used)) inline int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int n=__real_pthread_mutex_unlock(m); delay::point(); return n; }
__attribute__((used)) inline int __wrap_pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m) { delay::point(8); return __real_pthread_cond_wait(c,m); }
__attribute__((used)) inline int __wrap_pthread_cond_signal(pthread_cond_t* c) { delay::point(4); return __real_pthread_cond_signal(c); }
__attribute__((used)) inline int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { delay::point(4); return __real_pthread_cond_broadcast(c); }
__attribute__((used)) inline void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c,void* l) { delay::point(8); __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c,l); }
__attribute__((used)) inline void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { delay::point(4); __real__ZNSt18condition_variable10notify_allEv(c); }
__attribute__((used)) inline void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { delay::point(4); __real__ZNSt18condition_variable10notify_oneEv(c); }
}
