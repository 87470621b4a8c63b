From abf21dce05567c980243c441075b9a62c0fc3429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 01/28] fix: signed overflow while converting negative numbers

Every negative argument of an int, long or long long parameter negated the
minimum value of the type (undefined behaviour), and the minimum value
itself was produced by another overflowing negation.
---
 include/cli/detail/fromstring.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/fromstring.h b/include/cli/detail/fromstring.h
index 606b3e2..47546aa 100644
--- a/include/cli/detail/fromstring.h
+++ b/include/cli/detail/fromstring.h
@@ -131,10 +131,13 @@ inline T signed_from_string(std::string s)
     {
         s = s.substr(1);
         const U val = unsigned_digits_from_string<U>(s);
-        auto min = std::numeric_limits<T>::min(); // this to avoid overflow warnings. Please NOTE: const auto produces warning!
-        if ( val > static_cast<U>( - min ) )
+        // magnitude of the min value, computed without negating it because that would overflow
+        const U minMagnitude = static_cast<U>(static_cast<U>( std::numeric_limits<T>::max() ) + 1u);
+        if ( val > minMagnitude )
             throw bad_conversion();
-        return (- static_cast<T>(val));
+        if ( val == minMagnitude )
+            return std::numeric_limits<T>::min();
+        return static_cast<T>(- static_cast<T>(val));
     }
     else if (s[0] == '+')
     {
-- 
2.43.0


From 99a1888510e96c4e7363e25c97bf5b0adc884968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 02/28] fix: character classification called with negative
 values

std::isspace and std::isdigit were called with plain chars: undefined
behaviour for any input byte above 127 where char is signed.
---
 include/cli/cli.h               |  4 ++--
 include/cli/detail/fromstring.h | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 437e838..9d02f91 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -611,7 +611,7 @@ namespace cli
             auto rest = line;
             rest.erase(0, prefix.size());
             // trim_left(rest);
-            rest.erase(rest.begin(), std::find_if(rest.begin(), rest.end(), [](int ch) { return !std::isspace(ch); }));
+            rest.erase(rest.begin(), std::find_if(rest.begin(), rest.end(), [](unsigned char ch) { return !std::isspace(ch); }));
             std::vector<std::string> result;
             for (const auto& cmd: *cmds)
             {
@@ -960,7 +960,7 @@ namespace cli
     inline std::vector<std::string> CliSession::GetCompletions(std::string currentLine) const
     {
         // trim_left(currentLine);
-        currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
+        currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](unsigned char ch) { return !std::isspace(ch); }));
         auto v1 = globalScopeMenu->GetCompletions(currentLine);
         auto v3 = current->GetCompletions(currentLine);
         v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));
diff --git a/include/cli/detail/fromstring.h b/include/cli/detail/fromstring.h
index 47546aa..0e60875 100644
--- a/include/cli/detail/fromstring.h
+++ b/include/cli/detail/fromstring.h
@@ -53,6 +53,8 @@ T from_string(const std::string& s)
 
 #else
 
+#include <algorithm> // std::any_of
+#include <cctype> // std::isspace, std::isdigit
 #include <exception>
 #include <limits>
 #include <string>
@@ -98,7 +100,7 @@ inline T unsigned_digits_from_string(const std::string& s)
     T result = 0;
     for (char c: s)
     {
-        if (!std::isdigit(c))
+        if (!std::isdigit(static_cast<unsigned char>(c)))
             throw bad_conversion();
         const T digit = static_cast<T>( c - '0' );
         const T tmp = (result * 10) + digit;
@@ -212,7 +214,7 @@ inline char from_string(const std::string& s)
 template <>
 inline float from_string(const std::string& s)
 {
-    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(c);} ) )
+    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(static_cast<unsigned char>(c));} ) )
         throw bad_conversion();
     std::string::size_type sz;
     float result = {};
@@ -229,7 +231,7 @@ inline float from_string(const std::string& s)
 template <>
 inline double from_string(const std::string& s)
 {
-    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(c);} ) )
+    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(static_cast<unsigned char>(c));} ) )
         throw bad_conversion();
     std::string::size_type sz;
     double result = {};
@@ -246,7 +248,7 @@ inline double from_string(const std::string& s)
 template <>
 inline long double from_string(const std::string& s)
 {
-    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(c);} ) )
+    if ( std::any_of(s.begin(), s.end(), [](char c){return std::isspace(static_cast<unsigned char>(c));} ) )
         throw bad_conversion();
     std::string::size_type sz;
     long double result = {};
-- 
2.43.0


From 795a82516c172e535b4a9aa01e7876de19b96d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 03/28] fix: history index check underflows on an empty history

---
 include/cli/detail/history.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index e8eb401..a6ed2ee 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -34,6 +34,7 @@
 #include <limits>
 #include <vector>
 #include <string>
+#include <stdexcept>
 #include <algorithm>
 #include <cassert>
 
@@ -165,14 +166,14 @@ private:
     // newest has index = 0      and id = idOfOldest + size-1 
     std::size_t IndexToId(std::size_t index) const
     {
-        if (index > idOfOldest+buffer.size()-1)
+        if (index >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - index;
     }
 
     std::size_t IdToIndex(std::size_t id) const
     {
-        if (id < idOfOldest || id > idOfOldest+buffer.size()-1)
+        if (id < idOfOldest || id - idOfOldest >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - id;
     }
-- 
2.43.0


From 1744f26cc46db9e15f953c59992c2f0bdcf62f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 04/28] fix: history of size zero accessed as if it had entries

---
 include/cli/detail/history.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index a6ed2ee..4666b60 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -83,6 +83,8 @@ public:
         if (mode == Mode::inserting)
         {
             Insert(line);
+            if (buffer.empty()) // the history has no room (maxSize is 0)
+                return line;
             mode = Mode::browsing;
             current = (buffer.size() > 1) ? 1 : 0;
         }
@@ -156,8 +158,8 @@ public:
 
     void ForgetLatest()
     {
-        assert(!buffer.empty());
-        buffer.pop_front();
+        if (!buffer.empty())
+            buffer.pop_front();
     }
 
 private:
-- 
2.43.0


From 644735a46503335347deccb06aecc33473c32e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 05/28] fix: history entries lost or counted twice by
 duplicates and recalls

---
 include/cli/detail/history.h | 42 ++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 4666b60..1fdc5f7 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -55,20 +55,17 @@ public:
     // Otherwise, the item is added to the front of the container
     void NewCommand(const std::string& item)
     {
-        ++commands;
         current = 0;
         if (mode == Mode::browsing)
         {
             assert(!buffer.empty());
-            if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
-                buffer.pop_front();
-            else // the item was not identical
-                buffer[current] = item;
+            RemoveFront(); // the edit line
         }
-        else // Mode::inserting
+        latestInserted = buffer.empty() || buffer[0] != item; // insert an element not equal to last one
+        if (latestInserted)
         {
-            if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
-                Insert(item);
+            Insert(item);
+            ++commands;
         }
         mode = Mode::inserting;
     }
@@ -156,10 +153,14 @@ public:
         return buffer[index];
     }
 
+    // Undo the latest NewCommand
     void ForgetLatest()
     {
-        if (!buffer.empty())
-            buffer.pop_front();
+        if (!latestInserted)
+            return;
+        latestInserted = false;
+        RemoveFront();
+        --commands;
     }
 
 private:
@@ -182,18 +183,37 @@ private:
 
     void Insert(const std::string& item)
     {
+        dropped.clear();
+        if (maxSize == 0)
+            return;
         buffer.emplace_front(item);
         if (buffer.size() > maxSize)
         {
+            dropped.push_back(std::move(buffer.back()));
             buffer.pop_back();
             ++idOfOldest;
         }
     }
 
+    // Undo the latest Insert
+    void RemoveFront()
+    {
+        if (!buffer.empty())
+            buffer.pop_front();
+        if (!dropped.empty())
+        {
+            buffer.push_back(std::move(dropped.back()));
+            dropped.clear();
+            --idOfOldest;
+        }
+    }
+
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
     std::size_t current = 0;
-    std::size_t commands = 0; // number of commands issued
+    std::size_t commands = 0; // number of commands added to the history (i.e., not loaded)
+    bool latestInserted = false; // whether the latest NewCommand added an element
+    std::vector<std::string> dropped; // the element (if any) that the latest Insert pushed out of the buffer
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
-- 
2.43.0


From fe6d697b2c3b897ee7975f687b64ad68739f2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 06/28] fix: endless recursion when a history entry recalls
 itself

---
 include/cli/cli.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 9d02f91..48ba304 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -36,6 +36,7 @@
 #include <functional>
 #include <algorithm>
 #include <cctype> // std::isspace
+#include <stdexcept>
 #include <type_traits>
 #include "colorprofile.h"
 #include "detail/history.h"
@@ -362,6 +363,15 @@ namespace cli
         {
             history.ForgetLatest();
             const auto cmd = history.At(index);
+            // an entry can in turn recall another one: stop if they go round in circles
+            if (std::find(recalling.begin(), recalling.end(), index) != recalling.end())
+                throw std::runtime_error("Recursive command in history");
+            struct Guard
+            {
+                explicit Guard(std::vector<unsigned>& _v, unsigned i) : v(_v) { v.push_back(i); }
+                ~Guard() { v.pop_back(); }
+                std::vector<unsigned>& v;
+            } guard(recalling, index);
             Feed(cmd);
         }
 
@@ -388,6 +398,7 @@ namespace cli
         std::function< void(std::ostream&)> exitAction = []( std::ostream& ) noexcept {};
         detail::History history;
         bool exit{ false }; // to prevent the prompt after exit command
+        std::vector<unsigned> recalling; // the history entries being executed
     };
 
     // ********************************************************************
-- 
2.43.0


From 7efe69f6996800eb45a5065a0b994630373b4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 07/28] fix: exit fails when no exit action is set

---
 include/cli/cli.h                         | 3 ++-
 include/cli/detail/genericasioremotecli.h | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 48ba304..684859e 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -338,7 +338,8 @@ namespace cli
 
         void Exit()
         {
-            exitAction(out);
+            if (exitAction)
+                exitAction(out);
             cli.ExitAction(out);
 
             auto cmds = history.GetCommands();
diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index f8f7760..eeb75e0 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,13 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ _exitAction(_out), Disconnect(); } );
+        ExitAction([this, _exitAction](std::ostream& _out)
+            {
+                if (_exitAction)
+                    _exitAction(_out);
+                Disconnect();
+            }
+        );
     }
 protected:
 
-- 
2.43.0


From f027a9685a5cb81ce2f791c6eb56af93526e4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 08/28] fix: session exiting twice and running commands after
 exit

---
 include/cli/cli.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 684859e..b8c1cb8 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -338,14 +338,23 @@ namespace cli
 
         void Exit()
         {
-            if (exitAction)
-                exitAction(out);
-            cli.ExitAction(out);
+            if (exit) return; // already exited
+            exit = true; // prevent the prompt to be shown and other commands to be executed
+
+            try
+            {
+                if (exitAction)
+                    exitAction(out);
+                cli.ExitAction(out);
+            }
+            catch (...)
+            {
+                exit = false; // the session goes on
+                throw;
+            }
 
             auto cmds = history.GetCommands();
             cli.StoreCommands(cmds);
-
-            exit = true; // prevent the prompt to be shown
         }
 
         void EnterAction(const std::function<void(std::ostream&)>& action)
@@ -923,6 +932,8 @@ namespace cli
 
     inline void CliSession::Feed(const std::string& cmd)
     {
+        if (exit) return;
+
         std::vector<std::string> strs;
         detail::split(strs, cmd);
         if (strs.empty()) return; // just hit enter
-- 
2.43.0


From a91be2bd426b3664f4a433871d3c6e68a5ab20c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 09/28] fix: output of the global exit action lost on remote
 sessions

---
 include/cli/cli.h                         |  7 +++++++
 include/cli/detail/genericasioremotecli.h | 10 +++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index b8c1cb8..9937710 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -355,6 +355,8 @@ namespace cli
 
             auto cmds = history.GetCommands();
             cli.StoreCommands(cmds);
+
+            OnExit();
         }
 
         void EnterAction(const std::function<void(std::ostream&)>& action)
@@ -397,6 +399,11 @@ namespace cli
 
         std::vector<std::string> GetCompletions(std::string currentLine) const;
 
+    protected:
+
+        // called at the very end of Exit, when all the exit actions have been executed
+        virtual void OnExit() {}
+
     private:
 
         Cli& cli;
diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index eeb75e0..2807db8 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,13 +457,7 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out)
-            {
-                if (_exitAction)
-                    _exitAction(_out);
-                Disconnect();
-            }
-        );
+        ExitAction(_exitAction);
     }
 protected:
 
@@ -474,6 +468,8 @@ protected:
         Prompt();
     }
 
+    void OnExit() override { Disconnect(); }
+
     void Output(char c) override // NB: C++ does not specify wether char is signed or unsigned
     {
         switch(step)
-- 
2.43.0


From 399be489c63f8427357423687b11a57aa1975263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 10/28] fix: enter action of the telnet server never executed

---
 include/cli/detail/genericasioremotecli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 2807db8..5ab4df8 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -577,7 +577,9 @@ public:
     }
     std::shared_ptr<Session> CreateSession(asiolib::ip::tcp::socket _socket) override
     {
-        return std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        auto session = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        session->EnterAction(enterAction);
+        return session;
     }
 private:
     Scheduler& scheduler;
-- 
2.43.0


From 05d91d35aac1142a7d28e174827fcb1bdf34e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 11/28] fix: exception when disconnecting a telnet session
 already closed by the peer

---
 include/cli/detail/server.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 8013057..54f1461 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -54,8 +54,10 @@ protected:
 
     virtual void Disconnect()
     {
-        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both);
-        socket.close();
+        // the peer may have already closed the connection: ignore the errors
+        asiolibec::error_code ec;
+        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both, ec);
+        socket.close(ec);
     }
 
     virtual void Read()
-- 
2.43.0


From f66b717e779c4916ad53c85d397ca8c95d1afa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 12/28] fix: telnet server used after its destruction by the
 pending accept

---
 include/cli/detail/server.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 54f1461..8f9672e 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -142,13 +142,16 @@ public:
 private:
     void Accept()
     {
-        acceptor.async_accept([this](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
+        const std::weak_ptr<bool> alive{ token };
+        acceptor.async_accept([this, alive](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
+                if (alive.expired()) return; // the server has been destroyed
                 if (!ec) CreateSession(std::move(socket))->Start();
                 Accept();
             });
     }
     asiolib::ip::tcp::acceptor acceptor;
+    const std::shared_ptr<bool> token{ std::make_shared<bool>(true) }; // to detect the destruction of the server
 };
 
 
-- 
2.43.0


From 2b00a310cb1b2629c84bbfe8b5164fd628b44900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 13/28] fix: keys queued in the scheduler used after the
 destruction of their session

---
 include/cli/detail/inputdevice.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/inputdevice.h b/include/cli/detail/inputdevice.h
index 62a369f..da703c1 100644
--- a/include/cli/detail/inputdevice.h
+++ b/include/cli/detail/inputdevice.h
@@ -31,6 +31,7 @@
 #define CLI_DETAIL_INPUTDEVICE_H_
 
 #include <functional>
+#include <memory>
 #include <string>
 #include "../scheduler.h"
 
@@ -58,13 +59,16 @@ protected:
 
     void Notify(std::pair<KeyType,char> k)
     {
-        scheduler.Post([this,k](){ if (handler) handler(k); });
+        // the device can be destroyed before the scheduler executes the function
+        const std::weak_ptr<bool> alive{ token };
+        scheduler.Post([this,k,alive](){ if (!alive.expired() && handler) handler(k); });
     }
 
 private:
 
     Scheduler& scheduler;
     Handler handler;
+    const std::shared_ptr<bool> token{ std::make_shared<bool>(true) };
 };
 
 } // namespace detail
-- 
2.43.0


From 5464e70584d207076d51b7deb228dee728f301e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 14/28] fix: deadlock destroying a local session with the input
 disabled

---
 include/cli/detail/linuxkeyboard.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 17b40e1..116d4cf 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -115,6 +115,12 @@ public:
     {
         ToStandardMode();
         is.Stop();
+        {
+            // the servant could be waiting for the input to be activated
+            std::lock_guard<std::mutex> lock(mtx);
+            enabled = true;
+            cv.notify_one();
+        }
         servant.join();
     }
     void ActivateInput() override
-- 
2.43.0


From da89f0f5fbffea889b92209caaf644b6a28cf4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 15/28] fix: local session stops reading the keyboard after a
 signal

---
 include/cli/detail/linuxkeyboard.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 116d4cf..9d8cb40 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -34,6 +34,7 @@
 #include <memory>
 #include <stdexcept>
 
+#include <cerrno>
 #include <cstdio>
 #include <termios.h>
 #include <unistd.h>
@@ -62,18 +63,31 @@ public:
         }
     }
 
+    ~InputSource()
+    {
+        // the read end must be kept open until here: the Stop method can be called
+        // when nobody is reading anymore
+        close(readPipe);
+    }
+
     void WaitKbHit()
     {
         fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(STDIN_FILENO, &rfds);
-        FD_SET(readPipe, &rfds);
+        int ready;
+        do
+        {
+            FD_ZERO(&rfds);
+            FD_SET(STDIN_FILENO, &rfds);
+            FD_SET(readPipe, &rfds);
+            ready = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
+        }
+        while (ready == 0 || (ready == -1 && errno == EINTR)); // a signal is not an error
 
-        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) == 0);
+        if (ready == -1)
+            throw std::runtime_error("InputSource select");
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
-            close(readPipe);
             throw std::runtime_error("InputSource stop");
         }
 
-- 
2.43.0


From 53f491aec9e764a08856f9e1a82c543d10cf5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 16/28] fix: local session spins at the end of the standard
 input

---
 include/cli/detail/linuxkeyboard.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 9d8cb40..90cd9c9 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -150,6 +150,8 @@ public:
     
     private:
 
+    struct EndOfInput {};
+
     // we need a private non virtual method to call from the constructor
     void ActivateInputImpl()
     {
@@ -173,6 +175,10 @@ public:
                 Notify(k);
             }
         }
+        catch(const EndOfInput&)
+        {
+            Notify(std::make_pair(KeyType::eof,' '));
+        }
         catch(const std::exception&)
         {
             // nothing to do: just exit
@@ -181,16 +187,21 @@ public:
 
     char GetChar()
     {
+        is.WaitKbHit(); // read must not block, otherwise the thread cannot be stopped
         char buffer = 0;
-        auto unused = read(0, &buffer, 1);
-        static_cast<void>(unused); // silence unused warn
+        ssize_t size;
+        do
+        {
+            size = read(STDIN_FILENO, &buffer, 1);
+        }
+        while (size == -1 && (errno == EINTR || errno == EAGAIN));
+        if (size <= 0)
+            throw EndOfInput();
         return buffer;
     }
 
     std::pair<KeyType,char> Get()
     {
-        is.WaitKbHit();
-
         auto ch = GetChar();
         switch(ch)
         {
-- 
2.43.0


From 30fa9526a16f650083b588161015b465bfcbb0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 17/28] fix: sessions sharing a stream unsubscribed from the
 global output stream

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 9937710..0da3d05 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -101,7 +101,10 @@ namespace cli
         }
         void UnRegister(std::ostream& o)
         {
-            ostreams.erase(std::remove(ostreams.begin(), ostreams.end(), &o), ostreams.end());
+            // the same stream can be registered more than once (by sessions sharing it)
+            const auto i = std::find(ostreams.begin(), ostreams.end(), &o);
+            if (i != ostreams.end())
+                ostreams.erase(i);
         }
 
     private:
-- 
2.43.0


From 255dcce268477b559c5cb00a2b852aaea0b3bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 18/28] fix: completions offered for disabled menus and for
 glued menu names

---
 include/cli/cli.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 0da3d05..2004c53 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -574,6 +574,7 @@ namespace cli
         // - the recursive completions of parent menu
         std::vector<std::string> GetCompletions(const std::string& currentLine) const
         {
+            if (!IsEnabled()) return {};
             auto result = cli::GetCompletions(cmds, currentLine);
             if (parent != nullptr)
             {
@@ -600,7 +601,9 @@ namespace cli
          */
         std::vector<std::string> GetCompletionRecursive(const std::string& line) const override
         {
-            if (line.rfind(Name(), 0) == 0) // line starts_with Name()
+            if (!IsEnabled()) return {};
+
+            if (StartsWithWord(line, Name()))
             {
                 return GetCompletionRecursiveHelper(line, Name());
             }
@@ -624,12 +627,14 @@ namespace cli
          */
         std::vector<std::string> GetCompletionWithParent(const std::string& line) const
         {
-            if (line.rfind(Name(), 0) == 0) // line starts_with Name()
+            if (!IsEnabled()) return {};
+
+            if (StartsWithWord(line, Name()))
             {
                 return GetCompletionRecursiveHelper(line, Name());
             }
 
-            if (line.rfind(ParentShortcut(), 0) == 0) // line starts_with ..
+            if (StartsWithWord(line, ParentShortcut()))
             {
                 return GetCompletionRecursiveHelper(line, ParentShortcut());
             }
@@ -637,6 +642,13 @@ namespace cli
             return Command::GetCompletionRecursive(line);
         }
 
+        // true if the line is the word, or it starts with the word followed by a space
+        static bool StartsWithWord(const std::string& line, const std::string& word)
+        {
+            if (word.empty() || line.compare(0, word.size(), word) != 0) return false;
+            return line.size() == word.size() || std::isspace(static_cast<unsigned char>(line[word.size()]));
+        }
+
         std::vector<std::string> GetCompletionRecursiveHelper(const std::string& line, const std::string& prefix) const
         {
             auto rest = line;
-- 
2.43.0


From 913f9633fc0b853177109f45dd56787a7554d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 19/28] fix: current menu or running command used after their
 removal

---
 include/cli/cli.h | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 2004c53..b9fc236 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -325,7 +325,7 @@ namespace cli
 
         void Prompt();
 
-        void Current(Menu* menu) { current = menu; }
+        void Current(Menu* menu);
 
         std::ostream& OutStream() { return out; }
 
@@ -409,9 +409,13 @@ namespace cli
 
     private:
 
+        // the current menu, or the root menu if the former has been removed
+        Menu* CurrentMenu() const;
+
         Cli& cli;
         std::shared_ptr<cli::OutStream> coutPtr;
         Menu* current;
+        std::weak_ptr<void> currentToken; // to detect the removal of the current menu
         std::unique_ptr<Menu> globalScopeMenu;
         std::ostream& out;
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
@@ -541,9 +545,12 @@ namespace cli
         {
             if (!IsEnabled())
                 return false;
-            for (auto& cmd: *cmds)
+            for (auto& c: *cmds)
+            {
+                const auto cmd = c; // a command can be removed by its own handler
                 if (cmd->Exec(cmdLine, session))
                     return true;
+            }
             assert(!cmdLine.empty());
             return (parent && parent->ExecParent(cmdLine, session));
         }
@@ -553,6 +560,9 @@ namespace cli
             return prompt;
         }
 
+        // expires when the menu is destroyed
+        std::weak_ptr<void> Token() const { return token; }
+
         void MainHelp(std::ostream& out)
         {
             if (!IsEnabled()) return;
@@ -712,8 +722,11 @@ namespace cli
                 {
                     // check also for subcommands
                     std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
-                    for (auto& cmd: *cmds)
+                    for (auto& c: *cmds)
+                    {
+                        const auto cmd = c; // a command can be removed by its own handler
                         if (cmd->Exec( subCmdLine, session )) return true;
+                    }
                     return (parent && parent->ExecParent(subCmdLine, session));
                 }
             }
@@ -741,6 +754,7 @@ namespace cli
         // for the CmdHandler::Descriptor
         using Cmds = std::vector<std::shared_ptr<Command>>;
         std::shared_ptr<Cmds> cmds;
+        const std::shared_ptr<void> token{ std::make_shared<bool>(true) };
     };
 
     // ********************************************************************
@@ -927,6 +941,8 @@ namespace cli
             out(_out),
             history(historySize)
         {
+            Current(current);
+
             history.LoadCommands(cli.GetCommands());
 
             coutPtr->Register(out);
@@ -952,6 +968,17 @@ namespace cli
             );
         }
 
+    inline void CliSession::Current(Menu* menu)
+    {
+        current = menu;
+        currentToken = menu->Token();
+    }
+
+    inline Menu* CliSession::CurrentMenu() const
+    {
+        return currentToken.expired() ? cli.RootMenu() : current;
+    }
+
     inline void CliSession::Feed(const std::string& cmd)
     {
         if (exit) return;
@@ -968,7 +995,7 @@ namespace cli
             bool found = globalScopeMenu->ScanCmds(strs, *this);
 
             // root menu recursive cmds check
-            if (!found) found = current->ScanCmds(strs, *this);
+            if (!found) found = CurrentMenu()->ScanCmds(strs, *this);
 
             if (!found) // wrong command handler if not found
                 cli.WrongCommandHandler(out, cmd);
@@ -989,7 +1016,7 @@ namespace cli
     {
         if (exit) return;
         out << beforePrompt
-            << current->Prompt()
+            << CurrentMenu()->Prompt()
             << afterPrompt
             << "> "
             << std::flush;
@@ -999,7 +1026,7 @@ namespace cli
     {
         out << "Commands available:\n";
         globalScopeMenu->MainHelp(out);
-        current -> MainHelp( out );
+        CurrentMenu()->MainHelp(out);
     }
 
     inline std::vector<std::string> CliSession::GetCompletions(std::string currentLine) const
@@ -1007,7 +1034,7 @@ namespace cli
         // trim_left(currentLine);
         currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](unsigned char ch) { return !std::isspace(ch); }));
         auto v1 = globalScopeMenu->GetCompletions(currentLine);
-        auto v3 = current->GetCompletions(currentLine);
+        auto v3 = CurrentMenu()->GetCompletions(currentLine);
         v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));
 
         // removes duplicates (std::unique requires a sorted container)
-- 
2.43.0


From afb7146bebf4af0a912daeb13aa729ce662e4bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 20/28] fix: bad_cast thrown by a handler mistaken for a failed
 conversion

---
 include/cli/cli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index b9fc236..31af486 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -838,13 +838,15 @@ namespace cli
             if (cmdLine.size() != paramSize+1) return false;
             if (Name() == cmdLine[0])
             {
+                bool called = false;
                 try
                 {
-                    auto g = [&](auto ... pars){ func( session.OutStream(), pars... ); };
+                    auto g = [&](auto ... pars){ called = true; func( session.OutStream(), pars... ); };
                     Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                 }
                 catch (std::bad_cast&)
                 {
+                    if (called) throw; // thrown by the handler: the conversion succeeded
                     return false;
                 }
                 return true;
-- 
2.43.0


From 77412e0ff1987ce08d6779a2dc13c5f09652406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 21/28] fix: telnet commands and data mixed up in the output of
 remote sessions

---
 include/cli/detail/genericasioremotecli.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 5ab4df8..9d38f7a 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -60,6 +60,7 @@ protected:
         for (char c: _data)
         {
             if (c == '\n') result += '\r';
+            if (c == '\x0FF') result += c; // IAC as data must be doubled
             result += c;
         }
         return result;
@@ -79,13 +80,13 @@ protected:
         // https://www.ibm.com/support/knowledgecenter/SSLTBW_1.13.0/com.ibm.zos.r13.hald001/telcmds.htm
 
         static const std::string iacDoLineMode{ "\x0FF\x0FD\x022", 3 };
-        this -> OutStream() << iacDoLineMode << std::flush;
+        Send(iacDoLineMode);
 
         static const std::string iacSbLineMode0IacSe{ "\x0FF\x0FA\x022\x001\x000\x0FF\x0F0", 7 };
-        this -> OutStream() << iacSbLineMode0IacSe << std::flush;
+        Send(iacSbLineMode0IacSe);
 
         static const std::string iacWillEcho{ "\x0FF\x0FB\x001", 3 };
-        this -> OutStream() << iacWillEcho << std::flush;
+        Send(iacWillEcho);
 
 /*
         constexpr char IAC = '\x0FF'; // 255
@@ -405,7 +406,7 @@ private:
         std::string answer("\x0FF\x000\x000", 3);
         answer[1] = action;
         answer[2] = op;
-        this -> OutStream() << answer << std::flush;
+        Send(answer); // not through the stream: this is not text
     }
 protected:
     virtual void Output(char c)
-- 
2.43.0


From 96174337adb2332f2c4efa4273878f2f3a1daa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 22/28] fix: file session exiting twice or never

---
 include/cli/cli.h            |  3 +++
 include/cli/clifilesession.h | 14 ++------------
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 31af486..58a1cfa 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -407,6 +407,9 @@ namespace cli
         // called at the very end of Exit, when all the exit actions have been executed
         virtual void OnExit() {}
 
+        // true when the session has got the exit command (or the end of its input)
+        bool Exited() const { return exit; }
+
     private:
 
         // the current menu, or the root menu if the former has been removed
diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 68177e5..8c0c3d3 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -44,30 +44,21 @@ public:
     /// @throw std::invalid_argument if @c _in or @c out are invalid streams
     explicit CliFileSession(Cli& _cli, std::istream& _in=std::cin, std::ostream& _out=std::cout) :
         CliSession(_cli, _out, 1),
-        exit(false),
         in(_in)
     {
         if (!_in.good()) throw std::invalid_argument("istream invalid");
         if (!_out.good()) throw std::invalid_argument("ostream invalid");
-        ExitAction(
-            [this](std::ostream&) noexcept
-            {
-                exit = true;
-            }
-        );
     }
     void Start()
     {
         Enter();
 
-        while(!exit)
+        while(!Exited())
         {
             Prompt();
             std::string line;
-            if (!in.good())
-                Exit();
             std::getline(in, line);
-            if (in.eof())
+            if (!in.good()) // end of the input or error
                 Exit();
             else
                 Feed(line);
@@ -75,7 +66,6 @@ public:
     }
 
 private:
-    bool exit;
     std::istream& in;
 };
 
-- 
2.43.0


From a7850ce601fc26c45b5fcf50d3a1a0f4dc8edbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 23/28] fix: asynchronous session used after its destruction by
 the pending read

---
 include/cli/detail/genericcliasyncsession.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 2712276..897f146 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -60,13 +60,18 @@ private:
     {
         Prompt();
         // Read a line of input entered by the user.
+        // The handler can be executed after the destruction of the session:
+        // it keeps the buffer alive and must not use the session in that case.
+        auto buffer = inputBuffer;
+        const std::weak_ptr<bool> alive{ token };
         asiolib::async_read_until(
             input,
-            inputBuffer,
+            *buffer,
             '\n',
-            std::bind( &GenericCliAsyncSession::NewLine, this,
-                       std::placeholders::_1,
-                       std::placeholders::_2 )
+            [this, buffer, alive]( const asiolibec::error_code& error, std::size_t length )
+            {
+                if (!alive.expired()) NewLine(error, length);
+            }
         );
     }
 
@@ -74,11 +79,11 @@ private:
     {
         if ( !error || error == asiolib::error::not_found )
         {
-            auto bufs = inputBuffer.data();
+            auto bufs = inputBuffer->data();
             auto size = static_cast<long>(length);
             if ( !error ) --size; // remove \n
             std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
-            inputBuffer.consume( length );
+            inputBuffer->consume( length );
 
             Feed( s );
             Read();
@@ -89,7 +94,8 @@ private:
         }
     }
 
-    asiolib::streambuf inputBuffer;
+    std::shared_ptr<asiolib::streambuf> inputBuffer{ std::make_shared<asiolib::streambuf>() };
+    const std::shared_ptr<bool> token{ std::make_shared<bool>(true) };
     asiolib::posix::stream_descriptor input;
 };
 
-- 
2.43.0


From 7f88434bfbb5b40e70c5020a335193e819e907c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 24/28] fix: enter actions never executed by asynchronous
 sessions

---
 include/cli/detail/genericcliasyncsession.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 897f146..3afc081 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -47,6 +47,7 @@ public:
         CliSession(_cli, std::cout, 1),
         input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
     {
+        Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
-- 
2.43.0


From be1660634569ae920502c9aa818df03d92016c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 25/28] fix: data race between concurrent stops of the asio
 schedulers

---
 include/cli/detail/genericasioscheduler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioscheduler.h b/include/cli/detail/genericasioscheduler.h
index 7fb2979..001e976 100644
--- a/include/cli/detail/genericasioscheduler.h
+++ b/include/cli/detail/genericasioscheduler.h
@@ -32,6 +32,7 @@
 
 #include "../scheduler.h"
 #include <memory> // unique_ptr
+#include <mutex> // call_once
 
 namespace cli
 {
@@ -71,7 +72,7 @@ public:
     void Stop()
     {
         if (work)
-            ASIOLIB::Reset(*work);
+            std::call_once(resetWork, [this](){ ASIOLIB::Reset(*work); }); // Stop can be called by many threads
         context->stop();
     }
 
@@ -104,6 +105,7 @@ private:
     ContextType* context;
     ExecutorType executor;
     std::unique_ptr<WorkGuard> work;
+    std::once_flag resetWork;
 };
 
 
-- 
2.43.0


From fcd849d8d1d71b6c702ad0605a19e78777ecd05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 26/28] fix: rest of the output lost when a signal interrupts a
 write to a remote session

---
 include/cli/detail/server.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 8f9672e..6e5baae 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -81,7 +81,12 @@ protected:
     virtual void Send(const std::string& msg)
     {
         asiolibec::error_code ec;
-        asiolib::write(socket, asiolib::buffer(msg), ec);
+        std::size_t sent = 0;
+        do
+        {
+            // a signal can interrupt the write: go on with the rest of the message
+            sent += asiolib::write(socket, asiolib::buffer(msg) + sent, ec);
+        } while (ec == asiolib::error::interrupted);
         if ((ec == asiolib::error::eof) || (ec == asiolib::error::connection_reset))
             OnDisconnect();
         else if (ec)
-- 
2.43.0


From 837056684c077cdde4084199d65f1fdbeac7bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 27/28] fix: input of a destroyed asynchronous session used by
 the read in progress

---
 include/cli/detail/genericcliasyncsession.h | 32 ++++++++++++---------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 3afc081..eea71c8 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -45,31 +45,38 @@ class GenericCliAsyncSession : public CliSession
 public:
     GenericCliAsyncSession(GenericAsioScheduler<ASIOLIB>& _scheduler, Cli& _cli) :
         CliSession(_cli, std::cout, 1),
-        input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
+        input(std::make_shared<Input>(_scheduler.AsioContext()))
     {
         Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
     {
-        try { input.close(); } catch (const std::exception&) { /* do nothing */ }
+        try { input->descriptor.close(); } catch (const std::exception&) { /* do nothing */ }
     }
 
 private:
 
+    struct Input
+    {
+        explicit Input(typename ASIOLIB::ContextType& context) : descriptor(context, ::dup(STDIN_FILENO)) {}
+        asiolib::streambuf buffer;
+        asiolib::posix::stream_descriptor descriptor;
+    };
+
     void Read()
     {
         Prompt();
         // Read a line of input entered by the user.
-        // The handler can be executed after the destruction of the session:
-        // it keeps the buffer alive and must not use the session in that case.
-        auto buffer = inputBuffer;
+        // The read can complete after the destruction of the session:
+        // it keeps the input alive and must not use the session in that case.
+        auto in = input;
         const std::weak_ptr<bool> alive{ token };
         asiolib::async_read_until(
-            input,
-            *buffer,
+            in->descriptor,
+            in->buffer,
             '\n',
-            [this, buffer, alive]( const asiolibec::error_code& error, std::size_t length )
+            [this, in, alive]( const asiolibec::error_code& error, std::size_t length )
             {
                 if (!alive.expired()) NewLine(error, length);
             }
@@ -80,24 +87,23 @@ private:
     {
         if ( !error || error == asiolib::error::not_found )
         {
-            auto bufs = inputBuffer->data();
+            auto bufs = input->buffer.data();
             auto size = static_cast<long>(length);
             if ( !error ) --size; // remove \n
             std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
-            inputBuffer->consume( length );
+            input->buffer.consume( length );
 
             Feed( s );
             Read();
         }
         else
         {
-            input.close();
+            input->descriptor.close();
         }
     }
 
-    std::shared_ptr<asiolib::streambuf> inputBuffer{ std::make_shared<asiolib::streambuf>() };
     const std::shared_ptr<bool> token{ std::make_shared<bool>(true) };
-    asiolib::posix::stream_descriptor input;
+    const std::shared_ptr<Input> input;
 };
 
 } // namespace detail
-- 
2.43.0


From 3b205462f4b270f3b937ef8c72b7f7d06882185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 28/28] fix: single characters written to the global stream
 were formatted by the sessions' streams

---
 include/cli/cli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 58a1cfa..b679221 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -91,7 +91,7 @@ namespace cli
         int overflow(int c) override
         {
             for (auto os: ostreams)
-                *os << static_cast<char>(c);
+                os->rdbuf()->sputc(static_cast<char>(c));
             return c;
         }            
 
-- 
2.43.0

