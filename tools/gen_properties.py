import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook)))
I='include/cli/'
p('C01','Command lines split into words exactly by the documented quoting rules',
 "For every input line the words a command receives are exactly these: unquoted spaces, tabs and newlines separate words; text between matching single or double quotes is one word of its own in which separators, '!' and the other quote kind are literal; a backslash before a quote or a backslash yields that character literally, and before any other character both characters are kept and the second one is literal. "
 "An unquoted and unescaped '!' is always a word of its own, an unterminated quote runs to the end of the line, a lone trailing backslash adds nothing, and empty words are dropped. "
 "A line with no words does nothing: no command, no error report and no history entry.",
 ['inputs'],"every byte string as an input line, of any length and mix of quotes, escapes, separators and '!'",
 "The tests split about 30 fixed strings; the state machine's behaviour on arbitrary nestings, adjacency and escapes at every position is never sampled.",
 [I+'detail/split.h',I+'cli.h'],[('character state machine',I+'detail/split.h: Text::Eval*'),('line entry point',I+'cli.h: CliSession::Feed')],
 ['arguments received by a free-form command handler through CliSession::Feed','history listing and wrong-command reports after blank lines'])
p('C02','A command runs only with arguments that denote values of its types, exactly',
 "A command with typed parameters runs only if the line gives exactly one word per parameter and each word denotes a value of that parameter's type, and its handler then receives exactly those values: integers are an optional sign ('-' only for signed types) and decimal digits within the type's range, plain char is exactly one character, bool is true, false or an integer equal to 1 or 0, floating point is what the C library reads from the whole word without spaces or range error, strings are the word itself, and other types whatever their stream extraction reads while consuming the whole word. "
 "For every other word the command does not match: its handler does not run, nothing wraps around, is truncated or crashes, and another command of the same name whose parameters do fit may still run.",
 ['inputs'],"every word, for every supported parameter type and every number of parameters",
 "The tests try three or four words per type; range edges, signs, leading zeros, wrap-around multiples and malformed words of any length are not reached.",
 [I+'detail/fromstring.h',I+'cli.h'],[('digit accumulation with overflow check',I+'detail/fromstring.h: unsigned_digits_from_string'),('sign and range handling',I+'detail/fromstring.h: signed_from_string'),('argument binding',I+'cli.h: Select::Exec, VariadicFunctionCommand::Exec')],
 ['values recorded by typed handlers','wrong-command reports'])
p('C03','Every line runs exactly the one command the menu position selects',
 "Every non-blank line either runs exactly one handler, moves the session to exactly one menu, or is reported exactly once, with the whole line, as wrong. "
 "The choice is the first match in this order: built-in commands, then the entries of the current menu in insertion order (a submenu's name followed by words looks them up inside that submenu in the same way), then the parent menu addressed by its name or by '..' and so on upwards. "
 "A menu's name (or '..') alone makes it the current menu, shown by its prompt, and nothing else changes the current menu.",
 ['inputs','configurations','histories'],"every menu tree (with overloads, free-form commands, equal names at different levels), every current position and every sequence of lines",
 "The tests use one three-level tree and seven fixed lines; ambiguous names, overloads tried after a failed conversion, '..' chains and long navigation histories are not sampled.",
 [I+'cli.h'],[('menu scan',I+'cli.h: Menu::ScanCmds, HandleCommand, ExecParent'),('line entry point',I+'cli.h: CliSession::Feed'),('prompt',I+'cli.h: CliSession::Prompt')],
 ['which handler ran with which arguments','prompt text','wrong-command handler calls'])
p('C04','Disabled or removed commands vanish everywhere; handles are always safe',
 "From the moment a command or submenu is disabled (until it is enabled again) or removed, it is never executed or entered, never listed by help and never offered as a completion, and neither is anything reached through it; all other entries keep working in their order, and enabling restores the entry in its original place. "
 "Handles may be used any number of times in any order, also after the command, its menu or the whole menu tree is gone and from inside running handlers (including the handler of the very command removed), without any memory error. "
 "A session whose current menu is removed continues in the root menu.",
 ['histories','inputs'],"every sequence of insert, enable, disable, remove and command lines, including operations done inside handlers, over every menu tree",
 "No test enables, disables or removes anything; the combinations with navigation, completion, help and lifetime are unbounded.",
 [I+'cli.h'],[('enabled flag checked on every path',I+'cli.h: Command::IsEnabled and its users'),('weak handles',I+'cli.h: CmdHandler::Descriptor'),('completion of menus',I+'cli.h: Menu::GetCompletionRecursive')],
 ['handlers run','help text','completions','AddressSanitizer reports'],
 [dict(name='current menu of a session',meaning='must stay valid while menus are removed',where=I+'cli.h: CliSession')])
p('C05','Completion offers exactly the reachable enabled names extending the text',
 "For every typed text (leading spaces ignored) the offered completions are exactly, sorted and without duplicates: each enabled built-in or enabled entry of the current menu whose name begins with the text, and, when the text begins with the whole name of an enabled submenu (or of the parent, also written '..') followed by the end or a space, that name, a space, and each completion offered inside that menu for the remaining text; and the parent's name itself if it begins with the text. "
 "Pressing Tab with one completion replaces the line by it plus a space, with several extends the line to their longest common prefix if that is longer, and otherwise lists all of them and redraws prompt and line unchanged; with none it does nothing.",
 ['inputs','configurations'],"every text, menu tree, enabled/disabled state and current position",
 "Completion is tested on one small tree with ten texts and Tab handling is not tested at all.",
 [I+'cli.h',I+'detail/commonprefix.h',I+'detail/commandprocessor.h'],[('recursive completion',I+'cli.h: Menu::GetCompletions, GetCompletionRecursive, GetCompletionWithParent'),('merge, sort, unique',I+'cli.h: CliSession::GetCompletions'),('common prefix',I+'detail/commonprefix.h: CommonPrefix'),('Tab handling',I+'detail/commandprocessor.h: CommandProcessor::NewCommand')],
 ['CliSession::GetCompletions','screen contents and submitted line after Tab'])
p('C06','Help lists exactly what can be used here, once, with its parameters',
 "Help prints a heading and then exactly one entry for each built-in command, each enabled entry of the current menu in insertion order, and the enabled parent menu, and nothing else. "
 "Each entry shows the name, the parameter descriptions given at insertion or otherwise one type name per parameter in order, and on the next line the description.",
 ['configurations','histories'],"every menu tree, set of descriptions and parameter types, enabled state and current position",
 "One test greps the help text for two names in the root menu; completeness, order, parent, parameters and dynamic changes are not checked.",
 [I+'cli.h'],[('help composition',I+'cli.h: CliSession::Help, Menu::MainHelp'),('entry formatting',I+'cli.h: VariadicFunctionCommand::Help, FreeformCommand::Help, Menu::Help, PrintDesc, TypeDesc')],
 ['output of the help command compared with a model of the menu tree'])
p('C07','The terminal always shows the edited line, and Enter submits that line',
 "For every sequence of keys the line submitted on Enter is what standard editing gives: typed characters go in at the cursor, backspace removes before it, delete removes at it, left, right, home and end move it within the line, history, completion and clear-screen keys rewrite the line and put the cursor at its end. "
 "After every key a terminal interpreting the output shows the prompt followed by exactly that line, with nothing left over from longer earlier lines and with the cursor at the editing position, also after the completion list and after clear-screen, which leaves only prompt and line on the screen.",
 ['inputs','histories'],"every sequence of key events (printable characters, editing, arrows, home/end, tab, clear, enter), with any history and menu contents, coloured or not, on a terminal wide enough not to wrap",
 "No test drives the line editor or looks at the screen; only unbounded key sequences exercise cursor positions, redraws and their combinations.",
 [I+'detail/terminal.h',I+'detail/commandprocessor.h',I+'detail/telnetscreen.h'],[('incremental redraw',I+'detail/terminal.h: Terminal::Keypressed, SetLine'),('key dispatch',I+'detail/commandprocessor.h: CommandProcessor::NewCommand')],
 ['bytes written to the session stream, interpreted by a terminal emulator','argument of the wrong-command handler (the raw submitted line)'],
 [dict(name='edited line and cursor',meaning='must equal what the terminal displays',where=I+'detail/terminal.h: currentLine, position')])
p('C08','History keeps the latest lines, bounded, ordered, numbered and browsable',
 "The history never holds more than the configured number of entries (including zero; while browsing, the line being edited takes one of the places), always the most recent ones, in order; a line equal to the newest entry is not stored again; the numbers listed increase by one from oldest to newest and an entry keeps its number as long as it is kept. "
 "Up walks from the newest entry to older ones, stopping at the oldest, Down walks back towards the line being edited, and edits made on an entry while browsing stay on that entry; submitting a line then stores it as the newest entry and leaves the others as they are. "
 "No sequence of keys and commands, for any size, crashes.",
 ['histories','inputs','configurations'],"every sequence of submitted lines, Up, Down and edits, every history size from 0, every preloaded history",
 "The tests run six fixed sequences at sizes 3 and 10; eviction combined with browsing, edits, repeats, preloading and sizes 0 and 1 is not covered.",
 [I+'detail/history.h',I+'cli.h'],[('bounded buffer with browse mode',I+'detail/history.h: History::NewCommand, Previous, Next, Insert'),('listing',I+'detail/history.h: History::Show')],
 ['CliSession::PreviousCmd/NextCmd results','output of the history command'],
 [dict(name='buffer, current, mode, idOfOldest',meaning='entries, browse cursor, number of the oldest entry',where=I+'detail/history.h')])
p('C09','Recalling history entry N runs exactly that entry, or reports an error',
 "'!' followed by the number shown for a history entry runs exactly that entry's line once, as if it had been typed, for every entry currently listed, and the history afterwards holds that line as newest entry instead of the '!' line. "
 "For any other index nothing is run, the error is reported once through the exception handler, the session goes on and the history is as before; no recall ever crashes, loops or recurses without end, whatever the history contains.",
 ['inputs','histories'],"every number, every history content, size and state (empty, full, one entry, preloaded, edited entries, entries that are recalls themselves)",
 "No test uses '!' through a session.",
 [I+'cli.h',I+'detail/history.h'],[('recall',I+'cli.h: CliSession::ExecFromHistory'),('number to entry',I+'detail/history.h: History::At, IdToIndex, ForgetLatest')],
 ['handlers run','exception handler calls','history listing before and after'])
p('C10','History storage gains exactly each exited session\'s own lines, in order',
 "When a session exits, the storage afterwards holds its previous contents followed by exactly the lines that session added to its history and still holds, oldest first, cut to the newest entries up to the storage's capacity; lines the session had loaded at its start are never stored again, whatever was repeated, recalled or browsed. "
 "A new session starts with the storage's contents as its history, and file storage gives the same contents to any later storage object on the same file (single-line entries), also when the file is missing; an unusable file means no stored history, not a failure.",
 ['histories','configurations','fault_sequences'],"every interleaving of sessions (including overlapping ones) over one storage, every capacity and history size, restarts between any two sessions, and file faults",
 "Storage is tested alone with two stores; the session-to-storage hand-over, overlapping sessions, duplicates and recalls are never tested.",
 [I+'cli.h',I+'detail/history.h',I+'filehistorystorage.h',I+'volatilehistorystorage.h'],[('hand-over at exit',I+'cli.h: CliSession::Exit, Cli::StoreCommands'),('own-lines count',I+'detail/history.h: History::GetCommands'),('append and trim',I+'filehistorystorage.h: FileHistoryStorage::Store; '+I+'volatilehistorystorage.h: VolatileHistoryStorage::Store')],
 ['HistoryStorage::Commands() and the file after each session','history listing at the start of each session'])
p('C11','A failing handler never harms the session and is reported exactly once',
 "Whatever a command handler throws stays inside the session: an exception derived from the standard one, of any type, reaches the registered exception handler exactly once with the line entered and the exception's text (or, with none registered, that text is printed), any other exception is reported once with the line, and the handler is run exactly once with no other command tried. "
 "Unknown commands and unfitting arguments reach the wrong-command handler exactly once with the whole line, or print it if none is registered. "
 "Afterwards the session continues with the same menu, prompt and history as after a successful command.",
 ['inputs','histories','fault_sequences'],"every exception type, thrown by any command at any menu depth or overload, in any sequence with other lines",
 "The tests throw one logic_error and one int from the root menu and look only at the absence of an escape.",
 [I+'cli.h'],[('containment',I+'cli.h: CliSession::Feed try/catch'),('conversion failures told apart from handler failures',I+'cli.h: VariadicFunctionCommand::Exec'),('reporting',I+'cli.h: Cli::StdExceptionHandler, WrongCommandHandler')],
 ['calls of the user handlers and their arguments','session output'])
p('C12','Sessions enter once, exit once, prompt between, and read every line in order',
 "Each session runs the enter actions once, before its first prompt, shows one prompt before each line it reads, and, on the exit command or (file and terminal sessions) the end of its input, runs the session's and then the global exit action exactly once, stores its history once, and from then on runs no command and shows no prompt. "
 "A file session runs every newline-terminated line of its input, in order and exactly once, up to the exit command or the end of input (a failing input has ended), and then returns, also when a handler itself consumes the rest of the input or an exit action has been set by the user.",
 ['inputs','histories','fault_sequences'],"every input stream and script, including empty ones, ones failing in the middle and ones with an exit command at any position, with any combination of actions set",
 "Two tests check that one flag was set by a one-line script; order, multiplicity, end-of-input and prompt counting are not checked.",
 [I+'cli.h',I+'clifilesession.h'],[('enter/exit',I+'cli.h: CliSession::Enter, Exit'),('prompt suppression',I+'cli.h: CliSession::Prompt'),('read loop',I+'clifilesession.h: CliFileSession::Start')],
 ['ordered log of actions, prompts, handlers and storage calls'],
 [dict(name='exit flag',meaning='session has exited',where=I+'cli.h: CliSession::exit; '+I+'clifilesession.h: exit')])
p('C13','The global output stream reaches every live session once, and no dead one',
 "Text written to the global output stream appears completely, in order and once on the output of every session existing at that moment, whichever way it is written (characters, strings, formatted values, flushes) and however many sessions there are, and on no session created later or already destroyed. "
 "Creating and destroying sessions in any order, including sessions that share one output stream and from inside command handlers, never loses another session's subscription nor leaves a dangling one.",
 ['histories','inputs'],"every interleaving of session creation, destruction and global output, with distinct or shared output streams",
 "No test uses the global stream.",
 [I+'cli.h'],[('fan-out stream buffer',I+'cli.h: OutStream::xsputn, overflow'),('subscription',I+'cli.h: OutStream::Register, UnRegister; CliSession constructor and destructor')],
 ['contents of every session stream after each operation','AddressSanitizer reports'])
p('C14','Posted work runs exactly once, in posting order, on a running thread',
 "Every function posted to any of the schedulers, from any thread (including from running work and from command handlers), is run exactly once, never inside the posting call, and only on a thread currently running the scheduler; functions posted by one thread run in the order they were posted when one thread runs the scheduler. "
 "No posted function is lost or delayed indefinitely while a thread is running the scheduler, and posting, running and stopping from different threads is free of data races.",
 ['schedules','histories'],"every interleaving of posting threads with running and stopping threads, for the loop, Boost.Asio and standalone Asio schedulers (owned and external contexts)",
 "The tests post one function from one thread and then run it; no concurrency between posting and running is ever exercised.",
 [I+'loopscheduler.h',I+'detail/genericasioscheduler.h',I+'scheduler.h',I+'detail/newboostasiolib.h',I+'detail/newstandaloneasiolib.h'],[('mutex-protected queue with condition variable',I+'loopscheduler.h'),('executor and work guard',I+'detail/genericasioscheduler.h')],
 ['per-task unique ids logged at run time with thread id','ThreadSanitizer reports'])
p('C15','Schedulers run until stopped, stop promptly and survive throwing work',
 "Running the scheduler keeps it running, even with nothing to do, until it is stopped, and then returns after at most the function in progress, on every running thread and whichever thread stops it, also when the stop comes first; afterwards it reports itself stopped. "
 "Running one function runs at most one and waits for it if necessary; polling runs at most one and never waits; the loop scheduler tells whether it ran one. "
 "An exception from posted work reaches the caller running the scheduler, exactly once, and no other posted function is lost, repeated or reordered by it.",
 ['schedules','histories','fault_sequences'],"every sequence and interleaving of post, run, run-one, poll-one, stop and throwing work, for all schedulers",
 "Each scheduler has one single-threaded test of one exception and none of stop, poll or waiting.",
 [I+'loopscheduler.h',I+'detail/genericasioscheduler.h'],[('stop flag and wake-up',I+'loopscheduler.h: Stop, ExecOne, PollOne'),('work guard reset and context stop',I+'detail/genericasioscheduler.h: Stop, Run')],
 ['return of Run/ExecOne/PollOne, tasks run before and after, Stopped()'])
p('C16','Telnet input means the same however it is segmented and negotiated',
 "The keys a remote session sees depend only on the bytes the client sent, not on how the network splits them: data bytes in order with doubled IAC read as one data byte, commands, option negotiations and subnegotiations removed wherever they occur, CR NUL and CR LF as Enter, BS and DEL as backspace, the ESC [ A/B/C/D/H/F and ESC [ 3 ~ sequences as the arrow, home, end and delete keys, FF as clear, EOT (and the data byte 255) as end of session, and other printable characters and Tab as themselves. "
 "Each option request is answered once with a well-formed three-byte reply naming the same option (refusals for options not supported; none for WONT and DONT), and the bytes of negotiations never appear in command lines.",
 ['inputs','histories'],"every client byte stream made of those elements and every segmentation of it",
 "The tests never open a network connection.",
 [I+'detail/genericasioremotecli.h',I+'detail/server.h'],[('protocol state machine',I+'detail/genericasioremotecli.h: TelnetSession::Consume, Data, Command'),('key state machine',I+'detail/genericasioremotecli.h: CliTelnetSession::Output'),('read loop',I+'detail/server.h: Session::Read')],
 ['lines submitted and handlers run on the server','reply bytes received by the client'],
 [dict(name='state, escape, step',meaning='protocol and key decoder states carried across reads',where=I+'detail/genericasioremotecli.h')])
p('C17','Remote output arrives complete, in order, with correct telnet framing',
 "The bytes a telnet client receives, after removing well-formed telnet commands and undoubling IAC, are exactly what was written to the session's stream, in order, nothing lost, repeated or interleaved with another session's, with each newline sent as CR LF. "
 "This holds for any size and way of writing, any byte values, short or interrupted network writes, and slow readers; telnet commands the server sends are never altered by the text translation.",
 ['inputs','fault_sequences','schedules'],"every sequence of writes of any bytes and sizes from handlers, prompts and the global stream, every pattern of partial sends",
 "The tests never open a network connection.",
 [I+'detail/server.h',I+'detail/genericasioremotecli.h'],[('stream buffer to socket',I+'detail/server.h: Session::xsputn, overflow, Send'),('translation',I+'detail/genericasioremotecli.h: TelnetSession::Encode, SendIacCmd')],
 ['bytes received by the client compared with those written by handlers'])
p('C18','The telnet server survives any client behaviour and keeps sessions apart',
 "Whatever a client sends, and whenever it closes, resets or half-closes its connection or stops in the middle of anything, the server thread never terminates or throws, other sessions see none of it (their menu position, edited line, history and output are their own), and new clients keep being served. "
 "Each connection runs the enter actions (global and the server's) at its start and its exit closes that connection only; every connection's descriptor and memory are released once it is closed from either side. "
 "All of it also holds with no enter or exit action set, under failing accepts, reads and writes, and when the server object is destroyed while its scheduler goes on running.",
 ['fault_sequences','inputs','schedules','configurations'],"every interleaving of connects, partial input, exits, disconnects and resets by many clients, and failures of every socket call",
 "The tests never open a network connection.",
 [I+'detail/server.h',I+'detail/genericasioremotecli.h',I+'boostasioremotecli.h',I+'standaloneasioremotecli.h'],[('session lifetime by shared ownership in handlers',I+'detail/server.h: Session::Read, Server::Accept'),('disconnect',I+'detail/server.h: Session::Disconnect'),('per-connection session',I+'detail/genericasioremotecli.h: CliTelnetSession, CliGenericTelnetServer')],
 ['per-client transcripts against a per-session model','open descriptors and live sessions at quiescence','exceptions out of the scheduler','AddressSanitizer/LeakSanitizer reports'])
p('C19','Local sessions turn keystrokes into lines faithfully and restore the terminal',
 "A local session on a terminal turns the bytes typed into exactly the corresponding keys in order, none lost or repeated however they are chunked: printable characters, Enter, BS and DEL as backspace, ESC [ A/B/C/D/H/F and ESC [ 3 ~ as arrows, home, end and delete, FF as clear, Tab, and EOT as end of session; signals handled by the application and interrupted system calls lose nothing and do not stop input. "
 "The end of the standard input ends the session once instead of spinning. "
 "The terminal is in its original mode while a command handler runs and after the session is destroyed, and in character mode without echo while keys are awaited.",
 ['inputs','fault_sequences','schedules'],"every key byte sequence and chunking, interruptions at every system call, end of input at every point, every original terminal mode",
 "The tests never create a local session; there is no terminal in them.",
 [I+'detail/linuxkeyboard.h',I+'clilocalsession.h',I+'detail/commandprocessor.h'],[('key decoding',I+'detail/linuxkeyboard.h: LinuxKeyboard::Get'),('waiting',I+'detail/linuxkeyboard.h: InputSource::WaitKbHit'),('terminal modes',I+'detail/linuxkeyboard.h: ToManualMode, ToStandardMode'),('suspension during commands',I+'detail/commandprocessor.h: Symbol::command')],
 ['lines submitted, handlers run','termios of the pty inside handlers, between lines and after destruction'])
p('C20','Sessions can be destroyed at any moment without hang or memory error',
 "Destroying a session of any kind, outside its own handlers, at any point (keys still queued in the scheduler, input disabled after a command failed out of it, in mid-line, after exit, with end of input pending, before the scheduler ever ran) completes without blocking, and neither running the scheduler afterwards nor its destruction touches the destroyed session. "
 "All threads and descriptors the session created are gone, and other sessions and the scheduler keep working.",
 ['schedules','crash_points','histories'],"every destruction point relative to typed input, queued key events, running scheduler and other sessions",
 "The tests never destroy a session with pending work; teardown issues were found by users (changelog #132, #153).",
 [I+'detail/inputdevice.h',I+'detail/linuxkeyboard.h',I+'cli.h',I+'detail/genericcliasyncsession.h'],[('queued key events',I+'detail/inputdevice.h: InputDevice::Notify'),('thread shutdown',I+'detail/linuxkeyboard.h: ~LinuxKeyboard, InputSource::Stop'),('subscription removal',I+'cli.h: ~CliSession')],
 ['AddressSanitizer and ThreadSanitizer reports','thread and descriptor counts','completion of the destructor under a watchdog'])
p('C21','No input whatsoever causes undefined behaviour, a failed assertion or a hang',
 "For every sequence of bytes given as lines, keys or network data to any session, with any menus, history sizes and actions, processing terminates without undefined behaviour (invalid memory access, arithmetic overflow, misuse of library functions), failed internal assertions, uncaught exceptions or unbounded recursion. "
 "Memory held by a session stays bounded by its configured history and the length of the line being edited.",
 ['inputs','histories'],"every byte sequence on every input path",
 "The tests use well-formed input only and are not built with sanitizers.",
 [I+'cli.h',I+'detail/split.h',I+'detail/fromstring.h',I+'detail/history.h',I+'detail/terminal.h',I+'detail/commandprocessor.h',I+'detail/genericasioremotecli.h'],[('all input paths',I+'cli.h: CliSession::Feed; '+I+'detail/commandprocessor.h; '+I+'detail/genericasioremotecli.h')],
 ['sanitizer reports, assertion failures, precondition monitors on library calls, allocation high-water mark'])
p('C22','Asynchronous sessions run each input line once, however input arrives',
 "A session reading lines asynchronously from the standard input runs every newline-terminated line exactly once, in order and unchanged, however the bytes are split or merged over reads and whatever else the event loop is doing, and shows one prompt before each line. "
 "At the end of input or on a read error it stops reading without failing the event loop, and other work on the loop continues.",
 ['inputs','schedules','fault_sequences'],"every byte stream of lines of any length and every segmentation, on Boost.Asio and standalone Asio",
 "The tests never create such a session.",
 [I+'detail/genericcliasyncsession.h',I+'boostasiocliasyncsession.h',I+'standaloneasiocliasyncsession.h'],[('line reassembly',I+'detail/genericcliasyncsession.h: Read, NewLine')],
 ['handlers run and their arguments, prompts written'])
p('C23','Colour changes appearance only, never the text or the behaviour',
 "With colours on or off, and switched at any moment, every session produces the same text once colour sequences are removed, and runs the same commands. "
 "With colours never switched on, no colour sequence is written to an output that is not a terminal; with colours on, prompt and typed input are each bracketed by a colour sequence and a reset, so that handler output is never coloured by them.",
 ['inputs','histories','configurations'],"every script of lines and keys with every placement of colour switches",
 "No test enables colours.",
 [I+'colorprofile.h',I+'detail/rang.h',I+'cli.h',I+'detail/terminal.h'],[('colour bracketing',I+'colorprofile.h: operator<<'),('prompt',I+'cli.h: CliSession::Prompt'),('echo',I+'detail/terminal.h')],
 ['output bytes with and without colour, attribute state tracked by a terminal emulator at every handler output'])
p('C24','Command handlers run only on the scheduler thread, one at a time',
 "With local and remote sessions attached to a scheduler run by one thread, every command handler, enter and exit action and completion runs on that thread and never while another handler is running, whatever threads produce input, so handlers may share unsynchronised state; commands of one session run in the order entered. "
 "Input threads, network activity, posts from other threads and stopping share no unsynchronised data with them.",
 ['schedules'],"every interleaving of keyboard input, network input, posted work and stop",
 "No test runs a session on a scheduler.",
 [I+'detail/inputdevice.h',I+'detail/linuxkeyboard.h',I+'clilocalsession.h',I+'detail/genericasioremotecli.h',I+'loopscheduler.h'],[('key events posted to the scheduler',I+'detail/inputdevice.h: InputDevice::Notify'),('input enable flag',I+'detail/linuxkeyboard.h: ActivateInputImpl, DeactivateInput, Read')],
 ['thread ids and nesting recorded inside handlers','unsynchronised shared state under ThreadSanitizer'])
p('C25','What the library is given or creates is released, once and in time',
 "Everything handed to the library is destroyed exactly once and no later than what keeps it: a command (with its handler and whatever that captured) or a submenu as soon as it has been removed and is not running, whatever handles to it still exist; the actions of a session with the session; menus, handlers, actions and history storage with the Cli; a posted function once it has run, or with its scheduler if it never does. "
 "After sessions, servers, schedulers and the Cli have been destroyed, at any moment and with whatever connections, reads, posted work or failed handlers are pending, no memory they allocated is left.",
 ['histories','schedules','fault_sequences'],"every sequence of insertions, removals, commands (throwing, removing themselves, holding their own handles), connections, faults and destructions, for every kind of session and scheduler",
 "The tests never look at what survives: a command kept after its removal, a cycle between a session and its pending read, or a leak on an error path changes nothing they observe.",
 [I+'cli.h',I+'detail/server.h',I+'detail/inputdevice.h',I+'detail/genericcliasyncsession.h',I+'loopscheduler.h',I+'detail/genericasioscheduler.h'],[('weak handles',I+'cli.h: CmdHandler::Descriptor'),('session kept by its pending read only',I+'detail/server.h: Session::Read'),('context owned by the scheduler',I+'detail/genericasioscheduler.h: ~GenericAsioScheduler'),('input kept by its pending read only',I+'detail/genericcliasyncsession.h: Read')],
 ['destructor calls of objects captured by handlers, actions and posted functions','LeakSanitizer reports'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
