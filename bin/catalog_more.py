prop("C14", "A task owns its callable once, through every move and execution",
     "A task holding a callable (of any size, movable or only copyable, or a suspended coroutine) runs it at most once, keeps its content intact through any number of moves, and destroys it exactly once when executed (throwing or not), cleared, overwritten or released. A task moved from, executed or cleared is empty and says so.",
     ["histories", "inputs"], "every history of constructing, moving, assigning, executing and clearing tasks of every callable shape and size around the inline capacity",
     "the tests move a task a few times with a small set of callables",
     [I + "concurrency/task.h", S + "concurrency/task.cc"], [("inline or allocated storage behind a vtable", I + "concurrency/task.h")],
     "stateful model-based testing with instance-counting, address-checking callables under AddressSanitizer")
prop("C18", "Timers fire on time, on their executor, and never after cancellation",
     "A one-shot timer runs once and a delay ends once, not before its due time; a periodic timer first runs after its due time and then again after each period, also when the period is changed, until it is cancelled. However far a due time or period is, it is waited for, whatever the system's date is set to meanwhile. Callbacks run on the executor given; none given is refused. A plain sleep lasts as long as asked. Once a timer is cancelled, overwritten or destroyed, no new callback of it starts apart from one already being handed over. Shutting down the queue or an executor at any moment is safe: later timers are refused, pending delays are interrupted, all threads end and every callable is released.",
     ["schedules", "programs"], "every interleaving of users, timer thread, idle retirement of the timer thread, executors and shutdowns; every set of due times and periods",
     "the tests sample a few real-time runs with tolerance; retirement and shutdown races need exact timing",
     [S + "engine/timer_queue.cc", S + "engine/timer.cc", I + "engine/timer.h", I + "engine/timer_queue.h"], [("request queue and deadline set of the timer thread", S + "engine/timer_queue.cc"), ("firing and cancelling", S + "engine/timer.cc")],
     "generated timer programs under a deterministic scheduler with a virtual clock and heap checking")
prop("C08", "Packets between connections arrive once, in order, intact, or not at all",
     "Every packet accepted by send on an open connection, from any thread or from a dispatcher, is dispatched exactly once at the other end, unchanged and in the order of its sender, whatever fragmentation, short or interrupted socket calls, slow readers and interleavings occur; complete packets that arrived before the peer closed are dispatched, and then the disconnect is reported once. A connection that takes no data does not keep others from being served, valid traffic never gets a connection dropped, byte counters match, and with nothing to do nothing runs. Stopping a listener or connector at any time ends all of its threads, and its connections, also for their peers.",
     ["schedules", "faults", "histories"], "every interleaving of senders, pollers and workers, every fragmentation, every short, refused or interrupted socket call, epoll and select",
     "the tests exchange a few packets over an idle loopback; lost wake-ups need an exact interleaving of a poll event with the work on the same connection",
     [S + "net/connection/manager.cc", S + "net/connection/basic.cc", S + "net/connection/epoll.cc", S + "net/connection/select.cc", S + "net/listener.cc", S + "net/connector.cc"], [("work flags of a connection and their hand-over to the executor", S + "net/connection/basic.cc"), ("balanced queue of waiting connections", S + "net/connection/manager.cc")],
     "generated traffic between real listeners, connectors and raw clients under a deterministic scheduler with injected short, refused and interrupted socket calls, against a per-sender sequence oracle",
     "searches generated traffic and schedules; stream sockets are Unix sockets standing in for TCP, so TCP-specific behaviour (RST, half-open links) is not explored")

prop("C09", "Connections keep their slots, identities, settings and callbacks apart",
     "A listener or connector manages at most its configured number of connections: each gets a free id from 1 to that maximum, a newcomer is refused only when all are taken, a slot freed by a disconnect can be used again, and is_full tells exactly this. For each connection the connect callback runs once and, when it ends for whatever reason, the disconnect callback once. Name, codec, dispatcher, callbacks and keep-alive given to a connection end with it and are never met by the next one on its slot; events or data of a former connection never reach the next. get by id or name finds the connection there now. A broadcast reaches every open connection once. However large the numbers of the sockets, each is served or, where it cannot be watched (by select, or as the system refuses), let go. A failed connect leaves nothing behind, and a kept-alive connection that is cut is connected again.",
     ["schedules", "histories", "faults"], "every history of arrivals, departures, kicks, renames, broadcasts and failing socket calls, and every interleaving of them with the polling and working threads",
     "the tests open a few connections once; slot reuse with stale events needs a close and an accept interleaved with work in progress",
     [S + "net/connection/manager.cc", S + "net/connection/basic.cc", S + "net/connector.cc", S + "net/listener.cc", S + "net/connection/select.cc", S + "net/connection/epoll.cc"], [("slot table and free list", S + "net/connection/manager.cc"), ("release and reset of a slot's connection", S + "net/connection/basic.cc")],
     "generated arrival, departure and reconnect histories under a deterministic scheduler with failing socket calls, against a model of the slots",
     "searches generated histories and schedules; one worker thread per manager, Unix sockets standing in for TCP")
prop("C10", "Every remote call has exactly one outcome, the right one",
     "A blocking or asynchronous call ends exactly once: with the value the bound function returned for these arguments, having run once; with an error when the function is unknown or the arguments do not fit; with a time-out if one was set on this connection, not before the time given, however far; or with an error when the connection or its manager ends first. Answers never reach another call, also with many calls from many threads under way and answers out of order. A notification runs the function at most once. A peer answering twice, to nobody, or with garbage, and a peer sending malformed requests, disturbs no other call, and never crashes the process.",
     ["schedules", "histories", "inputs", "faults"], "every interleaving of callers, answers, time-outs and disconnects; every order and content of answers",
     "the tests make single calls on an idle link; a time-out racing its answer or a disconnect racing a call need exact interleavings",
     [I + "net/rpc/dispatcher.h", S + "net/rpc/dispatcher.cc", I + "net/connection/basic.h", S + "net/connection/basic.cc"], [("pending call table of a connection", S + "net/connection/basic.cc"), ("calling bound functions and packing results", I + "net/rpc/dispatcher.h")],
     "generated call histories between real connections, and scripted odd peers, under a deterministic scheduler with a virtual clock, against per-call outcome accounting",
     "searches generated calls and schedules; bound functions do not throw")
prop("C11", "An address is read and written as what it says, or refused",
     "Every IPv4 address and every spelling of an IPv6 address, with or without port, together or apart, is read as that address and port (the documented special cases: none, any and loopback mean any when listening and loopback otherwise), whatever follows the given text in memory; host, text, port, family and socket address bytes agree with it and lead back to it, and equal addresses have equal bytes. Text that is no address, and ports beyond 65535, are refused with invalid_argument. Bytes are accepted exactly when their size fits their family.",
     ["inputs"], "every address, spelling, port and surrounding text; all byte strings up to 140 bytes",
     "the tests read six addresses",
     [S + "net/address.cc", S + "net/detail/socket.cc", I + "net/address.h"], [("parsing", S + "net/address.cc"), ("reading socket addresses", S + "net/detail/socket.cc")],
     "generated addresses in several spellings against inet_ntop and an independent reading, under AddressSanitizer")
prop("C19", "Log entries reach the log whole, once, in order and in time",
     "Every entry appended to a running async logger by any thread before it is stopped or destroyed is written to its files exactly once, whole, in the order of each thread, also the ones still buffered at the stop, and is on disk within the flush interval; entries before the start are not lost. A missing log folder is made, also in a build without assertions (NDEBUG). A new file, named after the base name given, is begun only when the size limit was exceeded or the day changed. A log statement is written (and printed, when printing is on) in one piece as one line of at most 4096 bytes: time in milliseconds, thread, level, function, the streamed values exactly, source file and line. Trace, debug and info statements below the level are neither written nor evaluated; a fatal one is written and flushed before the process aborts. A given time is formatted rightly from any thread.",
     ["schedules", "inputs", "histories"], "every interleaving of appending threads with the writing thread, its flush interval and the stop; every sequence of streamed values",
     "the tests append a few lines and look at nothing; an entry lost at a stop or between two buffers needs an exact interleaving",
     [S + "basic/async_logger.cc", S + "basic/logger.cc", S + "basic/time.cc", I + "basic/logger.h"], [("double buffers handed to the writing thread", S + "basic/async_logger.cc"), ("line assembly", S + "basic/logger.cc")],
     "generated append histories under a deterministic scheduler with a virtual clock, reading the files back; generated log statements against an independent rendering",
     "searches generated histories; entries up to 4 MB and backlogs below the announced drop limit")
prop("C20", "Encodings give back what was put in, and take any bytes safely",
     "Base64 text is the standard encoding and decodes to the same bytes, padded or not. The MD5 digest is that of RFC 1321 for every content, cut into updates in any way. A printable password of at most 20 characters (always one of at most 10) is encrypted to 32 printable characters that decrypt to it; longer or unprintable ones are refused. A text with any 32-bit number and any time comes back from its encrypted form. Bytes written as hexadecimal text come back, up to the room given. SQL escaping writes exactly the escaped text and never beyond its room. Bytes are shown as their hexadecimal numbers. Network order is big-endian and reversible for every type. Values written to a string stream come back in order as far as they fit, from any position; what is not there is not read. Forged or damaged input is refused or decoded to something no longer than it, and nothing outside of the given buffers is read or written.",
     ["inputs"], "all byte strings up to 3000 bytes, all 64-bit values, every cutting into parts and every room, forged encodings",
     "the tests encode nothing of this; a chunk border or an overread shows only with particular lengths and contents",
     [S + "basic/base64.cc", S + "basic/md5.cc", S + "basic/utility.cc", I + "basic/utility.h", I + "basic/endian.h", I + "basic/stringstream.h"], [("encrypting and hexadecimal text", S + "basic/utility.cc"), ("digest blocks", S + "basic/md5.cc"), ("bounded stream", I + "basic/stringstream.h")],
     "generated contents, cuttings, rooms and forged encodings against independent implementations and round trips, under AddressSanitizer")
prop("C21", "Text and path helpers do exactly what they say on every text",
     "Trimming removes exactly the mask's characters (space, tab, line ends, NUL, vertical tab if none is given) at the chosen ends; replacing replaces each occurrence from the left, as often as asked, and an empty search nothing; splitting gives exactly the parts between separators, as a word or as any of its characters, with or without empty ones; added slashes come off again; case conversion and checks concern ASCII letters only; wide text of any length comes back from UTF-8; numbers are parsed exactly; a formatted size has at most five characters and is right within half a percent; path conversion, directory name, completion and bounded copy stay within their room and terminated. Making a directory makes all parents with the mode given and succeeds for every one of several threads at once, and fails when something is in the way.",
     ["inputs", "schedules"], "all short texts over alphabets rich in separators, wide texts up to 1500 characters, all 64-bit numbers, paths up to 4200 bytes",
     "the tests check one or two ordinary texts",
     [S + "basic/utility.cc", I + "basic/utility.h"], [("text helpers", S + "basic/utility.cc"), ("inline text helpers", I + "basic/utility.h")],
     "generated texts against direct reference implementations, with heap blocks of exact size under AddressSanitizer")
prop("C22", "Configuration files and variables say what was written",
     "An ini file gives for every section exactly its keys, each with the text after the first '=' without trailing blanks and ';' comments, the first of repeated ones counting and repeated sections joined; keys before any section are ignored; values are read as text cut to the room, number, variable or type asked for, and what is absent gives the default. A table file gives for every record and typed column exactly its cell, missing cells empty and extra ones ignored, without comment and empty lines; cells outside do not exist; searching a column or an index finds the first record with the value; saved as text (floats to three digits) or as binary it reads back the same. A reader opened again holds the new file only. Arbitrary bytes are refused or read without touching memory outside. A variable keeps type and value, compares as such, and calculates exactly.",
     ["inputs", "histories"], "every file of sections, keys, comments and line ends, lines up to 1800 bytes and tables up to 66000 records; arbitrary bytes; every pair of variable types",
     "the tests read one small file",
     [S + "file/ini.cc", S + "file/tab.cc", I + "file/ini.h", I + "basic/type/variable.h", S + "basic/type/variable.cc"], [("parsing ini text", S + "file/ini.cc"), ("parsing and saving tables", S + "file/tab.cc"), ("variable operators", I + "basic/type/variable.h")],
     "generated files with a model of their content, read, reread, saved and read back; generated hostile bytes; under AddressSanitizer")
prop("C23", "Pool memory in use is never handed out twice, and freed memory is used again",
     "Blocks handed out by a memory pool are aligned as those of malloc, lie apart from every block in use and keep their content until they are freed, whichever threads allocate and free at the same time and whichever of them frees a block. A pool allowed to use the system never refuses an ordinary size; one that is not refuses (by exception or null, as configured) only what does not fit, and once all blocks of its leaves are freed, the whole of it can be had again. Sizes from 2 GB on are refused. check_access tells exactly whether a range lies in a block. Freeing a block of another pool is refused, freeing nothing does nothing. Debug builds refuse double frees as well. Containers using a pool allocator, their own or the default pool, and the stack allocator behave like ordinary ones.",
     ["schedules", "histories", "inputs"], "every interleaving of allocating and freeing threads; every history of sizes",
     "the tests do not use the pool; handing out memory in use needs a free between two steps of an allocation",
     [I + "sys/memory/pool.h", I + "sys/memory/stack_allocator.h"], [("leaf accounting", I + "sys/memory/pool.h")],
     "generated allocation histories with a record of the blocks in use, single-threaded under AddressSanitizer and multi-threaded under a deterministic scheduler",
     "searches generated histories and schedules on pools with one to four small leaves")
prop("C24", "Queued and looping functions run once each, in order, on their threads",
     "Every function given to a thread pool or task queue from any thread runs exactly once (the ones still waiting when the pool or queue ends before its end returns), on a thread of the pool or the one working the queue, and its future gives its value or its exception. One pool thread or a task queue runs the functions of a producer in order; a pool of n threads runs n functions at the same time and never on more threads. A function queueing others while the queue closes is served or refused with an error. A thread given a function returning bool calls it until it returns false, one returning nothing once, running under the name given (up to 15 bytes), whatever becomes of its text; any number of threads may start and end at the same time, with ids of their own. A bound call keeps its own copies of its arguments, can be called again, and releases them once; one with try and catch never throws. Functions are released and no thread is left.",
     ["schedules", "histories"], "every interleaving of producers, workers and the end of the queue; every mix of functions that return, throw, sleep and queue others",
     "the tests run a few functions and wait for them; one lost or run twice at the end of the queue needs an exact interleaving",
     [I + "basic/task_queue.h", I + "sys/thread.h", S + "sys/thread.cc", I + "basic/bind.h", S + "basic/global.cc"], [("waiting functions of a pool and its end", I + "sys/thread.h"), ("waiting functions of a queue", I + "basic/task_queue.h")],
     "generated functions and producers under a deterministic scheduler against per-function accounting; generated bound calls under AddressSanitizer")
prop("C25", "The engine knows its nets by name and its console answers each line",
     "At any time at most one net runs under a name: starting another under it is refused, a net without name gets a free one, a stopped net's name is free again, and removing a net removes the one with exactly this name. Several threads may start and stop nets at once. Every line sent to the console, fragmented in any way and by several clients, is answered in order by the handler registered last for its first word with the other words (none or blank lines and handlers with nothing to say are not answered, unknown commands end the connection); list shows exactly the nets running, kill stops exactly the nets named (the console excepted) and names those it could not, without names all but the console; help shows the given descriptions. A console whose address or name is taken is not enabled and can be enabled elsewhere. An engine's executors have the options given, and when it ends its threads have ended and its tasks are released.",
     ["histories", "schedules", "inputs"], "every history of starts, stops, kills and names; every sequence and fragmentation of command lines; every interleaving of clients, handlers registered meanwhile and nets stopping",
     "the tests never enable the console and start nets under distinct names",
     [S + "engine/kernel.cc", I + "engine/kernel.h"], [("registry of nets and console commands", S + "engine/kernel.cc")],
     "generated console sessions and net histories on a real engine under a deterministic scheduler with a model of the registry",
     "searches generated histories and schedules; Unix sockets standing in for TCP")
prop("C26", "Libraries are found by name, loaded once and let go; pid files are true",
     "A library is found under its name with the system's suffix (added unless the name has it, a version may follow) and, failing that, with the prefix, in the first search path that has a loadable file; the possible names set for it are tried in order. What is no library or cannot be looked at is passed over and never ends the process. A name is loaded once, however often asked, and its entry function is called once with the engine and the parameters given; its symbols are found (with an underscore in front as well) while it is loaded, only then, and are seen by everybody exactly if asked for. Unloading, or the end of the manager or library object, lets go of the file entirely, so it can be loaded again; unloading what is not loaded is harmless. The search paths and names are those set, added and removed. The name of the pid file is that of the program and .pid, cut to the room given. A written pid file gives this process's id, one without a number or absent none; waiting for its process tells that process alone and returns when it has ended, at once if none is named. A daemon goes on in a session of its own, without standard descriptors, hang-ups and mask. A command of any length is run whole and its first line arrives cut to the room given.",
     ["histories", "inputs"], "every tree of libraries, broken files and folders on the search paths, every history of loads, unloads, names and paths; every content of a pid file",
     "the tests load no library",
     [S + "file/library.cc", I + "file/library.h", S + "sys/process.cc", S + "sys/utility.cc"], [("looking for and holding a library", S + "file/library.cc"), ("process helpers", S + "sys/process.cc")],
     "generated trees of real shared objects and histories against a model of what is found, held and let go, asking the dynamic linker itself; generated pid files and commands; under AddressSanitizer")
prop("C27", "Files hold what was written where, and descriptors tell the truth",
     "Reading, writing and moving through descriptors does to a file's content and positions what was asked: reads return the bytes at the position, writes put them there (at the end when appending), duplicates share the position and others do not, the position told is the one in effect, and as much is said to be available as is left to read; emptying by name empties, opening refuses or creates as the flags say. The blocking mode told is the one set, no other flag changes with it, and a closed descriptor fails every call and is not nonblocking; a full or empty nonblocking pipe fails instead of losing bytes. A file appended to holds what was there and then everything appended, once and in order, after each flush and at the end, under exactly the name given even within a longer text, and the number of bytes written is true.",
     ["histories", "inputs"], "every history of opening with any flags, duplicating, moving, reading, writing, emptying and closing over several files and pipes; every sequence of appends of any size, flushes and reopenings",
     "the tests use none of it",
     [S + "file/api.cc", S + "file/utility.cc", I + "file/api.h", I + "file/utility.h"], [("descriptors", S + "file/api.cc"), ("appending", S + "file/utility.cc")],
     "generated histories of descriptors over real files and pipes against a model of content, positions and flags; under AddressSanitizer")
prop("C28", "Script environments keep their ids and live until they are closed",
     "A script environment is found under the id it was given, and only under it, from its making until it is closed or its factory ends; then it is destroyed, exactly once, and not before, whatever other environments come and go. The id of a live environment is never given to another; ids that were freed can be used again, and as many environments can live as there are ids, after which making one is refused without harm. An environment of a type is made by the creator registered last for it and gets the paths given; one of an unknown type is refused. Asking for or closing an id that is not there changes nothing. Each environment has its own tasks.",
     ["histories"], "every history of making, asking for and closing environments of any types and ids, up to the number of ids there are",
     "the tests use none of it",
     [S + "script/factory.cc", I + "script/factory.h", I + "script/interface.h", I + "script/config.h"], [("ids and ownership", S + "script/factory.cc")],
     "generated histories against a map of live environments, each counting its life; under AddressSanitizer")
prop("C29", "Sockets carry what is sent, tell the truth and fail with the reason",
     "What is sent through a socket, its clones, or one moved or released and taken over, over IPv4, IPv6 or Unix sockets, is received whole and in order, then the end; no more is said to be available than is; datagrams and messages of a socket pair arrive whole, from whom they say. Connecting succeeds exactly if somebody takes the call in the time given, whatever the number of the descriptor, and leaves the socket's blocking mode as it was, as do failures; accepting tells the peer's address when asked. Addresses, buffer sizes, linger, reuse and modes are told as the system has them, set as asked, and no other socket's. A call that fails says so, with this failure's code, and a name only if it is that error's; what would block is told apart. Descriptors are closed exactly once, when their socket is closed, replaced or destroyed, and not when released or moved. A socket that is none refuses everything quietly.",
     ["histories", "inputs"], "every history of sending, receiving, cloning, releasing, moving, half-closing and changing modes over the kinds of sockets; every failing call, setting and descriptor number around 1024",
     "the tests make each call once on sockets nobody talks to",
     [S + "net/socket/basic.cc", S + "net/socket/api.cc", S + "net/socket/listener.cc", I + "net/socket/basic.h", I + "net/socket/api.h"], [("sockets", S + "net/socket/basic.cc"), ("system calls and errors", S + "net/socket/api.cc"), ("listening", S + "net/socket/listener.cc")],
     "generated conversations over real loopback sockets against queues of what is under way, and against the system's own answers; under AddressSanitizer")
prop("C30", "Errors, assertions, monitors and clocks report exactly what happened",
     "An error holds the code and message given, or its format with the arguments filled in; it is valid exactly if its code is not 0, two are equal exactly if code and message are, it compares with a library code by value, and is written as code, colon and message, also to a log. A true assertion does nothing; a failed one is shown and logged as a warning, once, with file, line, function, expression and message, cut to 1023 bytes, whatever their length, and the program goes on; its condition is evaluated once, and check_exp gives the value of its expression. A monitor shows its start and end and logs one warning with its name and cost exactly if the processor time spent in its life exceeds its limit. Coloured output is the formatted text between colour and reset on a line; a format with arguments appended to a log statement arrives filled in. In debug mode the end of a thread's collector shows the application's name, the thread and how many remain. A singleton is made once, whichever threads ask first, and is the same for all. The tick count is the milliseconds since its clock was made, timestamp and nanoseconds are the system's, as are the texts of error numbers.",
     ["inputs", "histories", "schedules"], "every code, message and format; assertion texts of any length; every set of threads asking for a singleton",
     "the tests use errors made in one place and no assertion fails",
     [I + "basic/error.h", S + "sys/assert.cc", I + "sys/assert.h", S + "basic/monitor.cc", I + "basic/io.h", I + "basic/singleton.h", S + "basic/time.cc"], [("errors", I + "basic/error.h"), ("assertions", S + "sys/assert.cc"), ("monitors", S + "basic/monitor.cc"), ("singletons", I + "basic/singleton.h")],
     "generated histories of errors against a model; generated assertions, monitors, formats and clock readings against independent renderings and the system's clocks; under AddressSanitizer")
