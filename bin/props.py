# Configuration of the checks: which harness decides which property.
ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan": {"cflags": ASAN, "hflags": [], "ldflags": ["-fsanitize=address"], "engflags": ["-fsanitize=address"]},
    # Deterministic scheduler: instrumented by the compiler, linked with sched.cc
    # instead of the sanitizer runtime.
    "sched": {"cflags": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"], "hflags": [], "ldflags": [], "engflags": ["-fno-builtin"], "extra": ["vsched.cc"]},
}


def q(cases, time, **k):
    return dict(cases=cases, time=time, **k)


NETLIB = [r"^net/(stream|packet|socket|address|rpc)", r"^net/(address|utility)", r"^basic/", r"^net/detail", r"^sys/", r"^engine/"]
STREAM = [r"^net/stream", r"^net/socket/(api|basic)", r"^net/packet", r"^net/address", r"^net/detail", r"^basic/(logger|utility|time|io|global|base64|type/)", r"^sys/(thread|process|utility|assert)", r"^file/api"]

RPC = [r"^net/rpc"] + STREAM

CONC = [r"^concurrency", r"^sys/(thread|atomic_wait|process|utility|assert)", r"^basic/(logger|utility|time|io|global|base64|type/)", r"^file/api"]

ALL = [r"^(basic|concurrency|engine|net|sys|file)/"]

PROPS = {
    "C01": dict(
        bins=[dict(src=["c01_stream.cc"], lib=STREAM, quick=q(400000, 25), thorough=q(3000000, 500))],
        rule="random operation histories on byte streams, rings of several sizes and element types, and stream pairs over a socket, compared step by step with a deque; non-trivial = something was consumed before the end (so offsets move), or more than two operations on a socket pair",
        assumptions=["single-threaded use of one buffer", "64-bit Linux"]),
    "C02": dict(
        bins=[dict(src=["c02_codec.cc"], cflags=["-DCHECK_DEFAULT"], lib=STREAM, quick=q(400000, 25), thorough=q(5000000, 500))],
        rule="random packet sequences and limits, encoded, concatenated and fed to the decoder in random fragments; plus streams with headers at and beyond the limits; non-trivial = at least two packets, or an over-limit header",
        assumptions=["one decoder per stream, single-threaded"]),
    "C03": dict(
        bins=[dict(src=["c02_codec.cc"], cflags=["-DCHECK_LINE"], lib=STREAM, quick=q(400000, 25), thorough=q(5000000, 500))],
        rule="random lines (with and without CR, call markers, arbitrary bytes) fed in random fragments, compared with splitting the text at line feeds; non-trivial = at least two lines, or a line without end beyond the limit",
        assumptions=["payloads contain no line feed (the format reserves it)"]),
    "C04": dict(
        bins=[dict(src=["c04_packet.cc"], lib=STREAM, quick=q(400000, 25), thorough=q(5000000, 500))],
        rule="random sequences of typed field writes followed by the matching reads, random flag changes, and arbitrary content read as fields; non-trivial = at least three fields or flag changes, or two reads of content longer than a length prefix",
        assumptions=["strings and byte strings written as fields are not empty"]),
    "C05": dict(
        bins=[dict(src=["c05_rpc_value.cc"], cflags=["-DCHECK_ROUNDTRIP"], lib=[r"^net/rpc/(packer|unpacker)"], quick=q(200000, 25), thorough=q(4000000, 500))],
        rule="random sequences of values of 34 type shapes (integers of every width, floating point including non-finite, text, binary, lists, sets, maps, tuples, arrays, nested objects, time points) packed into one message and unpacked; plus lengths around every prefix boundary; non-trivial = at least one value",
        assumptions=["values are unpacked as the type they were packed as", "containers are unpacked into empty targets"]),
    "C06": dict(
        bins=[dict(src=["c05_rpc_value.cc"], cflags=["-DCHECK_HOSTILE"], lib=[r"^net/rpc/(packer|unpacker)"], quick=q(400000, 25), thorough=q(6000000, 500))],
        rule="tag-biased random bytes, strict prefixes and mutations of valid messages decoded as 34 type shapes under AddressSanitizer; non-trivial = at least one value decoded from non-empty input, or a message of two bytes or more cut short",
        assumptions=[]),
    "C07": dict(
        bins=[dict(src=["c07_dispatch.cc"], lib=RPC, quick=q(200000, 25), thorough=q(4000000, 500))],
        rule="random histories of bind, unbind, calls with valid, truncated and arbitrary arguments against a name-to-function map; non-trivial = at least one call",
        assumptions=["functions do not throw"]),
    "C12": dict(
        bins=[dict(src=["c12_executor.cc"], cflags=["-DCHECK_RUN"], variant="sched", lib=CONC, quick=q(60000, 25), thorough=q(3000000, 500))],
        rule="random programs of producers posting and submitting single and bulk tasks (nested, throwing, sleeping) to random executors under a controlled scheduler with a virtual clock; non-trivial = at least three tasks and more than four thread switches",
        assumptions=["atomics behave sequentially consistently", "reader/writer locks are exclusive"]),
    "C13": dict(
        bins=[dict(src=["c12_executor.cc"], cflags=["-DCHECK_SHUTDOWN"], variant="sched", lib=CONC, quick=q(60000, 25), thorough=q(3000000, 500))],
        rule="the same programs with a shutdown (once, twice, or from two threads) at a random point; non-trivial = at least three tasks and more than four thread switches",
        assumptions=["shutdown is not called from one of the executor's own threads", "atomics behave sequentially consistently"]),
    "C14": dict(
        bins=[dict(src=["c14_task.cc"], lib=CONC, quick=q(300000, 20), thorough=q(5000000, 400))],
        rule="random histories of constructing, moving, assigning, executing and clearing tasks over eleven shapes of callables (trivial, inline up to the exact capacity, larger, throwing move, copy only, coroutine handle), compared with a model of which slot owns which callable; non-trivial = at least one move and one execution of a callable",
        assumptions=["one thread per task object"]),
    "C15": dict(
        bins=[dict(src=["c15_result.cc"], cflags=["-DCHECK_RESULT"], variant="sched", lib=CONC, quick=q(60000, 25), thorough=q(3000000, 500))],
        rule="random pairs of producers (value, exception, abandoned, function; five value types) and consumers (blocking, timed, polling, awaiting, resolving, dropping, several sharing) in separate threads under a controlled scheduler; non-trivial = more than four thread switches",
        assumptions=["atomics behave sequentially consistently"]),
    "C16": dict(
        bins=[dict(src=["c15_result.cc"], cflags=["-DCHECK_WHEN"], variant="sched", lib=CONC, quick=q(60000, 25), thorough=q(3000000, 500))],
        rule="random sets of up to four results completed by their own threads, combined as range or tuple, resumed on a random executor under a controlled scheduler; non-trivial = more than four thread switches",
        assumptions=["atomics behave sequentially consistently"]),
    "C17": dict(
        bins=[dict(src=["c15_result.cc"], cflags=["-DCHECK_CORO"], variant="sched", lib=CONC, quick=q(60000, 25), thorough=q(3000000, 500))],
        rule="random nestings of lazy results with executor switches, run, awaited, dropped; random executor hop sequences with shutdowns; random generators stopped early, throwing or interleaved; lazy results assigned over one another or given up; coroutines on a named executor; non-trivial = any with at least one operation (generators: at least two values)",
        assumptions=["atomics behave sequentially consistently"]),
    "C18": dict(
        bins=[dict(src=["c18_timer.cc"], variant="sched", lib=[r"^engine/timer"] + CONC, quick=q(60000, 25), thorough=q(3000000, 500))],
        rule="random programs of one or two users making, moving, cancelling and re-timing periodic, one-shot and delay timers on random executors, with an executor or the queue shut down in between, under a controlled scheduler with a virtual clock; non-trivial = at least two callbacks ran and more than four thread switches",
        assumptions=["atomics behave sequentially consistently", "a timer queue is not released by its own thread", "the clock does not go back"]),
    "C08": dict(
        bins=[dict(src=["c08_net.cc"], variant="sched", lib=ALL, quick=q(30000, 30), thorough=q(2000000, 500))],
        rule="one to four links between raw or Connector clients and a Listener (epoll or select), each with random packets in both directions from up to two senders per direction, random fragmentation, slow readers, short and failing socket calls, clients closing after their last packet, under a controlled scheduler; non-trivial = at least four packets and more than eight thread switches",
        assumptions=["default executor (one worker thread) per listener and connector", "stream sockets are Unix sockets standing in for TCP", "atomics behave sequentially consistently"]),
    "C09": dict(
        bins=[dict(src=["c09_life.cc"], variant="sched", lib=ALL, quick=q(30000, 30), thorough=q(2000000, 500))],
        rule="random rounds of concurrent arrivals, departures and kicks at a listener with one to five slots; of successful, refused and failing connects at a connector with one to four slots; of reconnects of a kept connection; under a controlled scheduler with failing socket calls; non-trivial = at least two connects and one disconnect, or one reconnect",
        assumptions=["default executor (one worker thread) per listener and connector", "stream sockets are Unix sockets standing in for TCP", "a connection is ended with shutdown, by either side, not by closing its socket in place", "atomics behave sequentially consistently"]),
    "C10": dict(
        bins=[dict(src=["c10_rpc.cc"], variant="sched", lib=ALL, quick=q(30000, 30), thorough=q(2000000, 500))],
        rule="random blocking and asynchronous calls and notifications from one to six threads over one to three connections, with unknown functions, wrong arguments and other packets in between; calls under way when either side ends or times out; a server answering out of order, twice, to nobody or with garbage; a client sending malformed requests; under a controlled scheduler with failing socket calls; non-trivial = at least three calls and more than eight thread switches, or a call that was ended, or at least two calls to an odd server",
        assumptions=["default executor (one worker thread) per listener and connector", "stream sockets are Unix sockets standing in for TCP", "bound functions do not throw", "atomics behave sequentially consistently"]),
    "C11": dict(
        bins=[dict(src=["c11_address.cc"], lib=STREAM, quick=q(300000, 15), thorough=q(6000000, 400))],
        rule="random IPv4 and IPv6 addresses in several spellings, with and without port, as exact views and as slices of longer text; texts that are no address; arbitrary bytes of every family and size; every case is non-trivial",
        assumptions=["64-bit Linux"]),
    "C19": dict(
        bins=[dict(src=["c19_async.cc"], variant="sched", lib=ALL, quick=q(30000, 18), thorough=q(2000000, 200)),
              dict(src=["c19_async.cc"], variant="sched", lib=ALL, release=True, quick=q(3000, 4), thorough=q(1000000, 100)),
              dict(src=["c19_log.cc"], lib=STREAM, quick=q(200000, 12), thorough=q(4000000, 200))],
        rule="random appends from up to three threads with pauses, sizes up to 3 MB, entries before the start and during the stop, rolling and idle files under a controlled scheduler and clock; random values through a log statement; non-trivial = at least three entries and more than four thread switches, or at least two values",
        assumptions=["entries are at most 4 MB and the backlog stays below the announced limit of 25 buffers"]),
    "C20": dict(
        bins=[dict(src=["c20_encode.cc"], lib=STREAM + [r"^basic/md5"], quick=q(400000, 20), thorough=q(20000000, 300))],
        rule="random bytes, texts, numbers and value sequences, cut and buffered in random ways, and forged encodings; non-trivial = at least three bytes or two parts or values",
        assumptions=[]),
    "C21": dict(
        bins=[dict(src=["c21_text.cc"], lib=STREAM, quick=q(300000, 20), thorough=q(10000000, 300))],
        rule="random short texts over small alphabets, so that matches, runs and borders are common, long wide texts, and directories made by several threads; non-trivial = at least three characters or one match",
        assumptions=["the locale is C.UTF-8 for wide characters"]),
    "C22": dict(
        bins=[dict(src=["c22_config.cc"], lib=ALL, quick=q(120000, 30), thorough=q(3000000, 400))],
        rule="random ini and tab files with comments, blank lines, repeated sections and keys, missing and extra columns, up to 66000 records, read, reread, saved and read back, and hostile bytes; non-trivial = at least two entries, or two records of two columns",
        assumptions=["numbers in files fit their type", "lines of a tab file are at most 10 KB"]),
    "C23": dict(
        bins=[dict(src=["c23_pool.cc"], cflags=["-DCHECK_SCHED"], variant="sched", lib=CONC, quick=q(60000, 20), thorough=q(3000000, 300)),
              dict(src=["c23_pool.cc"], lib=CONC, quick=q(150000, 10), thorough=q(6000000, 150)),
              dict(src=["c23_pool.cc"], cflags=["-D_DEBUG=1"], lib=CONC, quick=q(60000, 8), thorough=q(3000000, 100))],
        rule="random allocations and frees on small pools, by one thread and by several with blocks handed from one to another under a controlled scheduler, with a record of the blocks in use; containers using a pool compared with ordinary ones; release and debug forms; non-trivial = at least three allocations and a free, or at least three operations and more than four thread switches",
        assumptions=["atomics behave sequentially consistently", "a pool outlives its blocks"]),
    "C24": dict(
        bins=[dict(src=["c24_work.cc"], cflags=["-DCHECK_SCHED"], variant="sched", lib=CONC, quick=q(60000, 25), thorough=q(3000000, 400)),
              dict(src=["c24_work.cc"], lib=CONC, quick=q(50000, 5), thorough=q(1000000, 60))],
        rule="random functions (returning, throwing, sleeping, queueing others) from one or two producers to pools of one to three threads and to queues worked by a thread at random moments, closed at any time; several looping threads at once; bound calls with every kind of argument; non-trivial = at least three functions and more than four thread switches, or two threads, or a bound call",
        assumptions=["atomics behave sequentially consistently", "a function given to a looping thread does not throw"]),
    "C25": dict(
        bins=[dict(src=["c25_kernel.cc"], variant="sched", lib=ALL, quick=q(30000, 30), thorough=q(2000000, 400))],
        rule="random console sessions of one or two clients with fragmented lines and handlers added meanwhile; random starts, stops and kills of up to four nets with colliding, empty and generated names, from one or several threads; consoles on taken addresses and names; engines with random options ended with tasks under way; under a controlled scheduler with failing socket calls; non-trivial = at least three commands or operations",
        assumptions=["default executor (one worker thread) per listener", "stream sockets are Unix sockets standing in for TCP", "atomics behave sequentially consistently"]),
    "C26": dict(
        bins=[dict(src=["c26_library.cc"], variant="asan", lib=ALL, quick=q(60000, 25), thorough=q(2000000, 300)),
              dict(src=["c26_wait.cc"], variant="sched", lib=CONC, quick=q(4000, 8), thorough=q(100000, 60))],
        rule="random trees of libraries (real shared objects compiled from a template, broken files, folders, dangling links) and random histories of loads, unloads, names and search paths against a model of what must be found, held and let go; random pid files and commands; waiting for processes under a virtual clock with recorded signals; daemons; non-trivial = at least two successful loads, or a pid file with content",
        assumptions=["Linux naming: prefix lib, suffix .so", "search paths end with a slash", "libraries are not replaced while loaded"]),
    "C27": dict(
        bins=[dict(src=["c27_files.cc"], lib=[r"^file/(api|utility)", r"^basic/(logger|utility|time|io|global|base64|type/)", r"^sys/(thread|process|utility|assert)"], quick=q(200000, 25), thorough=q(4000000, 300))],
        rule="random histories of descriptors (opened with random flags, duplicated, moved, read, written, closed, emptied by name) over a few files, of a pipe, and of files appended to over several lives, against a model of content and positions; non-trivial = at least two moves of data",
        assumptions=["regular files and pipes on Linux", "one thread"]),
    "C28": dict(
        bins=[dict(src=["c28_script.cc"], lib=[r"^script/", r"^basic/(logger|utility|time|io|global|base64|type/)", r"^sys/(thread|process|utility|assert)", r"^file/api"], quick=q(200000, 20), thorough=q(4000000, 300))],
        rule="random histories of environments made (directly and of registered, unregistered and re-registered types), asked for and closed (live, closed and unknown ids), up to all the ids there are, against a map; non-trivial = at least two closed and one id used again",
        assumptions=["one thread", "an environment given to the factory is not deleted elsewhere"]),
    "C29": dict(
        bins=[dict(src=["c29_socket.cc"], lib=[r"^net/(socket|address|detail)", r"^basic/(logger|utility|time|io|global|base64|type/)", r"^sys/(thread|process|utility|assert)", r"^file/api"], quick=q(60000, 25), thorough=q(1000000, 300))],
        rule="random conversations over loopback TCP (IPv4, IPv6) and Unix sockets with clones, releases, moves, half-closes and mode changes, against queues of what is under way; failing calls with the error expected; settings against the system's own answers; datagrams; non-trivial = something sent and at least three steps, or any failing call",
        assumptions=["Linux loopback", "one thread per socket"]),
    "C30": dict(
        bins=[dict(src=["c30_report.cc"], lib=[r"^basic/(logger|utility|time|io|global|base64|monitor|type/)", r"^sys/(thread|process|utility|assert)", r"^file/api"], quick=q(150000, 20), thorough=q(3000000, 200))],
        rule="random errors made, copied, changed, compared and written; true and failing assertions with texts of any length; monitors with random limits and costs; formatted and coloured output; singletons asked for by several threads at once; clocks read after random pauses; non-trivial = at least two errors, a failing assertion, a limit set, two threads, or two readings",
        assumptions=["processor time is read with std::clock around a monitor, so limits within one millisecond of the cost are not judged"]),
}
