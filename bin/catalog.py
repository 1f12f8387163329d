#!/usr/bin/env python3
"""The property catalogue. Rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS

I, S = "framework/core/include/plain/", "framework/core/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why=why, files=files, mech=mech, technique=technique, note=note))


prop("C01", "Byte streams and ring buffers are lossless FIFOs",
     "Bytes and elements written to a stream or ring come out once, unchanged and in order, whatever mix of writes, reads, peeks, skips, wrap-arounds and growth happens in between. Sizes and emptiness reported always match what was written and not yet read, and an operation that cannot be done completely reports it and changes nothing. Bytes pulled from or pushed to a socket obey the same rule, including partial transfers.",
     ["histories", "inputs"], "every sequence of operations on a stream or ring of any capacity, and every split of the transfers",
     "the tests write a few strings once; wrap-around, growth with wrapped content and partial socket transfers need long mixed histories",
     [I + "net/stream/basic.h", S + "net/stream/basic.cc", I + "basic/ring.h"], [("ring head/tail arithmetic and growth", I + "basic/ring.h"), ("stream push/pull", S + "net/stream/basic.cc")],
     "stateful model-based testing against a deque, forked cases under AddressSanitizer, choice-sequence shrinking")
prop("C02", "The default packet codec frames exactly what was sent",
     "A sequence of packets encoded with the default codec decodes to the same packets (identifier, call flag, payload) in the same order, however the byte stream is cut into pieces on its way. An incomplete packet consumes nothing and reports that more data is needed; a packet over the configured limit is reported as an error.",
     ["inputs", "histories"], "every packet sequence, every fragmentation of the stream, every configured packet limit",
     "the tests decode a handful of whole packets; fragmentation points and limits multiply beyond enumeration",
     [S + "net/stream/codec.cc", I + "net/stream/codec.h"], [("header with size, id and call flag", S + "net/stream/codec.cc")],
     "round-trip and fragmentation metamorphic testing against a reference framing, under AddressSanitizer")
prop("C03", "The line codec splits the stream at line ends only",
     "With the line codec every line sent arrives as one packet without its line end, in order, whatever fragmentation the stream suffers, and a line marked as a call arrives as a call packet. An unfinished line is kept until its end arrives, and a line longer than the packet limit is reported as an error.",
     ["inputs", "histories"], "every sequence of lines of arbitrary bytes (no line feed inside), every fragmentation",
     "the tests use short complete lines",
     [S + "net/stream/codec.cc"], [("line codec", S + "net/stream/codec.cc")],
     "round-trip and fragmentation testing against splitting the text, under AddressSanitizer")
prop("C04", "Packet fields read back as written and reading never overruns",
     "Typed fields (integers, floating point, text, byte strings) written to a packet are read back in order with the same values. Reading beyond the content, or content that does not hold the field asked for, never touches memory outside the packet. Packet flags set or cleared affect that flag alone.",
     ["inputs", "histories"], "every sequence of fields and flag changes, every content",
     "the tests read back one fixed sequence",
     [I + "net/packet/basic.h", S + "net/packet/basic.cc"], [("field operators and flags", I + "net/packet/basic.h")],
     "round-trip property testing plus arbitrary-content reads under AddressSanitizer")
prop("C05", "Call values survive packing and unpacking",
     "Every value of a supported type (integers of every width and sign, booleans, floating point, text, binary, lists, sets, maps, tuples, arrays, time points, nested objects) packed into a message is unpacked as an equal value, any number of them in the same message in order. The unpacking ends without error and consumes the message exactly.",
     ["inputs"], "every sequence of values of the supported type shapes, including all lengths around the size prefixes",
     "the tests pack a few small constants; the format has a different branch for every magnitude and length class",
     [I + "net/rpc/packer.h", I + "net/rpc/unpacker.h", S + "net/rpc/packer.cc", S + "net/rpc/unpacker.cc"], [("size classes of the format", S + "net/rpc/packer.cc")],
     "typed round-trip property testing with boundary-biased generators")
prop("C06", "Hostile or truncated call data is rejected, never trusted",
     "Unpacking arbitrary bytes as any supported type never reads outside the data, never writes outside the target and always ends. A message cut short is reported as an error.",
     ["inputs"], "every byte string and every type asked of it",
     "the tests only unpack well-formed data",
     [I + "net/rpc/unpacker.h", S + "net/rpc/unpacker.cc"], [("bounds checks and error codes", S + "net/rpc/unpacker.cc")],
     "structure-aware fuzzing (tag-biased bytes, prefixes, mutations) under AddressSanitizer")
prop("C07", "A call reaches the function bound to its name, once, with its arguments",
     "A dispatched call runs exactly the function currently bound to its name, once, with the values sent, and returns its result; unbound names run nothing and say so. Arguments that are missing or cannot be decoded run nothing.",
     ["histories", "inputs"], "every history of bind, unbind and call, every argument content",
     "the tests bind three functions and call each once",
     [I + "net/rpc/dispatcher.h", S + "net/rpc/dispatcher.cc"], [("name to function map", I + "net/rpc/dispatcher.h")],
     "stateful model-based testing against a map of names to functions, under AddressSanitizer")
prop("C12", "Every accepted task runs exactly once on its executor",
     "Each task posted or submitted, singly or in bulk, from any thread including the executor's own, runs exactly once, on the executor it was given to and within its concurrency limit, and a submitted task's result holds its return value or its exception. Worker-thread and manual executors run the tasks of one producer in order; the inline executor runs them before returning on the caller's thread; tasks that keep posting themselves to a worker thread do not keep tasks of others from running. An executor at rest takes up a new task at once, whatever its idle time, and each of its threads runs the start callback once before and the end callback once after its tasks. The manual executor's loop and wait calls run, count and wait for exactly the tasks they say, until the time they say, however far it is and whatever the system's date is set to meanwhile.",
     ["schedules", "programs"], "every interleaving of producers and workers, every timing of idle workers retiring, every mix of nested, throwing and sleeping tasks",
     "the tests run one schedule per run; races between a worker retiring and a producer enqueuing need exact timing",
     [S + "concurrency/executor/thread_pool.cc", S + "concurrency/executor/worker_thread.cc", S + "concurrency/executor/thread.cc", S + "concurrency/executor/manual.cc", I + "concurrency/executor/inline.h", I + "concurrency/executor/basic.h"], [("idle worker set, public/private queues, donation", S + "concurrency/executor/thread_pool.cc")],
     "generated concurrent programs under a deterministic scheduler (random walk, priority schedules, virtual clock, spurious wake-ups), schedules shrink and replay")
prop("C13", "Executor shutdown is a clean cut",
     "After shutdown returns no task is running or starts, all threads of the executor have ended, further tasks are refused, and shutting down again (also concurrently) is harmless. It waits for the tasks running and for nothing else, also when tasks keep giving the executor more. Every task not run is dropped exactly once: its callable is destroyed and its result reports that it was interrupted, so nobody waits forever; a callable may use its executor while it is dropped. Tasks accepted by the thread-per-task executor are finished.",
     ["schedules", "programs"], "every interleaving of shutdown with producers, workers, nested tasks and idle retirement",
     "the tests shut down an executor in a quiescent or a single racing state",
     [S + "concurrency/executor/thread_pool.cc", S + "concurrency/executor/worker_thread.cc", S + "concurrency/executor/thread.cc", S + "concurrency/executor/manual.cc"], [("abort flags and queue clearing", S + "concurrency/executor/thread_pool.cc"), ("interrupted await functor", S + "concurrency/result/detail/consumer_context.cc")],
     "generated concurrent programs under a deterministic scheduler with heap checking")
prop("C15", "A promise delivers its outcome exactly once to its result",
     "The value, exception or abandonment of a promise (or coroutine, or submitted task) reaches its result exactly once and unchanged, however producer and consumer interleave and whether the consumer blocks, polls, waits with a timeout, awaits, resolves or shares it among several readers. Timed waits end neither before their limit, however far, or the outcome nor long after, also when the system's date is set meanwhile; status never goes back, a promise cannot be set twice, whatever is empty or moved from refuses every operation with an exception, and dropping either side early leaks nothing and touches no released memory.",
     ["schedules", "programs"], "every interleaving of producers, consumers, sharers and droppers, for values, references and void",
     "each test run samples one interleaving",
     [I + "concurrency/result/basic.h", I + "concurrency/result/detail/state.h", S + "concurrency/result/detail/state.cc", I + "concurrency/result/shared.h", I + "concurrency/result/detail/shared_state.h", S + "concurrency/result/detail/shared_state.cc"], [("process status hand-over", S + "concurrency/result/detail/state.cc"), ("awaiter list", S + "concurrency/result/detail/shared_state.cc")],
     "generated producer/consumer programs under a deterministic scheduler with heap checking")
prop("C16", "Waiting for all or any of several results is exact",
     "Waiting for all results continues once, after every one of them is ready, with each in its place. Waiting for any continues once as soon as one is ready, names one that is ready, and leaves the others usable, also for waiting again. Both continue on the executor asked for, or with an error when it is shut down. Empty results, and no executor, are refused, and the results given are left as they were.",
     ["schedules", "programs"], "every interleaving of completions with the registration of the waiter",
     "the window between registering with one result and another's completion is a few instructions",
     [I + "concurrency/result/when.h", S + "concurrency/result/detail/consumer_context.cc", S + "concurrency/result/detail/state.cc"], [("any-context hand-over and rewinding", S + "concurrency/result/detail/consumer_context.cc")],
     "generated completion schedules under a deterministic scheduler with heap checking")
prop("C17", "Lazy results, generators and executor switches run as written",
     "A lazy result does nothing until awaited or run, then runs once and yields its value or exception; one never run, or dropped, releases everything it holds. A generator produces exactly its sequence one value per request, an exception surfacing at the right place, and can be abandoned. A coroutine switching executors continues on the thread of the executor named, or gets an error if that executor is shut down.",
     ["schedules", "programs"], "every nesting and order of lazy results and switches, every interleaving",
     "the tests check single fixed coroutines",
     [I + "concurrency/result/lazy.h", I + "concurrency/result/detail/lazy_state.h", I + "concurrency/result/generator.h", I + "concurrency/result/detail/generator_state.h", I + "concurrency/result/resume_on.h"], [("lazy state hand-over", I + "concurrency/result/detail/lazy_state.h")],
     "generated coroutine programs under a deterministic scheduler with heap checking")

NOT_APPLICABLE = []

exec(open(os.path.join(V, "bin", "catalog_more.py")).read()) if os.path.exists(os.path.join(V, "bin", "catalog_more.py")) else None


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as fp:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            fp.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why"],
                                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
            for f in p["files"]:
                if not os.path.exists(os.path.join("/repo", f)):
                    print("missing", p["id"], f)
    na = {x["property"] for x in NOT_APPLICABLE}
    checks = []
    for p in P:
        if p["id"] in PROPS and p["id"] not in na:
            checks.append(dict(property=p["id"], quick_cmd="bin/check %s --tier quick" % p["id"], thorough_cmd="bin/check %s --tier thorough" % p["id"],
                               technique="property-based testing and fuzzing: " + p["technique"], level="exploration",
                               level_note=p["note"] or "searches generated cases; " + PROPS[p["id"]]["rule"]))
        elif p["id"] not in na:
            print("no check for", p["id"])
    m = dict(version=1, setup_cmd="python3 -m py_compile bin/check bin/props.py && bash -c 'g++ --version >/dev/null'", checks=checks, not_applicable=NOT_APPLICABLE)
    with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1)
        fp.write("\n")


main()
