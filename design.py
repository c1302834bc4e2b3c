"""Writes DESIGN.md: the hand-written part below, then per property what decides it (registry.py) and the planted bugs (seeded/)."""
import json, os, re
import props, registry
V = os.path.dirname(os.path.abspath(__file__))
HEAD = r"""# Design

*(generated by gen.py from design.py, props.py, registry.py, known_findings.txt and seeded/; edit those)*

## Method

Every property is decided by **symbolic execution of the real code**.  `engine/` is a symbolic executor for LLVM IR (KLEE class)
written for this task on LLVM 18 and Z3, because no such tool is installed and cbmc's C++ front end does not take this code
(templates, exceptions, STL).  One check run (`check.py Cnn`) does, for every harness of the property:

1. compile the harness **and the relevant sources of /repo as they are now** with clang to LLVM IR and link them (libstdc++'s headers
   are part of the encoded code; out-of-line libstdc++/libc functions are modelled in `engine/builtins.inc` and `sym/rt.cpp`);
2. run the IR with symbolic inputs.  `sym_int/sym_range/sym_bytes/sym_string` create solver variables (data, sizes, error numbers, clock readings);
   `sym_bool/sym_choice` create decision variables (operation, fault, partial length, schedule).  A branch on a symbolic condition asks Z3 which sides are
   feasible and forks; a symbolic address is resolved against the object with in-bounds proved or violated by a query; every `CHECK`, every memory access
   (bounds, use after free, uninitialised value, double free, NULL, write to constant), division, `unreachable`, escaping exception, runaway loop, stack and
   allocation size, is a query "is there a value for which this fails?";
3. a satisfiable query yields a model; the inputs are written as a replay file, and **the same harness and sources, built natively with ASan (or TSan for
   a race), are run on it**.  Only a counterexample that fails natively too is reported: `VIOLATION property=Cnn replay=...`.  Counterexamples that do not reproduce
   are counted in the evidence as inconclusive, never as violations;
4. a sample of the passing paths is also re-run natively and must pass there (`validated` in the evidence): the engine is checked against the compiler on every run;
5. `reach` marks in the harness must be reached (otherwise the run ends with exit status 2: vacuous), and unexplored states are reported
   as INCOMPLETE in output and evidence.

**Threads** (C12-C14, C26, C32, C35-C39, C43, C46): IR threads run under the engine's scheduler; at each synchronisation point (lock, unlock, condition, atomic, sleep, system call of the
model) the next thread is a decision variable, up to the stated number of preemptions beyond forced switches.  A happens-before (vector clock) detector reports a data race for two unordered
accesses, so code that passes is race free within the bounds and switching at synchronisation points loses nothing.  Deadlock, lost wakeups and missing
joins appear as "all threads blocked".  Replays run natively under `sym/nthreads.cpp`, which passes a baton according to the recorded schedule; races are replayed on a TSan build.

**Kernel models.** `harness/net.h` (epoll, sockets, pipe, eventfd, accept, connect), `harness/connector.cpp` (blocking sockets, select/poll), `harness/log.cpp` + `env.h`
(files, directory, rename, time), `harness/shm.h`, `harness/mysql.cpp` (client library).  The harness *is* the operating system: each call's result (all, part, would block,
interrupted, refused, broken, any error number) is a choice or a solver variable, and the model itself checks the caller's obligations (SIGPIPE, foreign or closed
descriptors, FD_SETSIZE, room in the buffer).  The same model code runs in the native replay.

**What is enumerated and what is symbolic.** Control choices (operations, faults, cuts, schedules) are decision variables enumerated by forking; with each, all data is symbolic and
the solver decides for all its values at once.  That is bounded verification: the verdict holds for all values and all choices within the bounds below, and says nothing beyond them.
The level claimed is therefore `model_checking` for all.

**Oracles** are independent models inside the harnesses (e.g. a list of pending bytes, the set of registered timers, a tree of values), written from the property statement. They look at
observable behaviour only: return values, callbacks, bytes, descriptors, memory.  Behaviour-preserving edits stay quiet (checked by vcheck and by refactorings of our own).

**Not reported as violations**: harness time-out or budget (exit 0, INCOMPLETE line and evidence), unconfirmed counterexamples.

## What the engine does not do

No inline assembly, no vector types (the encoding is compiled with vectorisation off), floating point only concrete except for bit copies and conversions used here (doubles are carried as
bits; arithmetic on them is concretised and therefore bounded by the values stated), hash tables are given one bucket in C15's symbolic build, regular expressions are not used by the project.
Weak memory is not modelled: sequential consistency plus the race detector.  Bytes in freed memory keep their state; addresses are concrete and never reused (so ABA by address reuse is only seen where the model
hands out numbers again, as with descriptors, which it does deliberately: lowest free number first).

## Files

`props.py` (statements) and `registry.py` (harness tables, bounds) -> `gen.py` -> `properties.jsonl`, `MANIFEST.json`, `DESIGN.md`.  `check.py` driver, `engine/` executor, `sym/` runtime for both builds, `harness/` oracles,
`known_findings.txt`, `tools/seed.py` (builds and tries planted bugs), `seeded/`.
"""
LEFT = r"""## Behaviour seen and deliberately left alone

Outside the statements (by design, or a matter of taste): `GetMiddleStr` with positions ignores its start; the JSON reader accepts trailing commas and text after the value; a request target keeps `?query` for HEAD; the first of
several equal cookies wins; `getIPAndPort` wants at least 10 characters; log level masks overlap; a rotating log with 0 or 1 files does not rotate; `CTask`'s destructor does not wait for detached threads;
`CNetWorkerMgr` has no way to end its worker loops; accepting with the descriptor table full spins until one is free; an empty datagram is reported as an error; `readn` discards a partial read on failure; JSON doubles carry
16 significant digits (C03 therefore states integers, strings, booleans and null exactly); `CEvent::delTimer` returns 0 whether or not the timer existed; a socket buffer of initial size 0 never grows; a write of 0 bytes is not specified.
An application that writes to a connection before its `onConnect` replaces the pending handler: stated as an assumption of C30/C32.

A second bug for C08 was not planted: nearly all of that filter's lines come from our own repairs (4a5c44f), and planted changes must alter original lines.
"""
D = {}
def O(ids, text):
    for i in ids.split(): D[i] = " ".join(text.split())
O("C01", "Trees whose shape is chosen and whose numbers, bytes and keys are solver variables are encoded and decoded; oracle: structural equality with the model tree, old content of the receiver replaced, prefix of the output buffer kept.")
O("C02", "Every byte of the message is a solver variable in an exact-size heap object, so any read outside is a query with a witness; oracle: an independent reference decoder says accept (with which tree) or reject; nesting depth and allocation size bounded by the engine's limits.")
O("C03", "As C01 through the JSON writer and reader; integers as all values with each digit count.")
O("C04", "Templates with arbitrary bytes in every position of short documents; oracle: no access outside, termination, accepted text re-encodes; unclosed documents rejected; well formed documents with arbitrary white space, escapes and \\u sequences yield exactly their value.")
O("C05", "Histories of construct/copy/assign/modify/destroy over a few values with aliasing; oracle: a model forest; leak and double-free detection of the engine.")
O("C06", "Every accessor on every stored type with symbolic content; array and object histories against std models.")
O("C07", "Arbitrary bytes and streams of messages cut anywhere against an independent reading of the frame format; buffers of exact size.")
O("C08", "Arbitrary heads from a character set that covers the syntax, streams of messages cut anywhere, content lengths as any digits; oracle: an independent reading of RFC-style framing.")
O("C09", "Histories of append/consume/in-place fill against a byte list; every size within bounds.")
O("C10", "Sequences of typed writes with symbolic types and contents; oracle: read back in order; arbitrary bytes as packages; patches at marked positions.")
O("C11", "Header fields and body tree symbolic; wire bytes compared field by field; every truncation rejected.")
O("C12 C13", "Histories with symbolic sizes and contents through several wraps, against a list.")
O("C14", "Producers and consumers under every schedule with symbolic elements; time-outs symbolic; oracle: each element once, order per producer, blocked only when it must be.")
O("C15", "Histories with symbolic keys, values and clock; oracle: a list in recency order with expiry.")
O("C16 C17", "Symbolic indices and values; all other cells compared; segments are exact-size objects so any access past them is caught.")
O("C18", "Arbitrary byte strings; encode then decode; decoding of arbitrary text against a reference decoder.")
O("C19", "Requests built from symbolic parts (names, values, escapes, case, order); oracle: the parts.")
O("C20", "Requests with arbitrary bytes in every region, followed by a second request through the same reader; oracle: no access outside, nothing of the first request visible.")
O("C21", "Symbolic status, headers and body; the response text is parsed back by the harness.")
O("C22", "The calendar date is chosen symbolically per decade and the instant computed from it; oracle: an independent calendar; texts cut anywhere.")
O("C23", "Files of entry, comment, section and junk lines with symbolic bytes; oracle: a reference reader; typed getters over symbolic digits.")
O("C24", "Symbolic subject, separator and pattern; oracles: reference implementations and join(split(s)) = s.")
O("C25", "Symbolic due times, clock readings and histories of set/cancel (also from within callbacks); oracle: due set.")
O("C26", "Posting threads and the loop under every schedule; pipe of scaled-down capacity; oracle: exactly once, per-sender order, no deadlock.")
O("C27", "Histories of register/change/remove, also from within handlers, descriptor numbers reused; oracle: the set of interests, compared with the kernel model's table and the callbacks.")
O("C28 C31", "The event loop runs on the kernel model; each send's result is a choice; oracle: bytes received by the peer are always a prefix of, and finally equal to, the accepted writes, close-after-write happens exactly when all is out.")
O("C29", "Streams of symbolic bytes cut anywhere; oracle: the messages the format defines, in order, once, then the end or error once.")
O("C30", "Histories with accept, connect (immediate, delayed, refused), close and reuse of descriptor numbers, from inside and outside of handlers; oracle: one live connection per slot, reports carry the right session, limits hold and places are given back.")
O("C32", "As C29/C30 for the worker, plus hand-over between the accepting thread and workers under every schedule.")
O("C33 C34", "Histories of connector calls; each socket call's result is a choice, time-outs and error numbers symbolic; oracle: bytes sent = bytes reported, exact buffers for reads, failure reported iff a fault happened, no descriptor leaked or foreign descriptor touched.")
O("C35", "Dispatching threads and workers under every schedule; oracle: each accepted task once with its arguments, bound respected, stop returns, nothing runs afterwards.")
O("C36", "Server, pool and worker threads together on the kernel model with arrivals, closes, descriptor reuse and throwing handlers; oracle: each answer equals f(request) on the connection that asked; no leak (live heap compared).")
O("C37 C38", "Writers, flusher and rotation under schedules over an in-memory file system with symbolic line lengths; oracle: the concatenated files equal the accepted lines; newest files kept.")
O("C39", "Locks and conditions under every schedule; oracle: mutual exclusion through a race-checked variable, reader/writer counts; deadlines handed to the wait equal clock + time-out for symbolic clocks.")
O("C40", "The client library is a model whose results are symbolic and whose calls may fail; oracle: presented rows, columns, lengths (embedded NUL) and counts equal the model's.")
O("C41", "Trees as in C01 are written and the text is read by a small XML reader in the harness (elements, sections, references), which must find exactly the tree.")
O("C42", "The log file is the harness's in-memory file; mask, level, text, place and file name are symbolic; oracle: the exact expected line for each enabled call.")
O("C43", "Several threads ask for the instance under every schedule; the constructor counts itself and can be interrupted half way or throw; oracle: one construction, complete object, race freedom.")
O("C44", "Histories of timer, message and signal calls on the real manager and worker over the kernel model; oracle: a list of what is due to whom.")
O("C45", "Histories of service calls with each system call's failure a choice; oracle: the set of services and open descriptors of the kernel model.")
O("C46", "Histories of calls on the real thread object with the n-th thread creation failing; the pthread model treats every use of a handle that is not valid any more as a violation; oracle: number of bodies run, return values.")
O("C47", "The file system is modelled with faults as symbolic choices: every open, write, rename and remove of a history may fail, each independently. Histories of log calls run on the real logs (the asynchronous one with its two threads and a symbolic schedule); oracle: each call's return value against whether its line reached the file, the lines found in the file and its rotations, and that lines logged after the fault has gone are there.")
O("C48", "A reference cutter, written from the framings' definitions alone, says which messages a stream holds; the real services of all five kinds are set up by a symbolic history of calls, fed the stream in two pieces cut anywhere, and every delivery, report and closing is compared with it. The framing and the stream's kind are chosen independently, so that a service also meets streams of other framings.")
O("C49", "The real worker manager and its worker threads run on the kernel model with the missing descriptor, the failing bind, listen or registration and the failing accept as symbolic choices; oracle: the kernel model's open descriptors, and for each arrival the number of hand-overs, the thread, the session and the reports.")
def write():
    out = [HEAD, "## Properties and their checks\n"]
    for p in props.PROPERTIES:
        i = p["id"]; r = registry.PROPS.get(i)
        out.append("### %s %s" % (i, p["title"]))
        if not r: out.append("Not applicable: " + registry.NA.get(i, "no check") + "\n"); continue
        out.append(D.get(i, ""))
        out.append("- Bounds: " + r["bounds"])
        if r.get("outside"): out.append("- Outside the bounds: " + r["outside"])
        if r.get("stubs"): out.append("- Models: " + "; ".join(r["stubs"]))
        if r.get("assumptions"): out.append("- Assumes: " + "; ".join(r["assumptions"]))
        src = sorted({s for h in r["harnesses"] for s in (h.get("repo") or [])} | set(p["anchors"]["files"]))
        out.append("- Encoded from /repo: " + ", ".join(src) + "; harnesses (`harness/%s`): " % r["harnesses"][0]["src"] + ", ".join(h["name"] for h in r["harnesses"]) + "\n")
    out.append("## Defects found and repaired\n\nEach is a `fix:` commit in /repo with the check that found it; there are no unrepaired known findings.\n")
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m: out.append("- %s `%s` %s" % m.groups())
    out.append("\n" + LEFT)
    res = {}
    f = V + "/tools/seed_results.txt"
    if os.path.exists(f):
        for l in open(f):
            w = l.split()
            if len(w) >= 3: res[w[0]] = w[2] + ((" by " + w[3]) if len(w) > 3 else "")
    out.append("## Planted bugs\n\n`tools/seed.py try` applies each to a scratch copy, builds, runs the stable tests and the demonstration, and the property's quick check. Result of the last complete run (harness that reported it):\n\n| id | property | needs | breaks | result |\n|---|---|---|---|---|")
    for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
        m = json.load(open(V + "/seeded/%s/meta.json" % d)); e = lambda s: s.replace("|", "\\|").replace("\n", " ")
        out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], e(m["needs"]), e(m["what_it_breaks"]), res.get(d, "not run")))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
