"""Which harnesses decide which property.  Bounds live in the -D defs."""
NATIVE_ALLOC_MB = "512"
HANG_S = 20
MAX_SAMPLES = 12
WRAPPED = ["pthread_" + f for f in """create self join detach cancel testcancel mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock spin_lock spin_trylock spin_unlock rwlock_rdlock rwlock_wrlock
rwlock_tryrdlock rwlock_trywrlock rwlock_unlock once cond_init cond_destroy cond_wait cond_timedwait cond_signal cond_broadcast""".split()] + ["usleep", "sleep", "nanosleep"]
NA = {}
PROPS = {}
def P(pid, bounds, harnesses, **kw):
    PROPS[pid] = dict(bounds=bounds, harnesses=harnesses, **kw)
def H(name, src, defs=None, **kw):
    return dict(name=name, src=src, defs=defs or {}, **kw)

P("C07", "chunks of 0..12 (thorough 0..40) arbitrary bytes; streams of 2 (3) messages with payloads of 0..3 bytes cut at 2 (3) arbitrary points; symbolic declared length in a 256 (2048) byte buffer; at a larger size: a stream of 10..12 messages of up to 70000 bytes in chunks of 100..2^20 with a few arbitrary bytes",
  [H("any_%s" % n, "framing.cpp", {"HT": 1, "SHORTF": s, "N": 12}, thorough={"N": 40}, reach=["badmark", "tiny", "partial", "badtail", "ok"]) for n, s in (("long", 0), ("short", 1))] +
  [H("stream_%s" % n, "framing.cpp", {"HT": 2, "SHORTF": s, "K": 2, "M": 3, "CUTS": 2}, thorough={"K": 3, "CUTS": 3, "M": 2}, reach=["all"]) for n, s in (("long", 0), ("short", 1))] +
  [H("big_%s" % n, "framing.cpp", {"HT": 4, "SHORTF": s, "BIG": 256}, thorough={"BIG": 2048}, reach=["ok"]) for n, s in (("long", 0), ("short", 1))] +
  [H("raw", "framing.cpp", {"HT": 3, "SHORTF": 0, "N": 16}, reach=["ok"])] + [H("scale_%s" % n, "scale.cpp", {"HT": 1, "SHORTF": s}, reach=["all"]) for n, s in (("long", 0), ("short", 1))],
  outside="payloads beyond the stated sizes", stubs=[], assumptions=[])

P("C09", "buffers of initial size 0..3 (thorough 0..4), also default-constructed ones, growing by 0..4 (0..6); every sequence of 4 (5) operations among append / in-place fill / consume / reset / copy with 0..3 byte chunks of arbitrary content; one 8-step pattern on a 16..256 byte buffer; at a larger size: 16 steps with pieces of up to 199999 bytes with a few arbitrary bytes",
  [H("ops", "sockbuf.cpp", {"HT": 1, "MAXINIT": 3, "MAXGROW": 4, "OPS": 4, "CH": 3}, thorough={"MAXINIT": 4, "MAXGROW": 6, "OPS": 5}, reach=["added", "refused", "inplace", "removed", "copied", "default"], thorough_timeout=1500),
   H("pattern", "sockbuf.cpp", {"HT": 2, "INIT": 16, "MAXSZ": 256, "OPS": 7, "SZ": '((const int[]){5,40,90,33})'}, reach=["end"]), H("scale", "scale.cpp", {"HT": 5}, reach=["refused", "done"])],
  outside="larger buffers and longer histories", assumptions=["callers consume no more than is pending and fill in place no more than the free space"])
P("C10", "sequences of 2 (thorough 3) fields of every supported type with arbitrary values and 0..3 byte strings; arbitrary packages of 0..20 bytes (8-byte head) with 2 (3) arbitrary reads; seeks with any offset below 10^6; at a larger size: packages of up to 17 groups of fields with strings of up to 70000 bytes with a few arbitrary bytes",
  [H("roundtrip", "package.cpp", {"HT": 1, "K": 2, "M": 3}, thorough={"K": 3, "M": 2}, reach=["done"], thorough_timeout=1200),
   H("hostile", "package.cpp", {"HT": 2, "N": 20, "OPS": 2}, thorough={"OPS": 3}, reach=["nohead", "refused", "reflen", "str", "after", "done"]),
   H("seek", "package.cpp", {"HT": 3, "N": 4, "OPS": 3}, thorough={"OPS": 4}, reach=["read"]), H("patch", "package.cpp", {"HT": 4}, reach=["done"]), H("scale", "scale.cpp", {"HT": 3}, reach=["done"])],
  outside="longer packages")
P("C12", "regions of 30..34 (thorough 28..44) data bytes; every starting offset, then every sequence of 3 (4) operations among pop and push of 4 (6) sizes spanning 1..maximum; both the one- and two-buffer interfaces; at a larger size: regions of 300, 4096 and 70000 bytes, 40 (120) operations with a few arbitrary bytes",
  [H("one", "queues.cpp", {"HT": 1, "DMIN": 30, "DVAR": 5, "OPS": 3, "NSZ": 4, "TWO": 0, "SHORT": 1}, thorough={"DMIN": 28, "DVAR": 17, "OPS": 4, "NSZ": 6}, reach=["pushed", "full", "popped", "popempty", "drained", "short"], thorough_timeout=1500),
   H("two", "queues.cpp", {"HT": 1, "DMIN": 30, "DVAR": 2, "OPS": 2, "NSZ": 4, "TWO": 1, "SHORT": 1}, thorough={"DVAR": 8, "OPS": 3, "NSZ": 5}, reach=["pushed", "popped2", "drained", "short"], thorough_timeout=1500),
   H("limits", "queues.cpp", {"HT": 2}, reach=["toolong"]), H("attach", "queues.cpp", {"HT": 5}, reach=["taken", "refused"]), H("scale", "scale.cpp", {"HT": 4, "STEPS": 40}, thorough={"STEPS": 120}, reach=["pushed", "full", "done"])],
  outside="larger regions; corrupted shared headers", assumptions=["one process operates on the queue at a time"])
P("C13", "capacities 1..4 (thorough 1..6); every sequence of 8 (12) push/pop operations with arbitrary elements; default capacity 1000 filled and drained",
  [H("ops", "queues.cpp", {"HT": 3, "CAP": 4, "OPS": 8}, thorough={"CAP": 6, "OPS": 12}, reach=["full", "empty"]), H("strings", "queues.cpp", {"HT": 4}, reach=["done"])],
  outside="longer histories")
P("C16", "widths 1,2,3,4,5,6,8; maps of 1..17 (thorough 1..40) cells with arbitrary contents, 1 (2) sets of an arbitrary fitting value at any index (symbolic 64-bit index in the w*_idx harnesses); one object set up 2 (3) times over two keys, three sizes and failures, with or without a zeroed segment left behind; at a larger size: maps of 255..4096 cells with a few arbitrary bytes",
  [H("w%d" % w, "bitmap.cpp", {"HT": 1, "WID": w, "NMAX": 17, "OPS": 1, "PRE": 1, "SYMIDX": 0}, thorough={"NMAX": 33, "OPS": 2}, reach=["set", "refused"]) for w in (1, 2, 3, 4, 5, 6, 8)] +
  [H("w%d_idx" % w, "bitmap.cpp", {"HT": 1, "WID": w, "NMAX": 9, "OPS": 1, "PRE": 0, "SYMIDX": 1}, thorough={"NMAX": 24}, reach=["set", "refused"]) for w in (1, 3, 4, 5, 6, 8)] + [H("fail", "bitmap.cpp", {"HT": 2}, reach=["failed"]), H("again", "bitmap.cpp", {"HT": 4, "OPS": 2}, thorough={"OPS": 3}, reach=["left", "failed", "small", "again", "done"]), H("scale", "scale.cpp", {"HT": 11}, reach=["done"], opts=["--max-steps", "40000000"])],
  outside="larger maps; values wider than the cell", stubs=["shmget/shmat/shmdt: segments are exact-size heap objects"], par=8)
P("C17", "arrays of 1..4 (thorough 1..6) elements, 3 (4) writes of arbitrary values through either of two attachments; failing shmget/shmat; one object set up 3 (4) times over two keys, three sizes and failures, with or without a zeroed segment left behind; at a larger size: arrays of 255..70000 elements with a few arbitrary bytes",
  [H("array", "bitmap.cpp", {"HT": 3, "NMAX": 4, "OPS": 3}, thorough={"NMAX": 6, "OPS": 4}, reach=["failed", "done"]), H("again", "bitmap.cpp", {"HT": 5, "OPS": 3}, thorough={"OPS": 4}, reach=["left", "failed", "small", "again", "done"]), H("scale", "scale.cpp", {"HT": 12}, reach=["done"], opts=["--max-steps", "40000000"])],
  outside="indexes beyond the array (unchecked by contract); larger arrays", stubs=["shmget/shmat/shmdt: segments are exact-size heap objects"])
U = ["src/Utils.cpp"]
P("C18", "texts of 0..4 (thorough 0..6) arbitrary bytes encoded and decoded; arbitrary text of 0..7 (0..9) bytes decoded; at a larger size: texts of 100..5000 bytes with a few arbitrary bytes",
  [H("roundtrip", "strings.cpp", {"HT": 1, "N": 4}, thorough={"N": 6}, repo=U, reach=["escape", "done"]), H("decode", "strings.cpp", {"HT": 2, "N": 7}, thorough={"N": 9}, repo=U, reach=["ok", "stray"]), H("scale", "scale.cpp", {"HT": 6}, repo=U, reach=["done"])], outside="longer texts")
P("C24", "texts of 0..6 (thorough 0..9) arbitrary bytes with separators of 1..3 and patterns of 0..2 bytes; every 32/64-bit integer to text and back; at a larger size: texts of 300..5000 bytes with many separators with a few arbitrary bytes",
  [H("split", "strings.cpp", {"HT": 3, "N": 6, "SEP": 3}, thorough={"N": 9}, reach=["split", "whole"]), H("trim", "strings.cpp", {"HT": 4, "N": 5}, thorough={"N": 8}, reach=["text", "blank"]), H("replace", "strings.cpp", {"HT": 5, "N": 6}, thorough={"N": 8}, reach=["empty", "hit"]), H("misc", "strings.cpp", {"HT": 6, "N": 5}, thorough={"N": 8}, reach=["middle", "hostport", "hex", "int"]), H("scale", "scale.cpp", {"HT": 7}, repo=U, reach=["split", "trim", "replace"])],
  outside="longer texts", stubs=["string streams"])
P("C22", "every day and second of the years 1970..2039; arbitrary text of up to 6 (thorough 9) bytes after each parsing stage",
  [H("years%d" % y, "strings.cpp", {"HT": 7, "Y0": y, "NY": 10}, repo=U, reach=["done"]) for y in range(1970, 2040, 10)] +
  [H("text%d" % i, "strings.cpp", {"HT": 8, "N": 6, "PL": len(p), "PFX": '"%s"' % p}, thorough={"N": 9}, repo=U, reach=["done"]) for i, p in enumerate(["", "Sun, 06 Nov", "Sun Nov 6", "Sun, 06 Nov 1994 08:49:3", "S 1 "])],
  outside="years before 1970 or after 2039", stubs=["gmtime (symbolic build): the calendar fields the instant was built from"], par=8)
P("C15", "capacity 1..3 or default, every sequence of 4 (thorough 5) set/get/erase/clear/clock steps over 3 keys with symbolic values, expiry times and clock; a 60-entry cache with 2 (3) accesses before eviction; sharded variant with arbitrary 1-2 byte keys",
  [H("small", "lru.cpp", {"HT": 1, "OPS": 4, "KEYS": 3, "MAXSZ": 3, "EXP": 0}, thorough={"OPS": 5}, reach=["set", "hit", "evicted"], libs=["-lpthread"]), H("expiry", "lru.cpp", {"HT": 1, "OPS": 4, "KEYS": 2, "MAXSZ": 0, "EXP": 1}, thorough={"OPS": 5}, reach=["set", "hit", "expired"]),
   H("order", "lru.cpp", {"HT": 2, "OPS": 2}, thorough={"OPS": 3}, reach=["over"]), H("sharded", "lru.cpp", {"HT": 3}, reach=["done"])],
  outside="larger histories; concurrent callers (one lock around every operation)", stubs=["time()", "hash table with one bucket (symbolic build)"])
TH = "threads.cpp"
def T(name, src, defs, pre=2, races=True, **kw):
    o = ["--max-preempt", str(pre)] + (["--races"] if races else []) + kw.pop("opts", [])
    return H(name, src, defs, opts=o, threads=True, **kw)
P("C14", "2 producers x 2 elements with 1 or 2 consumers, 1 producer x 2 with 2 consumers, timed and untimed pops, capacities 1..2: every interleaving of the lock/wait/notify operations with up to 2 (thorough 3) preemptions (any number of switches at blocking operations); every clock reading and timeout up to 10^8 ms for the deadline; every sequence of 5 (7) single-thread operations",
  [T("mpsc", TH, {"HT": 1, "NP": 2, "NC": 1, "K": 2, "CAPS": 2}, reach=["done"], thorough_opts=["--max-preempt", "3"], thorough_timeout=1500),
   T("spmc", TH, {"HT": 1, "NP": 1, "NC": 2, "K": 3, "CAPS": 2}, reach=["done"], thorough_opts=["--max-preempt", "3"], thorough_timeout=1500),
   T("mpmc", TH, {"HT": 1, "NP": 2, "NC": 2, "K": 2, "CAPS": 1}, pre=1, reach=["done"], thorough_opts=["--max-preempt", "2"], thorough_timeout=1500),
   T("timed", TH, {"HT": 1, "NP": 1, "NC": 2, "K": 2, "CAPS": 1, "TIMED": 1}, pre=1, reach=["done", "timedout", "timedpop"], thorough_opts=["--max-preempt", "2"]),
   T("spurious", TH, {"HT": 1, "NP": 1, "NC": 2, "K": 2, "CAPS": 1}, pre=1, reach=["done"], opts=["--spurious", "1"]),
   T("clear", TH, {"HT": 3}, reach=["kept", "dropped"]), T("deadline", TH, {"HT": 2}, reach=["have", "timeout"]), T("content", TH, {"HT": 4, "CAPS": 3, "OPS": 5}, thorough={"OPS": 7}, reach=["pop", "front"])],
  outside="more threads, elements or preemptions", stubs=["pthread mutex/condition semantics (scheduler of the engine); gettimeofday"], level="model_checking",
  assumptions=["data races are reported as violations, so exploring only synchronisation points loses no behaviour"])
P("C39", "2 threads x 2 (3 x 1 and thorough 3 x 2) critical sections through every lock / try-lock / guard / throwing-guard combination of mutex, spin lock and reader-writer lock; 1..2 waiters on a condition; every clock reading and timeout up to 10^8 ms; up to 2 (3) preemptions",
  [T("mutex2", TH, {"HT": 5, "MODE": 0, "NT": 2, "K": 2}, reach=["done", "try", "busy"]), T("mutex3", TH, {"HT": 5, "MODE": 0, "NT": 3, "K": 1}, reach=["done"], thorough={"K": 2}),
   T("spin2", TH, {"HT": 5, "MODE": 1, "NT": 2, "K": 2}, reach=["done", "try", "busy"]), T("rw2", TH, {"HT": 6, "NT": 2, "K": 2}, reach=["done", "busy", "two_readers"]), T("rw3", TH, {"HT": 6, "NT": 3, "K": 1}, reach=["done", "two_readers"], thorough={"K": 2}),
   T("cond", TH, {"HT": 7, "NT": 3}, reach=["done"]), T("deadline", TH, {"HT": 8}, reach=["done"])],
  outside="more threads, sections or preemptions; fairness of the underlying locks", stubs=["pthread lock and condition semantics (scheduler of the engine); clock_gettime"], assumptions=[])
TASK = ["src/CTask.cpp", "src/CThread.cpp"]
P("C35", "1..2 workers, 2 + 1 tasks (thorough 3 + 2) from two dispatching threads, before or after start; queue bounds 1..3; stop at every point; every interleaving of the lock/wait/notify/cancel operations with up to 2 (3) preemptions; at a larger size: queue bounds 31, 64 and 100, up to 200 tasks, 1 worker",
  [T("tasks", "pool.cpp", {"HT": 1, "W": 2, "D0": 2, "D1": 1}, pre=1, repo=TASK, reach=["ran", "stopped", "done"], thorough={"D0": 3}, thorough_opts=["--max-preempt", "2"], thorough_timeout=1500), T("one", "pool.cpp", {"HT": 1, "W": 2, "D0": 3, "D1": 0}, repo=TASK, reach=["done"], thorough_opts=["--max-preempt", "3"]),
   T("bound", "pool.cpp", {"HT": 2}, repo=TASK, reach=["done"]), T("stop", "pool.cpp", {"HT": 3, "W": 2, "D0": 2}, repo=TASK, reach=["done"], thorough={"D0": 3}), T("thread", "pool.cpp", {"HT": 4}, repo=TASK, reach=["loop", "once"]),
   T("scale", "pool.cpp", {"HT": 7, "RN": 200, "RBITS": 8}, pre=0, races=False, repo=TASK, reach=["done"], opts=["--max-steps", "40000000"])],
  outside="more workers, tasks or preemptions; destroying a pool whose workers still run; what a task in progress does when the pool is stopped", stubs=["pthread lock, condition and deferred-cancellation semantics (scheduler of the engine)"], assumptions=[])
ALOG = ["src/CAsyncLog.cpp", "src/CThread.cpp", "src/CFileLog.cpp"]
P("C37", "2..3 lines of 1..3 arbitrary bytes from one or two threads, buffers of 4..9 bytes (lines that just fit, overflow into the second buffer, or are refused), explicit and timed flushes, destruction at the end; every interleaving of the lock/sleep/join operations with up to 2 (thorough 3) preemptions and 2 (3) wake-ups of the flusher; at a larger size: 150 lines of 0..5000 bytes, buffers of 300..100000",
  [T("one", "log.cpp", {"HT": 1, "N0": 3, "N1": 0, "LENS": "{1,2}", "SECS": 0, "BUF": 4, "FLUSH": 0}, repo=ALOG, reach=["all", "refused", "done"], thorough={"N0": 4}, thorough_opts=["--max-preempt", "3", "--max-sleeps", "3"]),
   T("fit", "log.cpp", {"HT": 1, "N0": 3, "N1": 0, "LENS": "{3}", "SECS": 0, "BUF": 8, "FLUSH": 1}, repo=ALOG, reach=["all", "done"], thorough_opts=["--max-preempt", "3", "--max-sleeps", "3"]),
   T("two", "log.cpp", {"HT": 1, "N0": 2, "N1": 2, "LENS": "{2}", "SECS": 0, "BUF": 6, "FLUSH": 0}, pre=2, repo=ALOG, reach=["all", "refused", "done"], thorough_opts=["--max-preempt", "3"], thorough_timeout=1500),
   T("flush2", "log.cpp", {"HT": 1, "N0": 2, "N1": 1, "LENS": "{2}", "SECS": 1, "BUF": 6, "FLUSH": 1, "FLUSHER2": 1}, repo=ALOG, reach=["all", "done"]),
   T("format", "log.cpp", {"HT": 2}, pre=0, repo=ALOG, reach=["done"]), T("unused", "log.cpp", {"HT": 3}, pre=0, repo=ALOG, reach=["done"]),
   T("scale", "log.cpp", {"HT": 12}, pre=0, races=False, repo=ALOG, reach=["refused", "done"], opts=["--max-sleeps", "0", "--max-steps", "60000000"])],
  outside="longer runs, larger lines; disk failures", stubs=["file system in memory, stream buffers; time/localtime; usleep is a scheduling choice"], assumptions=["the log files can be created and written"])
P("C38", "2..4 files, limits of 1..6 bytes, 0..4 files present at start, 3 (thorough 4) lines of 1..3 bytes with day changes before any of them; the synchronous and the asynchronous logger; two threads x 2 lines under every schedule; at a larger size: 120 lines, 2 or 11 files of 100 or 1000 bytes",
  [H("file", "log.cpp", {"HT": 4, "NUMS": 3, "MAXS": 6, "OPS": 3}, repo=ALOG, reach=["rotated", "newday", "done"], thorough={"OPS": 4}, nflags=[]), T("async", "log.cpp", {"HT": 5, "NUMS": 2, "MAXS": 5, "OPS": 3}, pre=0, repo=ALOG, reach=["rotated", "newday", "done"], opts=["--max-sleeps", "1"]),
   T("threads", "log.cpp", {"HT": 6, "K": 2}, repo=ALOG, reach=["done"]), H("scale", "log.cpp", {"HT": 13}, repo=ALOG, reach=["done"], opts=["--max-steps", "60000000"])],
  outside="fewer than two files (such logs are never rotated); file system failures; the clock changing day during one call", stubs=["file system in memory, stream buffers; time/localtime"], assumptions=[])
CLOG = ALOG + ["src/CLog.cpp"]
P("C42", "2 (thorough 3) calls of any level with texts of 2 arbitrary bytes and a number, every mask 0..15, with and without places, 2 file names (one with percent signs), 3 line numbers; texts of 3998..4000 bytes",
  [T("calls", "log.cpp", {"HT": 7, "CALLS": 2, "MN": 2}, pre=0, repo=CLOG, reach=["on", "off", "done"], thorough={"CALLS": 3}, opts=["--max-sleeps", "0"], thorough_opts=["--max-sleeps", "0"]), T("long", "log.cpp", {"HT": 7, "CALLS": 1, "BIG": 3999}, pre=0, repo=CLOG, reach=["on", "off", "done"], opts=["--max-sleeps", "0"])],
  outside="other conversions than %s, %d and %%; masks above 15", stubs=["file system in memory, stream buffers; time/localtime"], assumptions=["the log has room (C37 decides full buffers and concurrent writers)"])
P("C43", "2 or 3 threads x 2 uses under every schedule with up to 2 (thorough 4) preemptions, a constructor that is interrupted half way, or throws the first time",
  [T("two", "single.cpp", {"HT": 1, "N": 2, "FAILS": 0}, pre=3, reach=["done"], thorough_opts=["--max-preempt", "5"]), T("three", "single.cpp", {"HT": 1, "N": 3, "FAILS": 0}, pre=2, reach=["done"], thorough_opts=["--max-preempt", "4"]), T("throws", "single.cpp", {"HT": 1, "N": 2, "FAILS": 1}, pre=2, reach=["done"], thorough_opts=["--max-preempt", "4"]),
   T("manager", "single.cpp", {"HT": 2, "N": 3}, pre=2, repo=["src/CCommMgr.cpp", "src/CEvent.cpp", "src/Utils.cpp"], reach=["done"], thorough_opts=["--max-preempt", "4"])],
  outside="more threads", stubs=["pthread lock semantics (scheduler of the engine)"], assumptions=[])
AVF = "anyvalue.cpp"
P("C01", "trees of depth 1 (thorough 2) with up to 2 children per container, every scalar kind with a symbolic 64-bit value, strings of 0..2 arbitrary bytes; strings of 254..257 and 65534..65537 bytes, keys of 252..255 bytes, arrays of up to 300 elements; at a larger size: a tree of 40..400 members, nested 30 deep with a few arbitrary bytes",
  [H("trees", AVF, {"HT": 1, "DEPTH": 1, "SL": 2, "W": 2}, thorough={"DEPTH": 2, "SL": 1}, reach=["map", "vec", "leaf"]), H("nested", AVF, {"HT": 1, "DEPTH": 2, "SL": 1, "W": 1}, reach=["map", "vec"]), H("long", AVF, {"HT": 2}, reach=["str", "key", "arr"]), H("scale", AVF, {"HT": 31, "WHAT": 0}, reach=["done"], opts=["--max-steps", "40000000"])],
  outside="longer or deeper trees")
P("C02", "every message of 0..8 (thorough 0..10) bytes; messages of up to 14 (16) bytes starting with a one-element array or object header; 60000 nested containers",
  [H("bytes", AVF, {"HT": 3, "N": 8, "LO": 0}, thorough={"N": 10}, reach=["ok", "rejected"], opts=["--alloc-limit", "65536"]), H("vec", AVF, {"HT": 3, "N": 11, "LO": 9, "PL": 4, "PFX": '"\\7\\0\\0\\0"'}, thorough={"N": 15}, reach=["ok", "rejected"], opts=["--alloc-limit", "65536"]), H("map", AVF, {"HT": 3, "N": 11, "LO": 9, "PL": 4, "PFX": '"\\10\\0\\0\\0"'}, thorough={"N": 15}, reach=["ok", "rejected"], opts=["--alloc-limit", "65536"]), H("deep", AVF, {"HT": 4}, reach=["survived"], opts=["--max-depth", "20000"])],
  outside="longer messages")
P("C03", "trees of depth 1 (thorough 2) with up to 2 children; strings and keys of arbitrary bytes; integers of 1, 2, 10 and 18 symbolic digits anywhere, every integer of up to 18 digits and the ends of the signed and unsigned 64-bit ranges; at a larger size: a tree of 40..400 members, nested 30 deep with a few arbitrary bytes",
  [H("trees", AVF, {"HT": 5, "DEPTH": 1, "SL": 2, "W": 1, "DIG": 4, "FRAC": 8}, thorough={"W": 2, "SL": 2}, reach=["map", "vec", "leaf"]), H("nested", AVF, {"HT": 5, "DEPTH": 2, "SL": 1, "W": 1, "DIG": 2}, thorough={"SL": 1, "W": 2}, reach=["map", "vec"]), H("ints", AVF, {"HT": 6}, reach=["ok"]), H("scale", AVF, {"HT": 31, "WHAT": 1}, reach=["done"], opts=["--max-steps", "40000000"])],
  outside="floating point numbers other than eight fixed ones of up to 16 digits (printed with 16 digits by design); longer or deeper trees", stubs=["printf and atof of fractions on concrete values"])
P("C04", "text of 0..5 (thorough 0..6) arbitrary bytes alone and after 13 prefixes that open arrays, objects, strings, keys and literals; strings of up to 2 (3) arbitrary characters, escapes, 16-bit escapes and surrogate pairs in every position; valid documents built from 14 scalars with whitespace; 60000 nested containers",
  [H("text%d" % i, AVF, {"HT": 7, "N": n + 2, "PL": len(p.replace("\\", "")), "PFX": '"%s"' % p}, thorough={"N": n + 3}, reach=["rejected"]) for i, (p, n) in enumerate([("", 3), ("[", 3), ("{", 3), ('\\"', 3), ('{\\"', 3), ('{\\"k\\":', 3), ('[\\"', 3), ("[1,", 3), ("[tru", 3), ("nul", 2), ("fals", 2), ('{\\"k\\":fals', 3), ('{\\"k\\":nul', 3), ("[[]", 3)])] + [H("esc", AVF, {"HT": 8, "ESC": 1, "POS": 4}, thorough={"ESC": 2}, reach=["ok", "pair"]), H("esc2", AVF, {"HT": 8, "ESC": 2, "POS": 1}, thorough={"ESC": 3}, reach=["ok", "pair"], thorough_timeout=1500), H("valid", AVF, {"HT": 9}, reach=["ok"]), H("deep", AVF, {"HT": 4}, reach=["survived"], opts=["--max-depth", "20000"])],
  outside="longer text")
P("C05", "every sequence of 3 (thorough 4) operations among assign scalar/string, assign the other value, copy-construct, push, insert, assign one of its own children, assign into a child, remove the last element or the member, self-assignment, over two values; every pair of texts of 0..17 (40) bytes in five ways of assigning; at a larger size: trees of 40..400 members with a few arbitrary bytes", [H("hist", AVF, {"HT": 10, "OPS": 3}, thorough={"OPS": 4}, reach=["child", "emptied", "done"], opts=["--leak"]), H("texts", AVF, {"HT": 33, "TL": 17}, thorough={"TL": 40}, reach=["done"], opts=["--leak"]), H("scale", AVF, {"HT": 31, "WHAT": 3}, reach=["done"], opts=["--max-steps", "40000000"])], outside="longer histories")
P("C06", "every constructor with an arbitrary value and every accessor; arrays: every sequence of 4 (thorough 6) push/pop/assign with arbitrary elements, then any 32-bit index; objects: 3 (4) insert/erase/assign over three keys with arbitrary bytes; at a larger size: arrays and objects of 40..400 members with a few arbitrary bytes", [H("scalars", AVF, {"HT": 11}, reach=["dbl", "str", "int"]), H("array", AVF, {"HT": 12, "OPS": 4}, thorough={"OPS": 6}, reach=["in", "out"]), H("object", AVF, {"HT": 13, "OPS": 3}, thorough={"OPS": 4}, reach=["obj"]), H("names", AVF, {"HT": 30}, reach=["long", "done"]), H("scale", AVF, {"HT": 31, "WHAT": 4}, reach=["done"], opts=["--max-steps", "40000000"])], outside="member names longer than 258 bytes")
P("C11", "every value of every header field; a binary or JSON body with an arbitrary number and 0..2 arbitrary bytes of text; every truncation of a valid package; packages of 41..52 (54) arbitrary bytes; at a larger size: bodies of 40..400 members with a few arbitrary bytes", [H("roundtrip", AVF, {"HT": 14}, reach=["ok"]), H("cut", AVF, {"HT": 15, "N": 12}, thorough={"N": 14}, reach=["ok", "rejected", "bare"], opts=["--alloc-limit", "65536"]), H("scale", AVF, {"HT": 31, "WHAT": 2}, reach=["done"], opts=["--max-steps", "40000000"])], outside="larger bodies")
P("C41", "trees of depth 1 (thorough 2) with up to 2 children; strings of 0..7 (9) arbitrary bytes, element names of 1..3 arbitrary lower case letters, integers of 1, 2, 10 and 18 symbolic digits and the ends of the 64-bit ranges, four fractions; both encodings, plain, with head and in a package; at a larger size: 200 members, strings of up to 9000 bytes",
  [H("flat", AVF, {"HT": 16, "DEPTH": 0, "SL": 7, "W": 1, "DIG": 4}, thorough={"SL": 9}, reach=["str", "leaf"]), H("trees", AVF, {"HT": 16, "DEPTH": 1, "SL": 1, "W": 2, "DIG": 1}, thorough={"SL": 3}, reach=["map", "vec", "str"]), H("nested", AVF, {"HT": 16, "DEPTH": 2, "SL": 1, "W": 1, "DIG": 1}, thorough={"SL": 3}, reach=["map", "vec"]), H("scale", AVF, {"HT": 32, "DIG": 1}, reach=["map", "vec"], opts=["--max-steps", "60000000"])],
  outside="member names that are not XML names; fractions beyond the four; longer or deeper trees", stubs=["printf of fractions on concrete values"])
HTF = "http.cpp"; RD = ["src/CHttpReader.cpp", "src/Utils.cpp"]; WR = ["src/CHttpWriter.cpp", "src/Utils.cpp"]
P("C08", "arbitrary chunks of 0..9 (thorough 0..11) bytes, also after 4 fixed beginnings; streams of 2 messages (GET, POST, response) with arbitrary 1-byte URIs and headers and 0..2 byte bodies, four spellings of Content-Length, cut at every position; every declared length of 1..20 digits, signed or not; at a larger size: a stream of 12 messages with up to 45 headers and bodies of up to 70000 bytes in chunks of 100..2^20 with a few arbitrary bytes",
  [H("any%d" % i, HTF, {"HT": 1, "N": n, "PL": len(p.replace("\\r", "r").replace("\\n", "n")), "PFX": '"%s"' % p}, thorough={"N": n + 2}, reach=["partial", "ok"]) for i, (p, n) in enumerate([("", 8), ("HTTP\\r\\n", 6), ("P\\r\\nContent-Length: ", 7), ("HTTP\\r\\nContent-Length: ", 7)])] +
  [H("stream", HTF, {"HT": 2, "K": 2, "M": 1}, thorough={"M": 2}, reach=["wait", "all", "body"]), H("length", HTF, {"HT": 3, "DIG": 20, "BODY": 2}, reach=["fits", "wait", "odd"]), H("scale", "scale.cpp", {"HT": 2}, reach=["all"], opts=["--max-steps", "40000000"])], outside="longer messages; transfer encodings other than a declared length")
P("C19", "GET and form posts with 0..2 parameters, 1-byte arbitrary names and 0..2 byte arbitrary values in any escaping, URIs of 1 (thorough 2) arbitrary bytes; any 2-letter header name with 0..3 (4) arbitrary bytes and four separators, up to two cookies; queries, forms and cookie headers of 3 (4) pieces, some of them empty or without a value; uploads of 0..2 parts in every header order with arbitrary contents; typed reads of every number of 1..18 digits and those around the ends of the 32- and 64-bit ranges; at a larger size: 60 parameters, headers and cookies, 9 parts of up to 9000 bytes with a few arbitrary bytes",
  [H("forms", HTF, {"HT": 4, "NPAR": 2, "VL": 1, "U": 1}, thorough={"VL": 2, "U": 2}, repo=RD, reach=["get", "post", "escaped"]), H("heads", HTF, {"HT": 5, "L": 3, "CK": 0}, thorough={"L": 4}, repo=RD, reach=["headers"]), H("cookies", HTF, {"HT": 5, "L": 0, "CK": 1}, repo=RD, reach=["cookies", "escaped"]), H("upload", HTF, {"HT": 6, "NPART": 2, "VL": 2}, thorough={"VL": 3}, repo=RD, reach=["field", "file"]), H("pieces", HTF, {"HT": 12, "PIECES": 3}, thorough={"PIECES": 4}, repo=RD, reach=["odd", "field", "escaped"]), H("typed", HTF, {"HT": 7}, repo=RD, reach=["ok", "int", "large"]), H("scale", "scale.cpp", {"HT": 8}, repo=RD, reach=["params", "heads", "upload"], opts=["--max-steps", "40000000"])], outside="longer requests")
PX = [("", ""), ("GET ", ""), ("GET / H\\r\\n", ""), ("GET / H\\r\\n", "\\r\\n\\r\\n"), ("POST / H\\r\\nCookie: ", "\\r\\n\\r\\n"), ("POST / H\\r\\n\\r\\n", ""), ("POST / H\\r\\nContent-Type: multipart/form-data; boundary=", "\\r\\n\\r\\n--B\\r\\n"), ("POST / H\\r\\nContent-Type: multipart/form-data; boundary=B\\r\\n\\r\\n", ""), ("POST / H\\r\\nContent-Type: multipart/form-data; boundary=B\\r\\n\\r\\n--B", "--B"), ("POST / H\\r\\nContent-Type: multipart/form-data; boundary=B\\r\\n\\r\\n--B\\r\\nContent-Disposition: form-data; ", "\\r\\n--B"), ("POST / H\\r\\nContent-Type: multipart/form-data; boundary=B\\r\\n\\r\\n--B\\r\\nContent-Disposition: form-data; name=\\\"a\\\"", "\\r\\n--B--")]
LX = [("", " / H\\r\\n\\r\\n"), ("GET /", " H\\r\\n\\r\\n"), ("GET /?", "=1 H\\r\\n\\r\\n"), ("GET / ", "\\r\\n\\r\\n"), ("GET / H\\r\\n", ": v\\r\\n\\r\\n"), ("GET / H\\r\\nX: ", "\\r\\n\\r\\n")] + PX[4:]
def clen(s):
    return len(s.replace("\\r", "r").replace("\\n", "n").replace('\\"', '"'))
P("C20", "0..6 (thorough 0..8) arbitrary bytes inserted at 11 places of a request (method, request line, headers, cookies, body, boundary, multipart parts), and a token of 1100 (5000) bytes with an arbitrary byte after it at each of them; every pair of 10 request shapes, the second with an arbitrary 2-byte tail, with and without clear()",
  [H("bytes%d" % i, HTF, {"HT": 8, "N": 6, "PL": clen(p), "PFX": '"%s"' % p, "SFX": '"%s"' % s}, thorough={"N": 8}, repo=RD, reach=["rejected" if i < 3 else "accepted"]) for i, (p, s) in enumerate(PX)] + [H("long%d" % i, HTF, {"HT": 8, "N": 1, "LONG": 1100, "PL": clen(p), "PFX": '"%s"' % p, "SFX": '"%s"' % s}, thorough={"N": 2, "LONG": 5000}, repo=RD, reach=["rejected" if i < 1 else "accepted"]) for i, (p, s) in enumerate(LX)] + [H("reuse", HTF, {"HT": 9}, repo=RD, reach=["pair"])], outside="longer requests")
P("C21", "every status 100..599; each kind of header and cookie with an arbitrary text of 0..3 or 990..2500 bytes; bodies of arbitrary bytes, 5000 bytes, formatted pieces, an explicit length up to 2^64-1; all 256 combinations of settings followed by 8 others on the same writer; at a larger size: 40 headers, 30 cookies, values of 3000 and bodies of 80000 bytes with a few arbitrary bytes",
  [H("one", HTF, {"HT": 10, "NLEN": 9, "BL": 3}, repo=WR, reach=["empty", "body", "long"]), H("reuse", HTF, {"HT": 11}, repo=WR, reach=["pair"]), H("scale", "scale.cpp", {"HT": 9}, repo=WR, reach=["done"], opts=["--max-steps", "40000000"])], outside="values containing line ends; unset reason phrases", stubs=["time() and gmtime() (symbolic build): fixed calendar", "string streams"])
CF = "config.cpp"; CR = ["src/CConfig.cpp"]
P("C23", "files of 1..2 (thorough 1..3) lines among section, assignment, comment, blank and junk, with arbitrary 1-byte names and 2-byte values, indentation and either line end; every file of 0..6 (0..8) arbitrary bytes alone and after a section or entry, read with any probe; typed reads of every number of 1..18 digits and those around the ends of the 32- and 64-bit ranges; addresses and ports of every length; at a larger size: 60 entries in 10 sections, values and comments of up to 10000 bytes with a few arbitrary bytes",
  [H("lines", CF, {"HT": 1, "LINES": 2, "VL": 2}, thorough={"LINES": 3}, repo=CR, reach=["section", "entry", "comment", "junk"])] + [H("any%d" % i, CF, {"HT": 2, "N": n, "PFX": '"%s"' % p}, thorough={"N": n + 2}, repo=CR, reach=["none", "some"] if i != 2 else ["some"]) for i, (p, n) in enumerate([("", 6), ("[a]\\n", 5), ("k=v\\n", 5)])] + [H("typed", CF, {"HT": 3}, repo=CR, reach=["typed", "large", "addr", "missing", "two"]), H("scale", "scale.cpp", {"HT": 10}, repo=CR, reach=["done"], opts=["--max-steps", "40000000"])], outside="larger files", stubs=["file streams over an in-memory file (symbolic build)"])
EVT = "event.cpp"; ER = ["src/CEvent.cpp"]
P("C25", "2..3 timers registered at start with arbitrary 32-bit delays, 2..3 (thorough 3..4) turns each registering or cancelling a timer with an arbitrary delay or letting 0, 1, 2999, 86400000 or 2^32-1 ms pass; 2 identifiers; one callback that cancels, adds or re-registers a timer with an arbitrary delay",
  [H("callbacks", EVT, {"HT": 1, "IDS": 2, "TURNS": 2, "START": 2, "EXTRA": 1}, thorough={"TURNS": 3}, thorough_timeout=1500, repo=ER, reach=["fired", "del_in", "add_in", "del", "done"]),
   H("history", EVT, {"HT": 1, "IDS": 2, "TURNS": 3, "START": 1, "EXTRA": 0}, thorough={"TURNS": 4}, thorough_timeout=1500, repo=ER, reach=["fired", "del", "done"]),
   H("order", EVT, {"HT": 1, "IDS": 3, "TURNS": 1, "START": 3, "EXTRA": 1}, repo=ER, reach=["fired", "del_in", "add_in", "del", "done"]), H("scale", EVT, {"HT": 4, "NET_FIRST": 1, "NETMAX_FDS": 90}, repo=ER, reach=["done", "end"], opts=["--max-steps", "40000000"])],
  outside="longer histories, more timers; a clock that is set back", stubs=["epoll, pipe and gettimeofday are a model of the kernel (harness/net.h)"], assumptions=["the clock does not change within a turn"])
P("C27", "2 descriptors, 2..3 registrations or removals (read, write, both) before and one within a handler (also closing the descriptor and registering its reused number), 1..2 turns with every combination of 9 readiness masks in either order; up to 2 refusals by the kernel",
  [H("fds", EVT, {"HT": 3, "TURNS": 1, "OPS": 2, "EXTRA": 1, "CTLFAIL": 0}, thorough={"OPS": 3}, thorough_timeout=1500, repo=ER, reach=["read", "write", "mutate", "reused", "done"]),
   H("turns", EVT, {"HT": 3, "TURNS": 2, "OPS": 1, "EXTRA": 1, "CTLFAIL": 0}, thorough={"EXTRA": 2}, thorough_timeout=1500, repo=ER, reach=["read", "write", "mutate", "reused", "done"]),
   H("refused", EVT, {"HT": 3, "TURNS": 1, "OPS": 3, "EXTRA": 0, "CTLFAIL": 2}, repo=ER, reach=["read", "write", "refused", "done"]), H("scale", EVT, {"HT": 4, "NET_FIRST": 1, "NETMAX_FDS": 90}, repo=ER, reach=["done", "end"], opts=["--max-steps", "40000000"])],
  outside="more descriptors or operations", stubs=["epoll (level triggered) is a model of the kernel (harness/net.h)"], assumptions=["descriptors are unregistered before they are closed"])
P("C26", "2 posting threads with 2 messages each (thorough 3), 0..2 messages posted by handlers, messages posted before the loop starts, a wake-up pipe that holds 2 notifications, the loop stopped by a handler or by another thread at any time; every interleaving with up to 4 (thorough 6) preemptions; arbitrary 64-bit data",
  [T("two", EVT, {"HT": 2, "N0": 2, "N1": 2, "NEST": 0, "PRE": 0, "STOPPER": 0, "NET_PIPE": 8}, pre=4, repo=ER, reach=["done"], thorough_opts=["--max-preempt", "6"], thorough_timeout=1500),
   T("one", EVT, {"HT": 2, "N0": 2, "N1": 0, "NEST": 1, "PRE": 0, "STOPPER": 0, "NET_PIPE": 8}, pre=4, repo=ER, reach=["done", "nested"], thorough_opts=["--max-preempt", "6"]),
   T("full", EVT, {"HT": 2, "N0": 3, "N1": 2, "NEST": 2, "PRE": 1, "STOPPER": 0, "NET_PIPE": 2}, pre=4, repo=ER, reach=["done", "nested"], thorough_opts=["--max-preempt", "6"]),
   T("stop", EVT, {"HT": 2, "N0": 1, "N1": 0, "NEST": 0, "PRE": 0, "STOPPER": 1, "NET_PIPE": 8}, pre=4, repo=ER, reach=["done"], thorough_opts=["--max-preempt", "6"]), H("scale", EVT, {"HT": 4, "NET_FIRST": 1, "NETMAX_FDS": 90}, repo=ER, reach=["done", "end"], opts=["--max-steps", "40000000"])],
  outside="more threads or messages", stubs=["epoll and pipe are a model of the kernel (harness/net.h)"], assumptions=["the real pipe's capacity (65536) is scaled down to 2"])
CM = "comm.cpp"; CMR = ["src/CCommMgr.cpp", "src/CEvent.cpp", "src/Utils.cpp"]; NWR = ["src/CNetWorker.cpp", "src/CEvent.cpp", "src/CThread.cpp", "src/Utils.cpp"]
P("C47", "synchronous: 3 (thorough 4) lines, at most 2 of them while opening, writing, renaming or removing files fails, day changes, files present at start, rotation at 3 bytes; asynchronous: 4 (thorough 5) calls among write, flush and the beginning or end of such a fault, buffers of 4 bytes; two threads and the flusher under such a fault",
  [H("file", "log.cpp", {"HT": 9, "OPS": 3, "FAULTS": 2}, repo=ALOG, reach=["failed", "done"], thorough={"OPS": 4}), T("async", "log.cpp", {"HT": 10, "OPS": 4, "SECS": 1000, "BUF": 4, "KINDS": "{0,1,4,8}"}, pre=0, repo=ALOG, reach=["refused", "done"], opts=["--max-sleeps", "1"], thorough={"OPS": 5}), T("write", "log.cpp", {"HT": 10, "OPS": 4, "SECS": 1000, "BUF": 4, "KINDS": "{0,2}"}, pre=0, repo=ALOG, reach=["refused", "lost", "done"], opts=["--max-sleeps", "1"], thorough={"OPS": 5}),
   T("race", "log.cpp", {"HT": 11}, pre=1, repo=ALOG, reach=["refused", "done"], opts=["--max-sleeps", "1"])],
  outside="writes that fail after part of a line is on the disk; faults lasting until the logger is destroyed; the clock changing day during one call", stubs=["file system in memory, stream buffers; time/localtime"], assumptions=["a fault fails the whole call"])
P("C46", "histories of 3 (thorough 4) calls among start, stop, join and detach on a thread object whose body ends by itself or runs until stopped, any start failing, every schedule with up to 2 preemptions; pools of 1..2 threads with any start failing; a log and a worker manager whose threads cannot be started",
  [T("object", "pool.cpp", {"HT": 5, "OPS": 3}, repo=TASK, reach=["failed", "started", "joined", "detached", "again", "done"], thorough={"OPS": 4}), T("pool", "pool.cpp", {"HT": 6, "W": 2}, repo=TASK, reach=["failed", "started", "done"]),
   T("log", "log.cpp", {"HT": 8, "OPS": 4}, pre=0, repo=ALOG, reach=["refused", "done"], thorough={"OPS": 6}), T("mgr", "comm.cpp", {"BACK": 1, "HT": 7, "THREADS": 2, "ARRIVE": 1, "FAULT": 1}, pre=1, repo=NWR, reach=["done"])],
  outside="more threads", stubs=["pthreads (scheduler of the engine; a handle of a thread never started, joined, or ended after being detached must not be used)"], assumptions=["a thread object is started again only after its thread was joined, or has ended after being detached", "an object is destroyed after its thread has ended"])
def comm_scale(back, repo): return H("scale", CM, {"BACK": back, "HT": 8, "RBI": 512, "RBM": 30000, "SBI": 512, "SBM": 40000, "NET_FIRST": 1}, repo=repo, reach=["msg", "full", "fast", "done"], opts=["--max-steps", "60000000"])
def comm_writes(back, repo): return [comm_scale(back, repo), H("writes", CM, {"BACK": back, "HT": 1, "WR": 1, "TRIG": 3, "MAXN": 3, "FAULTS": 2, "ONCONN": 0}, thorough={"FAULTS": 3}, repo=repo, reach=["buffered", "failed", "sent", "closed_after", "done"]),
  H("burst", CM, {"BACK": back, "HT": 1, "WR": 3, "TRIG": 1, "MAXN": 3, "FAULTS": 2, "ONCONN": 1}, thorough={"FAULTS": 3}, repo=repo, reach=["buffered", "failed", "full", "sent", "closed_after", "ended", "done"])]
def comm_reads(back, repo): return [comm_scale(back, repo), H("chunks", CM, {"BACK": back, "HT": 2, "CONNS": 1, "N": 5, "N2": 0, "EXTRA": 1, "RFAULTS": 1, "ENDS": 1, "RBI": 2, "RBM": 4}, thorough={"N": 6, "RBM": 5}, thorough_timeout=1500, repo=repo, reach=["msg", "malformed", "eof", "err", "close_in", "reply_in", "done"]),
  H("grow", CM, {"BACK": back, "HT": 2, "CONNS": 1, "N": 16, "N2": 0, "CUTS": 3, "LMAX": 14, "MINL": 10, "EXTRA": 0, "RFAULTS": 0, "ENDS": 0, "RBI": 2, "RBM": 16}, repo=repo, reach=["msg", "done"]),
  H("two", CM, {"BACK": back, "HT": 2, "CONNS": 2, "N": 3, "N2": 2, "EXTRA": 1, "RFAULTS": 0, "ENDS": 1, "RBI": 2, "RBM": 6}, repo=repo, reach=["msg", "malformed", "eof", "err", "close_in", "reply_in", "done"])]
def comm_hist(back, repo): return [H("reuse", CM, {"BACK": back, "HT": 3, "STEPS": 4, "EXTRA": 2, "FAULTS": 1, "CTLFAIL": 0, "MAXC": 12, "TWIN": 0}, repo=repo, reach=["connecting", "result", "close_in", "reuse_in", "reuse_end", "write_in", "onclose", "done"]),
  H("regfail", CM, {"BACK": back, "HT": 3, "STEPS": 3, "EXTRA": 1, "FAULTS": 1, "CTLFAIL": 1, "MAXC": 12, "TWIN": 1}, repo=repo, reach=["connecting", "onerror", "done"])]
KM = ["epoll, sockets, pipe and eventfd are a model of the kernel (harness/net.h) whose send results (all, part, would-block, interrupted, broken pipe) are choices"]
CB_W = "one connection with a send buffer of 2 bytes growing to 6; up to 3 separate (or 4 back-to-back, one while connecting) writes of 1..3 arbitrary bytes, each with or without close-after-write; up to 2 (thorough 3) send faults of every kind with every partial length; socket blocked or writable at the next event; after a failed write the application closes or leaves the connection; at a larger size: 5 connections with buffers of 512 growing to 30000 and 40000, messages of 0..29998 bytes in chunks of 100, 1460 or 8192, answered on a socket taking 333, 4096 or any number of bytes at a time, 60 writes into a full buffer, a message one byte too long"
CB_R = "a service-defined length-prefixed format, receive buffer of 2 bytes growing to 4..6; one stream of 5 (thorough 6) arbitrary bytes or two streams of 3 and 2, cut at every place, or one of 16 bytes in at most 3 pieces into a buffer of 2 growing to 16; any error number of a failed call; end of stream with or after the data, reset or another error, interrupted or would-block receives; one close or closing reply from within a handler, or a close from within the close handler; at a larger size: 5 connections with buffers of 512 growing to 30000 and 40000, messages of 0..29998 bytes in chunks of 100, 1460 or 8192, answered on a socket taking 333, 4096 or any number of bytes at a time, 60 writes into a full buffer, a message one byte too long"
CB_H = "4 events (arrival, data, end of stream, with data or not, result of a connection attempt) over up to 7 connections; 2 actions from within handlers (write, close, close and connect again so that the descriptor number is reused); outgoing connections established at once, later or refused; 1 send fault; 3 events with 1 refused event registration"
P("C28", CB_W, comm_writes(0, CMR), outside="longer histories, larger buffers", stubs=KM, assumptions=["an application does not write to a session again after a write to it was refused", "writes have at least one byte"])
P("C31", CB_W, comm_writes(1, NWR), outside="longer histories, larger buffers", stubs=KM, assumptions=["an application does not write to a session again after a write to it was refused", "writes have at least one byte"])
P("C29", CB_R + "; 2 datagrams of 0..5 arbitrary bytes for a buffer of at most 4 with 1 receive error and 1 send error", comm_reads(0, CMR) + [H("udp", CM, {"BACK": 0, "HT": 6, "DG": 2, "DGN": 5, "DGMAX": 4}, thorough={"DG": 3}, repo=CMR, reach=["dgram", "answered", "sendfail", "dgerr", "toolong", "done"])], outside="longer streams, more connections", stubs=KM, assumptions=["the built-in message formats are decided by C07 and C08"])
P("C30", CB_H + "; a limit of 40 with 44 arrivals, a client table of 12 descriptors with 9 arrivals; a service removed with 2 connections and up to 2 pending writes", comm_hist(0, CMR) + [H("limit", CM, {"BACK": 0, "HT": 4, "MAXC": 40, "ARRIVE": 42, "NETMAX_FDS": 56}, repo=CMR, reach=["again", "done"]), H("table", CM, {"BACK": 0, "HT": 4, "MAXC": 10, "ARRIVE": 7}, repo=CMR, reach=["again", "done"]), H("rmsrv", CM, {"BACK": 0, "HT": 5, "ONC": 1}, repo=CMR, reach=["removed", "others", "done"])], outside="longer histories", stubs=KM, assumptions=["a service is not removed from within its own callbacks", "an application does not write to a connection it is still establishing"])
P("C32", CB_R + "; " + CB_H + "; hand-over: 2 arrivals to 1 or 2 worker threads, every interleaving with 1 (thorough 2) preemptions", comm_reads(1, NWR) + comm_hist(1, NWR) + [T("mgr", CM, {"BACK": 1, "HT": 7, "THREADS": 1, "ARRIVE": 2}, pre=1, repo=NWR, reach=["served", "done"], thorough_opts=["--max-preempt", "2"]), T("mgr2", CM, {"BACK": 1, "HT": 7, "THREADS": 2, "ARRIVE": 2, "NETMAX_FDS": 20}, pre=1, repo=NWR, reach=["served", "done"], thorough_opts=["--max-preempt", "2"])], outside="longer histories, more threads", stubs=KM, assumptions=["an application does not write to a connection it is still establishing"])
CN = "connector.cpp"; SM = ["socket calls, select and poll are a model of the kernel (harness/connector.cpp) whose results - success, part, time-out, interruption, refusal, broken connection, end of stream - are choices"]
P("C33", "every address of four 1-digit numbers and every port; every sequence of 3 operations (connect, write, read, readn, read into a string, close) with any time-out below 1 s or 1..3601 s, writes of 1..3 and reads of 1..3 arbitrary bytes, a peer that sends up to 4 arbitrary bytes, cut anywhere, and then stays silent, ends or resets the connection; immediate, delayed, refused and impossible connection attempts; at most 1 fault in waiting, sending and receiving each; descriptor numbers below and above 1024; at a larger size: writes and reads of 1..100000 bytes in pieces of up to 700, 1460 or any number of bytes",
  [H("connect", CN, {"HT": 1, "STEPS": 2, "FIRST": 0, "SN": 1, "WN": 2, "RN": 2, "SOCKF": 1, "SELF": 1, "SENDF": 1, "RECVF": 1}, repo=["src/CTcpConnector.cpp"], reach=["connected", "refused", "wrote", "wfail", "rfail", "closed", "done"]),
   H("transfer", CN, {"HT": 1, "STEPS": 3, "FIRST": 1, "SN": 4, "WN": 2, "RN": 3, "SOCKF": 0, "SELF": 0, "SENDF": 1, "RECVF": 1}, repo=["src/CTcpConnector.cpp"], reach=["connected", "wrote", "wfail", "read", "rfail", "end", "string", "closed", "done"]),
   H("scale", CN, {"HT": 8, "SOCKF": 0}, repo=["src/CTcpConnector.cpp"], reach=["all", "done"], opts=["--max-steps", "60000000"])],
  outside="longer histories; other time-outs", stubs=SM)
P("C34", "every peer and local address of four 1-digit numbers and every port; every sequence of 3 operations (connect, write, read, read into a string, close); datagrams of 0..2 arbitrary bytes, also into buffers that are too small; 0..2 network interfaces with or without one of 5 kinds of address; any time-out below 1 s or 1..3601 s; at most 1 failure of socket, bind, send and receive each; at a larger size: datagrams of 1..65507 bytes",
  [H("connect", CN, {"HT": 11, "STEPS": 2, "FIRST": 1, "NIF": 2, "DN": 1, "SOCKF": 1, "SENDF": 1, "RECVF": 0}, repo=["src/CUdpConnector.cpp"], reach=["local", "any", "refused", "wfail", "sent", "rfail", "read", "closed", "done"]),
   H("transfer", CN, {"HT": 11, "STEPS": 3, "FIRST": 0, "NIF": 0, "DN": 2, "SOCKF": 0, "SENDF": 1, "RECVF": 1}, repo=["src/CUdpConnector.cpp"], reach=["wfail", "sent", "rfail", "read", "closed", "done"]),
   H("scale", CN, {"HT": 18}, repo=["src/CUdpConnector.cpp"], reach=["done"], opts=["--max-steps", "60000000"])],
  outside="longer histories; which of several suitable interfaces is chosen; the rest of a datagram that is longer than the caller's buffer is cut off", stubs=SM)
PL = "pools.cpp"; PLR = ["src/CCommMgr.cpp", "src/CEvent.cpp", "src/Utils.cpp", "src/CTask.cpp", "src/CThread.cpp"]; PLX = [[], ["src/CHttpReader.cpp", "src/CHttpWriter.cpp"], []]
def pools(k, n):
    d = lambda **kw: dict({"KIND": k, "RBUF": 2000 if k else 8, "CLOSES": 1, "THROWS": 1}, **kw)
    return [T(n + "_hist", PL, d(HT=1, STEPS=6 if k == 0 else 5, QUEUE=1), thorough={"STEPS": 7 if k == 0 else 6}, pre=0, races=False, repo=PLR + PLX[k], reach=["arrival", "eof", "handled", "thrown", "refused", "closing", "done"]),
            T(n + "_two", PL, d(HT=2), pre=1, repo=PLR + PLX[k], reach=["handled", "done"]),
            T(n + "_mem", PL, d(HT=3), pre=0, repo=PLR + PLX[k], reach=["full", "thrown", "done"]),
            T(n + "_steady", PL, d(HT=4, CLOSES=0, THROWS=0), pre=0, repo=PLR + PLX[k], reach=["handled", "done"])]
P("C36", "raw, HTTP and any-value pools with 1 worker and a queue of 1: every sequence of 5..6 (thorough 6..7) events among arrival, request with an arbitrary 1-byte part, end of stream, and the worker handling its next request (answering with an arbitrary byte, answering and closing, or throwing), over up to 5 connections whose descriptor numbers are used again; 2 workers and 2 requests with every interleaving of 1 (thorough 2) preemption; refused, failing and undecodable requests with and without an error hook; 5 rounds of requests for memory",
  pools(0, "raw") + pools(1, "http") + pools(2, "any"), outside="longer histories; datagram services", stubs=KM)
def MY(n, d, reach, **kw): return H(n, "mysql.cpp", d, repo=["src/CMysql.cpp"], repo_defs=["HAVE_MYSQL_H=1"], cflags=["-I/usr/include/mariadb", "-DHAVE_MYSQL_H=1"], reach=reach, **kw)
P("C40", "results of 0..2 columns with arbitrary 1-byte names and 0..2 rows of NULL or 0..1 arbitrary bytes (thorough 3 columns, 2 bytes), any 64-bit count of affected rows; every sequence of 4 (thorough 5) operations among connect, choose database, query, choose character set, escape with 2 failures (connection lost or refused, any other error) of any library call; escaping of 0..3 (thorough 0..6) arbitrary bytes; at a larger size: 1 x 200 and 40 x 50 cells, cells, queries and escaped texts of up to 70000 bytes",
  [MY("result", {"HT": 1, "COLS": 2, "ROWS": 2, "LEN": 1}, ["rows", "norows", "affected", "copied", "self", "assigned", "duplicate", "done"], thorough={"COLS": 3, "LEN": 2}),
   MY("history", {"HT": 2, "STEPS": 4, "FAULTS": 2, "FIRST": 0}, ["init", "use", "query", "repaired", "charset", "escape", "failed", "done"], thorough={"STEPS": 5}),
   MY("unset", {"HT": 2, "STEPS": 2, "FAULTS": 1, "FIRST": -1}, ["toosoon", "charset", "init", "done"]),
   MY("escape", {"HT": 3, "N": 3}, ["doubled", "failed"], thorough={"N": 6}), MY("scale", {"HT": 4, "MC": 40, "MR": 200}, ["done"], opts=["--max-steps", "60000000"])],
  outside="larger results, statements that give several results (CLIENT_MULTI_STATEMENTS), copies of the connector object itself (declared but not defined)", stubs=["the MySQL client library is a model (harness/mysql.cpp) whose calls may fail"])

SVC = "services.cpp"
P("C48", "TCP and datagram services, outgoing connections of the manager and of a worker, and services of the worker manager with 1 worker; every framing, an unknown one, a filter of the caller and none; up to 2 further set-up calls; one connection and one of three kinds of streams (STX/ETX short, STX/ETX long, HTTP: a message with 0..2 arbitrary bytes, the STX/ETX ones with an arbitrary last byte, and nothing, a whole or a part of a second message) cut at any one place; 2 datagrams",
  [H("tcp", SVC, {"BACK": 0, "HT": 1, "KIND": 0, "CONFS": 2}, repo=CMR, reach=["raw", "http", "short", "long", "own", "invalid", "nofilter", "done"]),
   H("client", SVC, {"BACK": 0, "HT": 1, "KIND": 1, "CONFS": 1}, repo=CMR, reach=["raw", "http", "short", "long", "own", "invalid", "nofilter", "done"]),
   H("udp", SVC, {"BACK": 0, "HT": 1, "KIND": 2, "CONFS": 1, "DGS": 2}, repo=CMR, reach=["raw", "http", "short", "long", "own", "refused", "done"]),
   H("worker", SVC, {"BACK": 1, "HT": 1, "KIND": 1}, repo=NWR, reach=["raw", "http", "short", "long", "own", "invalid", "nofilter", "done"]),
   T("mgr", SVC, {"BACK": 1, "HT": 2, "THREADS": 1}, pre=0, repo=NWR, reach=["raw", "http", "short", "long", "own", "invalid", "nofilter", "done"])],
  outside="longer streams (the filters themselves: C04, C05, C08), changing the framing while a connection is open", stubs=KM)
P("C49", "1 or 2 workers, every number of missing descriptors while initialising and then again with enough, no workers; 1 or 2 services with 1 failing bind or listen and 1 failing registration; 1 or 2 rounds of 1 or 2 arrivals with an interrupted accept, a connection gone, or no descriptors for a while; limit of 12 or 20 descriptors; the scheduler switches threads where they wait",
  [T("mgr", SVC, {"BACK": 1, "HT": 3, "THREADS": 2, "SRVS": 1, "STEPS": 1, "MAXC": 20, "NETMAX_FDS": 24}, pre=0, repo=NWR, reach=["failed_init", "none", "failed", "created", "served", "spread", "nofd", "done"]),
  T("two", SVC, {"BACK": 1, "HT": 3, "THREADS": 1, "SRVS": 2, "STEPS": 2, "MAXC": 20, "NETMAX_FDS": 24}, pre=0, repo=NWR, reach=["failed_init", "none", "failed", "created", "served", "nofd", "done"]),
  T("limit", SVC, {"BACK": 1, "HT": 3, "THREADS": 1, "SRVS": 1, "STEPS": 2, "MAXC": 12, "NETMAX_FDS": 24}, pre=0, repo=NWR, reach=["refused", "served", "done"])],
  outside="more arrivals; preemption inside the hand-over (C32); which worker gets an arrival", stubs=KM)

MG = "manager.cpp"
P("C44", "4 (thorough 5) operations: time passing, setting, replacing and cancelling timers with delays of 1..10 ms, messages of any type and data, signal handlers and signals, plus 1 (2) timers or messages from within handlers; 2 processors; the manager and the worker; at a larger size: 60 timers and 170 messages",
  [H("manager", MG, {"BACK": 0, "HT": 1, "STEPS": 4, "EXTRA": 1}, repo=CMR, reach=["timer", "message", "signal", "refused", "add_in", "msg_in", "done"], thorough={"STEPS": 5}), H("worker", MG, {"BACK": 1, "HT": 1, "STEPS": 4, "EXTRA": 1}, repo=NWR, reach=["timer", "message", "add_in", "msg_in", "done"], thorough={"STEPS": 5, "EXTRA": 2}),
   H("scale", MG, {"BACK": 0, "HT": 4, "TN": 160}, repo=CMR, reach=["timer", "message", "done"], opts=["--max-steps", "40000000"]), H("scale_worker", MG, {"BACK": 1, "HT": 4, "TN": 160}, repo=NWR, reach=["timer", "message", "done"], opts=["--max-steps", "40000000"])],
  outside="longer histories with arbitrary operations; signals that interrupt the manager's own code (handlers run in signal context)", stubs=KM, assumptions=["a signal is delivered while the loop waits"])
P("C45", "4 (thorough 5) operations on services: creation of every kind and of invalid kinds with 1 failing bind, listen or event registration or no descriptors left, processors, removal, outgoing connections that succeed, start or fail at once, datagrams, arrivals; identifiers from -1 to one more than exist; initialisation with room for 0..3 descriptors and a refused registration, tried again",
  [H("services", MG, {"BACK": 0, "HT": 2, "STEPS": 4, "FAULTS": 1, "CTLFAIL": 0, "SENDF": 1, "MAXC": 14, "MAXFD": 16}, repo=CMR, reach=["created", "failed", "noproc", "removed", "connecting", "connected", "sent", "udp", "arrival", "done"], thorough={"STEPS": 5}),
   H("limits", MG, {"BACK": 0, "HT": 2, "STEPS": 3, "FAULTS": 0, "CTLFAIL": 1, "SENDF": 0, "MAXC": 7, "MAXFD": 9}, repo=CMR, reach=["created", "failed", "done"], thorough={"STEPS": 4}), H("nofd", MG, {"BACK": 0, "HT": 2, "STEPS": 3, "FAULTS": 0, "CTLFAIL": 0, "SENDF": 0, "MAXC": 10, "MAXFD": 8}, repo=CMR, reach=["created", "failed", "done"], thorough={"STEPS": 4}),
   H("init", MG, {"BACK": 0, "HT": 3}, repo=["src/CEvent.cpp", "src/Utils.cpp"], reach=["failed", "ok", "retry", "done"])],
  outside="longer histories", stubs=KM, assumptions=["the manager was initialised", "a datagram service gets its processor before datagrams arrive"])
