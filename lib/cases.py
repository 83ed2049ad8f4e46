"""The cases of every property: harness, parameters, bounds."""
import re
def C(name, h, covers=(), tier="q", **kw):
    d = dict(name=name, h=h, covers=list(covers), tier=tier)
    for k in ("time", "steps", "mem", "variant", "bound", "thorough", "nowit"):
        if k in kw:
            d[k] = kw.pop(k)
    d["p"] = kw
    return d


PROPS = {}
PROPS["C01"] = dict(
    bounds="3 sinks, all levels 0..6 for message, logger and each sink (symbolic), every logging entry point; async: each pool kind, queue 4, 1 worker, <=2 preemptions",
    cases=[C("sync-entries", "C01", ["delivered", "rejected"], mode=0), C("named", "C01", ["delivered", "rejected"], mode=1), C("free", "C01", ["delivered", "rejected"], mode=2), C("relevel", "C01", ["delivered"], mode=4)]
    + [C("async-%d" % k, "C01", ["delivered", "rejected"], mode=3, pool=k, det=0, merge=1, preempt=0) for k in range(3)])
PROPS["C02"] = dict(
    bounds="2 sinks, all levels for message, logger, flush level and sinks (symbolic); async: each pool kind, 1-2 workers, 1-2 messages",
    cases=[C("sync", "C02", ["flushed", "not-flushed"], mode=0), C("backtrace", "C02", ["flushed", "not-flushed"], mode=1), C("explicit", "C02", ["not-flushed"], mode=2)]
    + [C("async-%d-w%d" % (k, w), "C02", ["flushed", "not-flushed"], mode=3, pool=k, workers=w, preempt=0 if w > 1 or k else 1, thorough=dict(p=dict(mode=3, pool=k, workers=w, preempt=1, two=1))) for k in range(3) for w in (1, 2)])

PROPS["C03"] = dict(
    bounds="text of 0..6 symbolic bytes (and 260 bytes, beyond the inline buffer), name 0..3 bytes, symbolic time, level, line; 3 copy/move operations out of 7 kinds; every entry point; each pool kind with 2 messages",
    cases=[C("sync", "C03", ["sync"], mode=0, tlen=3, nlen=2, vary=1), C("sync-long", "C03", ["sync"], mode=0, tlen=260, nlen=1),
           C("copy", "C03", ["copies"], mode=1, tlen=3, nlen=2, nops=2, vary=1, thorough=dict(p=dict(mode=1, tlen=3, nlen=2, nops=3, vary=1))), C("copy-long", "C03", ["copies"], mode=1, tlen=260, nlen=3, nops=2), C("copy-empty", "C03", ["copies"], mode=1, tlen=0, nlen=1, nops=3)] + [C("copy-%d" % n, "C03", ["copies"], mode=1, tlen=n, nlen=1, nops=2) for n in (248, 249, 250, 499)]
    + [C("queued-empty-%d" % k, "C03", ["queued"], mode=2, pool=k, det=0, merge=1, preempt=0, tlen=1, nlen=1, n=2, vary=1) for k in range(3)]
    + [C("queued-%d" % k, "C03", ["queued"], mode=2, pool=k, det=0, merge=1, preempt=0, tlen=3, nlen=2, n=2, thorough=dict(p=dict(mode=2, pool=k, det=0, merge=1, preempt=1, tlen=3, nlen=2, n=3))) for k in range(3)]
    + [C("queued-long-%d" % k, "C03", ["queued"], mode=2, pool=k, tlen=300, nlen=2, n=2) for k in range(3)])

PROPS["C04"] = dict(
    bounds="every integer type: all values up to the largest power-of-ten bound below the type's maximum given by its leading digit, and the 4 values next to each extreme, fill lengths 0..22, 9 decimal specs, 5 hexadecimal/binary specs, strings up to 4 bytes with 10 specs, every format string of up to 4 bytes",
    cases=[C("fill-%d" % t, "C04", ["appended"], mode=0, type=t) for t in range(6)] + [C("append-%d" % t, "C04", ["appended"], mode=1, type=t) for t in range(6)]
    + [C("int-%d" % t, "C04", ["formatted"], time=250, mode=2, type=t) for t in (0, 1, 4, 5, 6)] + [C("int-%d-%s" % (t, n), "C04", ["formatted"], time=250, mode=2, type=t, s0=a, s1=b) for t in (2, 3) for n, a, b in (("a", 0, 2), ("b", 3, 5), ("c", 6, 6), ("d", 7, 7), ("e", 8, 8))] + [C("hex-%d" % t, "C04", ["formatted"], mode=3, type=t) for t in range(2)]
    + [C("string", "C04", ["formatted"], mode=4, len=4)] + [C("format-%d" % n, "C04", ["formatted"], mode=5, len=n) for n in (1, 2, 3)] + [C("format-4", "C04", ["formatted"], tier="t", mode=5, len=4)])

PROPS["C05"] = dict(
    bounds="every pattern of up to 4 (thorough 5) arbitrary bytes, every pattern <b>%<b><b>%<b> and %<b><b>%<b> and %{-,=}<b><b><b>, set by constructor or set_pattern, 3 end-of-line strings, one fixed message with and without location",
    cases=[C("any-%d" % n, "C05", ["rendered"], mode=0, len=n, hows=3) for n in (0, 1, 2, 3)] + [C("any-4", "C05", ["rendered"], time=200, mode=0, len=4, hows=0, again=0)] + [C("any-noloc", "C05", ["rendered"], mode=0, len=3, noloc=1, hows=0), C("two-flags", "C05", ["rendered"], time=200, mode=1, hows=0, again=0), C("two-flags-2", "C05", ["rendered"], time=200, mode=2, hows=0, again=0), C("aligned", "C05", ["rendered"], time=200, mode=3, hows=0, again=0)]
    + [C("any-5", "C05", ["rendered"], tier="t", time=1500, mode=0, len=5, hows=0)])

PROPS["C06"] = dict(
    bounds="message texts of 0,1,2,3,5,7,16,63,64,65,70,300 symbolic bytes with every width of 1..3, 5 and 20 digits, 3 alignments, cut or not; every other field flag with every width 0..39; two adjacent padded fields",
    cases=[C("text-%d" % nd, "C06", ["padded"], time=200, mode=0, digits=nd) for nd in (1, 2, 3)] + [C("text-long-width", "C06", ["padded"], time=200, mode=1, digits=5, l0=3, l1=3), C("text-huge-width", "C06", ["padded"], time=200, mode=1, digits=20, l0=3, l1=3), C("pair", "C06", ["padded"], time=200, mode=3)]
    + [C("fields-%d" % i, "C06", ["padded"], time=200, mode=2, f0=5 * i, f1=min(5 * i + 4, 25)) for i in range(6)] + [C("fields-noloc", "C06", ["padded"], time=200, mode=2, f0=22, f1=25, noloc=1)])
PROPS["C07"] = dict(
    bounds="years 1970..9999 with any calendar digits, any second count up to 9223372035, any nanosecond digits, the whole range 0..9.219e18 ns for the sub-second fields, elapsed differences up to 2e18 ns forwards and backwards, 2 messages (3 messages for differences of 2, 5, 8, 11 digits)",
    cases=[C("calendar", "C07", ["rendered"], time=200, mode=0), C("names", "C07", ["rendered"], time=200, mode=1), C("subsecond", "C07", ["rendered"], time=200, mode=2), *[C("elapsed-%d" % u, "C07", ["rendered"], time=250, mode=3, n=2, digits=19, unit=u) for u in range(4)], *[C("elapsed-three-%d" % u, "C07", ["rendered"], time=250, mode=3, n=3, dmin=d, digits=d, unit=u) for u, d in enumerate((2, 5, 8, 11))]])
PROPS["C08"] = dict(
    bounds="2-3 consecutive messages with arbitrary seconds (same or different), nanoseconds, calendar digits; one message with text 0..4, name 0..2 symbolic bytes, all levels, no location / line <= 0 / missing file name / lines of 1..8 digits",
    cases=[C("two-%d" % h, "C08", ["rendered"], time=200, n=2, how=h) for h in range(3)] + [C("three", "C08", ["rendered"], time=250, n=3), C("rich", "C08", ["rendered"], time=250, n=1, rich=1)])
PROPS["C09"] = dict(
    bounds="file name missing or 0..3, function name missing or 0..2 arbitrary bytes, every line number, plain and 5 padded patterns",
    cases=[C("plain", "C09", ["rendered"], mode=0), C("padded", "C09", ["rendered"], time=200, mode=1)])

PROPS["C10"] = dict(
    bounds="every max_file_size of 64 bits, up to 3 (and 10) files, every subset of numbers 1..3 already existing with arbitrary content, 3-4 messages of 0, 1, 3 or 300 bytes, flushes anywhere, one or two runs on the same directory, an older file removed by somebody else between messages",
    cases=[C("roll-%d" % k, "C10", ["done", "rolled"], time=200, num=k, n=4 if k == 3 else 3) for k in (1, 2, 3)] + [C("noflush", "C10", ["done", "rolled"], time=200, num=3, n=5, flush=0), C("empty", "C10", ["done", "rolled"], time=200, num=2, n=4, eol=0, flush=0), C("big", "C10", ["done", "rolled"], time=200, num=2, n=3, big=1, flush=0), C("again", "C10", ["done", "rolled"], time=200, num=3, n=2, runs=2, flush=0), C("ten", "C10", ["done", "rolled"], time=200, num=10, n=3, flush=0), C("cleaned", "C10", ["done", "rolled", "cleaned"], time=200, num=4, n=4, flush=0, clean=1, pre=1)])
PROPS["C11"] = dict(
    bounds="every base name of up to 4 (thorough 5) bytes, also below a directory with a dot, max_file_num 1, 9, 10, 99, 100, 9999, 10000, every index",
    cases=[C("name-%d" % k, "C11", ["named"], time=200, len=k) for k in (0, 1, 2, 3)] + [C("name-4", "C11", ["named"], time=200, len=4, nums=1), C("below-%d" % 3, "C11", ["named"], time=200, len=3, prefix=1, nums=3)] + [C("name-5", "C11", ["named"], tier="t", time=1000, len=5, nums=1)])
PROPS["C12"] = dict(
    bounds="every path of up to 5 (thorough 6) characters over '/', '.' and a letter (no '..'), 7 typical paths, any number of existing parent directories, existing file content of 3 arbitrary bytes, truncate or append, opened twice, the file alone or with its directories removed by others in between, 2 messages each",
    cases=[C("path-%d" % k, "C12", ["done"], time=200, mode=0, len=k) for k in (1, 2, 3, 4, 5)] + [C("typical", "C12", ["done"], time=200, mode=1), C("path-6", "C12", ["done"], tier="t", time=1000, mode=0, len=6)])
PROPS["C13"] = dict(
    bounds="up to 2 failures of any file operation (open, fdopen, write, flush, close, stat, fstat, mkdir) at any call, single or persisting, while creating, logging, flushing and destroying; 3 operations, basic and rolling file sink",
    cases=[C("%s-%s%s" % ("basic" if m == 0 else "rolling", "early" if e else "late", "-sticky" if s else ""), "C13", ["done", "failed"] + (["not-created"] if e and s else []), time=200, mode=m, early=e, sticky=s, n=2 if e else 3, faults=1 if m == 1 and e and not s else 2) for m in (0, 1) for e in (0, 1) for s in (0, 1)] + [C("heal-%d" % m, "C13", ["done", "failed"], time=200, mode=m, heal=1, sticky=1, n=2) for m in (0, 1)])
PROPS["C14"] = dict(
    bounds="capacities 0..4 (6), every reachable head position, fill 0..capacity+1, arbitrary 32-bit elements (plain and heap-owning), 3 (thorough 4) further operations out of 12 over two rings",
    cases=[C("plain-%d" % c, "C14", ["done", "unusable"], mode=0, n=3, c0=c, c1=c) for c in range(5)] + [C("own-%d" % c, "C14", ["done", "unusable"], mode=1, n=3, c0=c, c1=c) for c in range(4)] + [C("default", "C14", ["done"], mode=2), C("plain-6", "C14", ["done"], mode=0, n=2, c0=6, c1=6)]
    + [C("deep-%d" % c, "C14", ["done"], tier="t", time=1000, mode=0, n=4, c0=c, c1=c) for c in (1, 2, 3)])
_C15 = ["EE|DD", "E|E|DD", "EE|D|D", "E|E|D|D", "EEE|DDD", "NN|D", "N|N|D", "NNN|T", "NN|TT", "RR|T", "R|R|T", "RR|TT", "E|R|N|D", "EN|RT", "E|T|T", "EE|T|D", "N|S|Z", "R|EZ", "EE|ED|DD", "EE|EE|DDDD", "E|E|E|DDD", "D|D|EE", "D|D|E|E", "D|D|NR", "NE|DD", "RE|DD"]
_c15cap = lambda i: (2,) if i in (12, 17, 23) else (0, 1, 2) if i in (7, 8, 9, 10, 11, 16) else (1, 2)
PROPS["C15"] = dict(
    bounds="26 programs of 2-4 threads with 2-6 operations out of the 3 enqueues, 2 dequeues and size, capacities 0..2 (queue empty or prefilled), every interleaving of synchronisation operations (unbounded preemptions), 1 spontaneous time-out, 1 spurious wake-up",
    cases=[C("%s-cap%d" % (_C15[i].replace("|", "_"), c), "C15", ["done"], prog=i, cap=c, preempt=-1, spurious=1) for i in range(len(_C15)) for c in _c15cap(i)]
    + [C("full-%s-cap%d" % (_C15[i].replace("|", "_"), c), "C15", ["done"], prog=i, cap=c, preempt=-1, pre=c) for i in (5, 6, 8, 11, 24) for c in (1, 2)])


def _pool(k, variant=""):
    P = dict(pool=k)
    q = [C("own-1", "C16", ["done"], mode=0, preempt=-1, n=3, **P), C("own-2", "C16", ["done"], mode=0, preempt=2, workers=2, n=2, thorough=dict(p=dict(mode=0, preempt=3, workers=2, n=3, **P)), **P),
         C("own-3", "C16", ["done"], mode=0, preempt=1 if k else 2, workers=3, n=2, thorough=dict(p=dict(mode=0, preempt=2, workers=3, n=2, **P), time=900), **P),
         C("threads-1", "C16", ["done"], mode=1, preempt=3 if k == 0 else 2, n=2, time=200, thorough=dict(p=dict(mode=1, preempt=3, n=2, **P), time=900), **P),
         C("threads-2", "C16", ["done"], mode=1, preempt=1, workers=2, time=100, thorough=dict(p=dict(mode=1, preempt=2, workers=2, **P), time=900), **P),
         C("threads-3", "C16", ["done"], mode=1, preempt=1, producers=3, n=1, time=100, thorough=dict(p=dict(mode=1, preempt=2, producers=3, n=1, workers=2, **P), time=900), **P),
         C("other-thread", "C16", ["done"], mode=1, main=0, preempt=2, n=2, time=100, **P),
         C("going-1", "C16", ["done", "reported", "all"], mode=2, preempt=3, time=200, thorough=dict(p=dict(mode=2, preempt=3, **P), time=900), **P),
         C("going-2", "C16", ["done", "reported", "all"], mode=2, preempt=1, workers=2, time=100, thorough=dict(p=dict(mode=2, preempt=2, workers=2, **P), time=900), **P),
         C("dropped", "C16", ["done"], mode=3, preempt=-1, n=2, loggers=2, **P), C("dropped-2", "C16", ["done"], mode=3, preempt=1, workers=2, loggers=2, **P),
         C("two-pools", "C16", ["done"], mode=4, preempt=1, time=100, thorough=dict(p=dict(mode=4, preempt=2, **P), time=900), **P), C("two-pools-2", "C16", ["done"], mode=4, preempt=0 if k else 1, workers=2, time=100, **P),
         C("same-place", "C16", ["done"], mode=6, place=1, preempt=2, n=1, **P), C("same-place-2", "C16", ["done"], mode=6, place=1, preempt=1, n=2, workers=2, time=100, **P), C("in-turn", "C16", ["done"], mode=6, preempt=1, n=2, time=100, **P),
         C("forward", "C16", ["done"], mode=7, preempt=2, n=2, time=100, **P), C("forward-both", "C16", ["done"], mode=7, preempt=1, n=2, both=1, time=100, **P), C("forward-2", "C16", ["done"], mode=7, preempt=0, n=2, workers=2, time=100, **P),
         C("idle", "C16", ["done"], mode=5, preempt=-1, **P), C("idle-2", "C16", ["done"], mode=5, preempt=2, workers=2, **P),
         C("no-callbacks", "C16", ["done"], mode=0, preempt=1, cbs=0, **P), C("no-callbacks-2", "C16", ["done"], mode=0, preempt=1, cbs=0, workers=2, n=2, **P), C("start-only-2", "C16", ["done"], mode=0, preempt=1, cbs=2, workers=2, n=2, **P), C("start-only", "C16", ["done"], mode=1, preempt=1, cbs=2, n=1, **P),
         C("tiny", "C16", ["done"], mode=0, preempt=-1, qs=1, n=4, **P), C("wide", "C16", ["done"], mode=1, preempt=1, qs=33, n=2, **P),
         C("two-loggers", "C16", ["done"], mode=1, preempt=1, loggers=2, n=3, **P)]
    if k:
        q += [C("notls-own", "C16", ["done"], variant="notls", mode=0, preempt=2, **P), C("notls-no-callbacks", "C16", ["done"], variant="notls", mode=0, preempt=1, cbs=0, workers=2, n=2, **P), C("notls-start-only", "C16", ["done"], variant="notls", mode=0, preempt=1, cbs=2, workers=2, n=2, **P), C("notls-threads", "C16", ["done"], variant="notls", mode=1, preempt=1, time=100, **P), C("notls-forward", "C16", ["done"], variant="notls", mode=7, preempt=1, n=2, **P), C("notls-same-place", "C16", ["done"], variant="notls", mode=6, place=1, preempt=1, n=1, **P), C("notls-two-pools", "C16", ["done"], variant="notls", mode=4, preempt=1, time=100, **P)]
    return q


_pb = "1-3 workers, 1-3 producer threads including the destroying one, 1-4 messages each with an arbitrary byte, queue sizes 1, 2, 33; unbounded preemptions with one worker and one producer, 1-2 (thorough 3) preemptions of any synchronisation or atomic operation otherwise; spin of the semaphore before blocking shortened to 1"
PROPS["C16"] = dict(bounds=_pb, cases=_pool(0))
PROPS["C17"] = dict(bounds=_pb + "; with and without thread_local storage", cases=_pool(1))
PROPS["C18"] = dict(bounds=_pb + "; with and without thread_local storage", cases=_pool(2))
PROPS["C19"] = dict(
    bounds="each pool kind with 1 worker, 2 messages and a flush by 1-2 threads, sinks that throw, pool gone before or during the call; unbounded preemptions with one caller, 2 otherwise",
    cases=[C("one-%d" % k, "C19", ["done"], mode=0, preempt=-1, pool=k, n=3) for k in range(3)] + [C("two-%d" % k, "C19", ["done"], time=100, mode=1, preempt=2 if k == 0 else 1, pool=k, n=2 if k == 0 else 1, thorough=dict(p=dict(mode=1, preempt=2, pool=k, n=2), time=900)) for k in range(3)]
    + [C("throw-%d" % k, "C19", ["done"], mode=2, preempt=2, pool=k, thorough=dict(p=dict(mode=2, preempt=-1, pool=k), time=900)) for k in range(3)] + [C("gone-%d" % k, "C19", ["done"], mode=3, preempt=-1, pool=k) for k in range(3)]
    + [C("going-%d" % k, "C19", ["done", "flushed", "gone"], mode=4, preempt=2, pool=k, thorough=dict(p=dict(mode=4, preempt=-1, pool=k), time=900)) for k in range(3)] + [C("empty-%d" % k, "C19", ["done"], mode=5, preempt=-1, pool=k) for k in range(3)])

PROPS["C21"] = dict(
    bounds="4 (thorough 5) operations out of enable with capacity 0..3, disable, log, dump on the same logger in every order, messages of 0..2 arbitrary bytes and 260 bytes, a ring of capacity 1..3 prefilled with 0..capacity+1 messages; through each pool kind; 2 threads (enable/disable/log/dump) with unbounded preemptions, race check with 2",
    cases=[C("seq-4", "C21", ["done", "dumped"], mode=0, n=4), C("seq-5", "C21", ["done", "dumped"], tier="t", time=1000, mode=0, n=5)] + [C("full-%d" % c, "C21", ["done", "dumped"], mode=0, pre=1, cap=c, n=2) for c in (1, 2, 3)] + [C("full-deep-%d" % c, "C21", ["done", "dumped"], tier="t", time=600, mode=0, pre=1, cap=c, n=3) for c in (1, 2, 3, 4)]
    + [C("long", "C21", ["done", "dumped"], mode=0, n=4, long=260)] + [C("async-%d" % k, "C21", ["done", "dumped"], mode=1, pool=k, n=2) for k in range(3)]
    + [C("threads", "C21", ["done"], mode=2, n=2, preempt=-1)] + [C("race-%d" % w, "C21", ["done"], mode=2, merge=0, preempt=2, n=1, what=w) for w in range(3)] + [C("levels", "C21", ["done"], mode=3)])
PROPS["C22"] = dict(
    bounds="sequences of 3 (thorough 4) calls out of 8 over 3 names and 4 loggers; 2 threads with 1 call each (unbounded preemptions) and 2 calls each (1 preemption) out of 12, judged for linearizability; race check with 2 preemptions",
    cases=[C("seq", "C22", ["done", "duplicate"], n=3), C("seq-4", "C22", ["done", "duplicate"], tier="t", time=1000, n=4), C("threads", "C22", ["done"], threads=1, n=1, preempt=-1), C("race", "C22", ["done"], threads=1, n=1, preempt=2, merge=0)] + [C("threads-2-%d" % o, "C22", ["done"], threads=1, n=2, preempt=1, o0=o, thorough=dict(p=dict(threads=1, n=2, preempt=2, o0=o), time=600)) for o in range(12)])
PROPS["C23"] = dict(
    bounds="3 calls out of 10 kinds (every global and per-logger setting, creations) on up to 4 loggers, also with asynchronous loggers; settings changed by one thread while another logs 1-2 messages, unbounded preemptions, race check with 2",
    cases=[C("seq-%d" % o, "C23", ["done"], n=3, o0=o) for o in range(10)] + [C("async", "C23", ["done"], asyncs=1, n=2)] + [C("async-3-%d" % o, "C23", ["done"], tier="t", time=300, asyncs=1, n=3, o0=o) for o in range(10)]
    + [C("threads", "C23", ["done"], threads=1, preempt=-1), C("threads-two", "C23", ["done"], threads=1, preempt=-1, two=1), C("race-two", "C23", ["done"], threads=1, preempt=2, merge=0, n=1, two=1), C("race", "C23", ["done"], threads=1, preempt=2, merge=0, n=2)])
PROPS["C24"] = dict(
    bounds="3 operations out of 10 (initialize, register, factories of 3 pool kinds, drop, log, flush, remove) in any order with 1-2 workers; pools replaced while another thread logs, every pair of kinds; factories called by 2 threads, 1-2 preemptions",
    cases=[C("seq-%d" % o, "C24", ["done"], mode=0, n=3, o0=o) for o in range(10)] + [C("seq-t2-%d" % o, "C24", ["done"], tier="t", time=300, mode=0, n=3, o0=o, t2=1) for o in range(10)] + [C("seq-4-%d%d" % (o, o1), "C24", ["done"], tier="t", time=300, mode=0, n=4, o0=o, o1=o1) for o in range(10) for o1 in range(10)]
    + [C("replace-%d%d" % (a, b), "C24", ["done"], mode=1, k0=a, k1=b, n=1, preempt=2, thorough=dict(p=dict(mode=1, k0=a, k1=b, n=2, preempt=3), time=600)) for a in range(3) for b in range(3)]
    + [C("factories-%d%d" % (a, b), "C24", ["done"], mode=2, k0=a, k1=b, preempt=1, thorough=dict(p=dict(mode=2, k0=a, k1=b, preempt=2), time=600)) for a in range(3) for b in range(a, 3)] + [C("factories-none-%d%d" % (a, b), "C24", ["done"], mode=2, k0=a, k1=b, preempt=1 if a else 0, preset=0) for a in range(3) for b in range(a, 3)])
PROPS["C25"] = dict(
    bounds="3 sinks any of which throws std::exception or something else on any log or flush call, 2 (thorough 3) messages, error handlers that are set, unset or throw; every format string of up to 4 bytes (no locale specifier L) with 1-2 arguments; each pool kind; periodic flush; backtrace; error handling in the same second",
    cases=[C("sync", "C25", ["done"], mode=0, n=2, thorough=dict(p=dict(mode=0, n=3), time=600)), C("m1", "C25", ["done"], mode=1), C("m2", "C25", ["done"], mode=2)] + [C("format-%d" % n, "C25", ["done", "delivered", "reported"] if n > 1 else ["done"], mode=3, len=n) for n in (1, 2, 3, 4)] + [C("async-%d" % k, "C25", ["done"], mode=4, pool=k) for k in range(3)] + [C("m%d" % m, "C25", ["done"], mode=m) for m in (5, 6, 7)])
PROPS["C26"] = dict(
    bounds="intervals of every standard unit and of integral, fractional and narrow representations from 1 ns to 34 days, and every non-positive number of nanoseconds; up to 4 time-outs, 2 spurious wake-ups, tasks that take time, destruction at any point; unbounded preemptions; flush_every with 2 calls while another thread logs; race check",
    cases=[C("ticks", "C26", ["done", "ran", "never-ran"], mode=0, timeouts=4), C("ticks-spurious", "C26", ["done", "ran", "never-ran"], mode=0, timeouts=3, spurious=2), C("m1-1", "C26", ["done"], mode=1, n=1), C("m1-2", "C26", ["done"], mode=1, n=2), C("m1-spurious", "C26", ["done"], mode=1, n=1, spurious=1), C("m2", "C26", ["done"], mode=2), C("flush-every", "C26", ["done"], mode=3), C("kinds", "C26", ["done"], mode=4, n=3), C("flush-kinds", "C26", ["done"], mode=5, n=2), C("race", "C26", ["done"], mode=0, merge=0, preempt=2, ivs=0), C("race-flush", "C26", ["done"], mode=3, merge=0, preempt=1)])
PROPS["C27"] = dict(
    bounds="formatter clones with every pattern of up to 2 bytes and known 3-byte patterns, every custom flag character; logger clones (synchronous, each pool kind) with any name of 2 bytes and any levels; copy, move, swap of loggers",
    cases=[C("formatter-1", "C27", ["done"], mode=0, len=1), C("formatter-2", "C27", ["done"], mode=0, len=2), C("formatter-2f", "C27", ["done"], mode=0, len=2, flagged=1), C("formatter-3", "C27", ["done"], mode=0, len=3, known=1, hows=0, flagged=1), C("m1", "C27", ["done"], mode=1)] + [C("async-%d" % k, "C27", ["done"], mode=2, pool=k) for k in range(3)] + [C("m3", "C27", ["done"], mode=3), C("m4", "C27", ["done"], mode=4)])
PROPS["C28"] = dict(
    bounds="every pattern of up to 3 bytes and 4-byte patterns made of two flags, both terminals, colour modes always/automatic/never, all levels, symbolic text, every level's code replaced; 2 threads sharing the console mutex see C20",
    cases=[C("pattern-2", "C28", ["done", "coloured", "plain"], mode=0, len=2), C("pattern-3", "C28", ["done", "coloured", "plain"], mode=0, len=3), C("marks", "C28", ["done", "coloured", "plain"], mode=0, len=4, marks=1), C("marks-l0", "C28", ["done", "coloured", "plain"], mode=0, len=4, marks=1, level=0)] + [C("m%d" % m, "C28", ["done"] + (["coloured", "plain"] if m < 3 else []), mode=m) for m in (1, 2, 3, 4)])
_K20 = ["file", "rolling", "stdout", "stdout-color", "stderr-color", "two-color", "color-and-plain", "ostream", "user", "null", "stderr", "two-plain"]
PROPS["C20"] = dict(
    bounds="12 sinks or pairs of sinks on one console, 2 threads with 2 (thorough 3) operations each out of log (2 arbitrary bytes), flush, set_pattern, set_formatter, set_level_color, unbounded preemptions of mutex and stream operations, output judged against every order; happens-before race check with 2 preemptions; one logger with 2 sinks used by 2 threads",
    cases=[C(n, "C20", ["done"], mode=0, kind=k, n=2) for k, n in enumerate(_K20)] + [C("ostream-force", "C20", ["done"], mode=0, kind=7, n=2, force=1)]
    + [C("race-" + n, "C20", ["done"], mode=0, kind=k, n=2, merge=0, preempt=2, dflt=1) for k, n in enumerate(_K20)]
    + [C("deep-%s-%d" % (n, o), "C20", ["done"], tier="t", time=300, mode=0, kind=k, n=3, o0=o) for k, n in enumerate(_K20) for o in range(4)]
    + [C("own-%s" % _K20[k], "C20", ["done"], mode=0, kind=k, n=2, own=1) for k in (5, 6, 11)] + [C("own-race-%s" % _K20[k], "C20", ["done"], mode=0, kind=k, n=2, own=1, merge=0, preempt=2) for k in (5, 6, 11)]
    + [C("logger", "C20", ["done"], mode=1, n=2), C("race-logger", "C20", ["done"], mode=1, n=2, merge=0, preempt=1)])

PROPS["C31"] = dict(
    bounds="a synchronous and an asynchronous logger on each pool kind with 1-2 workers, 2-3 messages with arbitrary bytes, loggers held by objects that live longer or shorter than the registry, periodic flushing with one time-out; basic and rolling files; close() called once or twice, by two threads, while another thread logs; 1-3 preemptions, unbounded for the lock-based pool; race check",
    cases=[C("exit-%d" % k, "C31", ["done"], mode=0, pool=k, n=2, preempt=-1 if k == 0 else 2, nowit=1) for k in range(3)] + [C("exit-two-%d" % k, "C31", ["done"], time=150, mode=0, pool=k, n=1, workers=2, producer=1, preempt=0 if k else 1, nowit=1, thorough=dict(p=dict(mode=0, pool=k, n=2, workers=2, producer=1, preempt=1), time=900)) for k in range(3)]
    + [C("exit-every-%d" % k, "C31", ["done"], mode=0, pool=k, n=1, every=1, timeouts=1, preempt=2, nowit=1) for k in range(3)]
    + [C("close-%d" % k, "C31", ["done"], mode=1, pool=k, n=2, preempt=1, every=1, time=200, nowit=1) for k in range(3)]
    + [C("files-%d" % k, "C31", ["done"], mode=2, pool=k, n=3, preempt=1, nowit=1) for k in range(3)]
    + [C("logging-%d" % k, "C31", ["done", "reported", "all"], mode=3, pool=k, n=2, preempt=2, nowit=1) for k in range(3)] + [C("logging-race-%d" % k, "C31", ["done"], mode=3, pool=k, n=1, preempt=1, merge=0, every=1, nowit=1) for k in range(3)]
    + [C("two-%d" % k, "C31", ["done"], mode=4, pool=k, n=2, preempt=2, every=1, timeouts=1, nowit=1) for k in range(3)])

PROPS["C32"] = dict(
    bounds="error texts of 0..6, 230 and 600 arbitrary bytes other than NUL, any second up to 9223372035 with any calendar digits of years 1970..9999, up to 12 (thorough 101) errors in a row, 2 threads with 2 errors each under every interleaving of the writes, 5 error numbers, lines of 1..8 digits, 5 logger names, each pool kind",
    cases=[C("text-%d" % n, "C32", ["done"], mode=0, len=n) for n in (0, 1, 3, 6, 230, 600)] + [C("twice", "C32", ["done"], mode=6, len=2), C("row", "C32", ["done"], mode=1, n=12), C("row-101", "C32", ["done"], tier="t", mode=1, n=101)]
    + [C("threads", "C32", ["done"], mode=2, n=2), C("threads-race", "C32", ["done"], mode=2, n=2, race=1, preempt=2)] + [C("exceptions-%d" % n, "C32", ["done"], mode=3, len=n) for n in (0, 2, 6)]
    + [C("registry", "C32", ["done"], mode=4)] + [C("async-%d" % k, "C32", ["done"], mode=5, pool=k) for k in range(3)])

_P29 = "E|D T|D EE|D TT|D B|DD b|K EE|DD TT|DD E|E|D T|T|D E|T|C ED|ED TD|TD E|ED TT|CC TT|F bT|K EEE|D TTT|D BE|K E|D|D TT|D|D EE|D|D b|F|D X|D XT|DD EDED|D TDTD|D EED|EDD TTD|TDD XX|X|D bD|K|D EX|ED|D TTTTT|KK ETET|CD|D".split()
_F29 = "ee|eeK e|K e|e|K eK|eK ee|K|K eeK|e|e K|K|e".split()
_B29, _S29 = 14, 13
_T29 = (4, 6, 7, 8, 9, 11, 13)
PROPS["C29"] = dict(
    bounds="ConcurrentQueue with block sizes 2 and 4, index growth, block recycling on and off, flag and counter emptiness, subqueue limits 6 and 8: one thread, every sequence of 2 (thorough 3-4) operations out of single and bulk, copied and moved, allocating and not, implicit and token producers, consumer tokens, per-producer dequeue, tokens coming and going, move and swap of the queue, from every position within the first blocks; 42 programs of 2-3 threads with up to 5 operations each, 3 (thorough 5) preemptions, shifted and unshifted starts, happens-before race check with 1 preemption; BlockingConcurrentQueue and LightweightSemaphore: 14 and 13 programs of 2-3 threads, 3 preemptions, 2 timeouts at any time. Elements whose constructors throw and exhausted memory are outside",
    cases=[C("seq-%d-%d" % (t, s), "C29", ["done"] + (["full"] if s < 2 else []), time=200, mode=0, traits=t, set=s, n=2) for t in range(4) for s in range(4) if s < 2 or t < 2]
    + [C("fresh-%d-%d" % (t, s), "C29", ["done"] + (["full"] if s < 2 else []), time=200, mode=0, traits=t, set=s, n=4, pre=0) for t in range(4) for s in range(4) if s < 2 or t < 2]
    + [C("seq3-%d-%d" % (t, s), "C29", ["done", "full"], tier="t", time=600, mode=0, traits=t, set=s, n=3) for t in range(4) for s in (0, 1)]
    + [C("par-%s" % p.replace("|", "-"), "C29", ["done"], time=300, mode=1, prog=i, preempt=3) for i, p in enumerate(_P29) if i != 32]
    + [C("par-EX-ED-D", "C29", ["done"], time=300, mode=1, prog=32, preempt=2)]
    + [C("shift%d-%s" % (s, p.replace("|", "-")), "C29", ["done"], time=300, mode=1, prog=i, preempt=3 if s < 3 else 2, traits=s & 1, shift=s) for s in (1, 2, 3) for i, p in enumerate(_P29) if i != 32 and i != 34]
    + [C("deep-%s" % p.replace("|", "-"), "C29", ["done"], tier="t", time=400, mode=1, prog=i, preempt=5) for i, p in enumerate(_P29)]
    + [C("race-%s" % p.replace("|", "-"), "C29", ["done"], time=200, mode=1, prog=i, merge=0, preempt=1) for i, p in enumerate(_P29)]
    + [C("race2-%s" % p.replace("|", "-"), "C29", ["done"], tier="t", time=300, mode=1, prog=i, merge=0, preempt=2, shift=1) for i, p in enumerate(_P29) if i < 30]
    + [C("blocks-%s" % p.replace("|", "-"), "C29", ["done"], time=300, mode=1, traits=4, fill=3, cap=0, prog=35 + i, preempt=2 if i == 5 else 3) for i, p in enumerate(_F29)]
    + [C("blocks-deep-%s" % p.replace("|", "-"), "C29", ["done"], tier="t", time=600, mem=8000, mode=1, traits=4, fill=3, cap=0, prog=35 + i, preempt=4) for i, p in enumerate(_F29)]
    + [C("blocks-race-%s" % p.replace("|", "-"), "C29", ["done"], time=200, mode=1, traits=4, fill=3, cap=0, prog=35 + i, merge=0, preempt=1) for i, p in enumerate(_F29)]
    + [C("blocking-%d" % i, "C29", ["done"], time=200, mode=2, prog=i, preempt=3, timeouts=2 if i in _T29 else 0) for i in range(_B29)]
    + [C("blocking-race-%d" % i, "C29", ["done"], time=200, mode=2, prog=i, preempt=1, merge=0) for i in range(_B29)]
    + [C("sema-%d" % i, "C29", ["done"], time=200, mode=3, prog=i, preempt=4, timeouts=2) for i in range(_S29)] + [C("sema0-%d" % i, "C29", ["done"], time=200, mode=3, prog=i, preempt=4, timeouts=2, spins=0) for i in range(_S29)])

# the same with the assertions of the sources compiled in (a Debug build)
_DBG = {"C14": r"(plain-[0-3]|own-2|default)$", "C15": r".*-cap1$", "C16": r"(own-[12]|threads-1|same-place|forward|going-1|tiny)$", "C17": r"(own-[12]|threads-2|same-place|in-turn|going-2|tiny|wide)$",
        "C18": r"(own-[12]|threads-1|same-place|forward|going-1|tiny|wide)$", "C19": r"(one|going)-\d$", "C21": r"(seq-4|full-2|async-\d|threads)$", "C25": r"(sync|m\d|async-\d)$",
        "C29": r"(seq-0-0|seq-1-1|fresh-1-0|par-.*|blocks-[^dr].*|blocking-\d+|sema-\d+)$", "C32": r"(text-3|twice|row|threads|registry|async-\d)$"}
for _p, _r in _DBG.items():
    PROPS[_p]["cases"] = PROPS[_p]["cases"] + [dict(c, name="debug-" + c["name"], variant="debug", thorough={}) for c in PROPS[_p]["cases"] if re.match(_r, c["name"]) and not c.get("variant") and c.get("tier", "q") == "q"]
    PROPS[_p]["bounds"] += "; representative cases also with assertions compiled in"
