"""Script families for the thread primitives (harness h_thr):
P20 reader-writer lock, P21 mutex, condition and latch, P22 thread pool."""
from .core import Prop, View
from .run import Job
from .loop import A, M


def job(r, k, thr, opts=(), n=1):
    return Job("thr", dict(opts, k=k), thr, n, r.randrange(1 << 30))


def names(n):
    return ["t%d" % i for i in range(1, n + 1)]


def rw_job(r, n):
    fam = r.random()
    o = {"spurious": r.randrange(2)}
    nt = r.choice([2, 3, 3, 4])
    if fam < 0.2:  # readers meet inside the lock
        thr = []
        rounds = r.choice([1, 2])
        for t in names(nt):
            ops = []
            for k in range(rounds):
                ops += ["bar %d %d" % (100 + k, nt), "rm %d %d %d" % (r.randrange(3), k, nt), "bar %d %d" % (200 + k, nt)]
                ops += [r.choice(["w 0", "w 1", "r 1", "wg 1"]) for _ in range(r.randrange(3))]
            thr.append((t, ops))
        return job(r, "rw", thr, o, n)
    w = r.choice([0.2, 0.4, 0.7])
    return job(r, "rw", [(t, [r.choice(["w", "wg"] if r.random() < w else ["r", "rg"]) + " %d" % r.randrange(4)
                              for _ in range(r.choice([1, 2, 3, 5]))]) for t in names(nt)], o, n)


def mtx_job(r, n):
    fam = r.random()
    nt = r.choice([2, 3, 3, 4])
    if fam < 0.3:  # locks and try-locks
        return job(r, "mtx", [(t, [r.choice(["l", "lg", "lt", "try", "try", "h"]) + " " + " ".join(r.choice("pph") for _ in range(r.randrange(4)))
                                   for _ in range(r.choice([1, 2, 4]))]) for t in names(nt)], {}, n)
    if fam < 0.45:  # a try-lock while the mutex is certainly held
        thr = [("t1", ["%s m1 M2 h" % r.choice(["l", "lg", "lt"])])]
        thr.append(("t2", ["meet 1", "try p", "h", "arr 2", "l p"]))
        if r.random() < 0.5:
            thr.append(("t3", [r.choice(["l p", "try", "h"])]))
        return job(r, "mtx", thr, {}, n)
    us = [1, 500, 999, 1000, 1500, 250000, 999999, 1000000, 1000001, 1999999, 2000000, 3500000, r.randrange(1, 4000000)]
    thr = []
    for t in names(nt):
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            x = r.random()
            if x < 0.3:
                ops.append("l w " + r.choice(["", "h", "p", "n"]))
            elif x < 0.55:
                ops.append("%s w%d %s" % (r.choice(["l", "lg"]), r.choice(us), r.choice(["", "h", "w%d" % r.choice(us), "p"])))
            elif x < 0.8:
                ops.append("%s %s %s" % (r.choice(["l", "lg"]), r.choice("nnN"), r.choice(["", "p", "n"])))
            elif x < 0.9:
                ops.append("sleep %d" % r.choice([1, 1000, 500000, 2500000]))
            else:
                ops.append(r.choice(["try p", "h", "l a100", "p 3"]))
        thr.append((t, ops))
    return job(r, "mtx", thr, {"spurious": 1 if r.random() < 0.3 else 0}, n)


def latch_job(r, n):
    fam = r.random()
    o = {"n": r.choice([0, 1, 1, 2, 3]), "spurious": r.randrange(2)}
    nt = r.choice([2, 3, 4])
    if r.random() < 0.05:
        o["dflt"] = 1
    def ops(kinds, lo, hi):
        return [r.choice(kinds) for _ in range(r.randint(lo, hi))]
    if fam < 0.4:  # count down and wait
        return job(r, "latch", [(t, ops(["cd", "cd", "wait", "get", "p 2"], 1, 3)) for t in names(nt)], o, n)
    if fam < 0.75:  # all operations
        k = ["cd", "cd", "cd", "wait", "wait", "add 1", "add 2", "incr", "minus 1", "minus 2", "decr", "get", "aw 1", "aw 2", "iw", "p 2"]
        return job(r, "latch", [(t, ops(k, 1, 4)) for t in names(nt)], o, n)
    m = []
    for _ in range(r.choice([1, 2, 3])):
        m.append(r.choice(["reset 0", "reset 1", "reset 2", "rw 1", "rw 2", "rw 0", "cd", "cd", "minus 2", "get"]))
        if r.random() < 0.5:
            m.append("cd")
    return job(r, "latch", [(t, ops(["wait", "wait", "cd", "get"] + ([] if any(x[:2] == "rw" for x in m) else ["aw 1"]), 1, 2)) for t in names(nt)] + [("m", m)], o, n)


def pool_job(r, n):
    nw = r.choice([1, 1, 2, 2, 3, 4, 0]) if r.random() < 0.9 else 1
    o = {"q": r.choice([1, 1, 2, 3, 5]), "spurious": r.randrange(2), "named": r.randrange(2)}
    if r.random() < 0.2:
        o["setq"] = r.choice([1, 2, 4])
    bodies, thr = ["-", "-"], []
    def body(ops):
        nm = "b%d" % len(bodies)
        bodies.append(nm)
        thr.append((nm, ops))
    gates = r.random() < 0.4
    if gates:
        body(["gate 1"])
        body(["p 1", "gate 2"])
    if r.random() < 0.4:
        body(["push -"] + (["push -"] if r.random() < 0.3 else []))
        if gates:
            body(["gate 1", "push -"])
    body(["p %d" % r.randrange(1, 5)])
    if r.random() < 0.3:
        body(["sleep %d" % r.choice([1, 100])])
    push = lambda: "push " + r.choice(bodies)
    for t in names(r.choice([0, 1, 1, 2, 3])):
        thr.append((t, [push() if r.random() < 0.85 else "p 2" for _ in range(r.choice([1, 3, 6, 10]))]))
    m = []
    q = o.get("setq", o["q"])
    if r.random() < 0.3:
        m += [push() for _ in range(r.randrange(q + 1))] if not any(t[0][0] == "t" for t in thr) else []
    if r.random() < 0.95:
        m.append("start %d" % nw)
    if r.random() < 0.5:
        m.append("quiet 0")
    if r.random() < 0.5 and nw > 0 and not gates and any(x.startswith("start") for x in m) and not any("push" in " ".join(ops) for nm, ops in thr if nm[0] == "b"):
        m += [push() for _ in range(r.randrange(4))]
    if gates:
        m += ["open 1", "quiet 0"] if r.random() < 0.7 else []
        m += ["open 2", "quiet 200"] if r.random() < 0.7 else []
    if r.random() < 0.4:
        m.append("now")
    return job(r, "pool", thr + [("m", m)], o, n)


def thread_job(r, n):
    bodies, thr = [], []
    for i in range(r.randint(1, 4)):
        ops = [r.choice(["p %d" % r.randint(1, 3), "where", "tl 0", "tl 0", "tl 1", "gate %d" % r.randrange(4), "sleep 100", "open %d" % r.randrange(4)]) for _ in range(r.randrange(6))]
        if r.random() < 0.5:
            ops.append("where")
        bodies.append("b%d" % i)
        thr.append(("b%d" % i, ops))
    m, sl = [], {}  # slot -> state: "empty" "ready" "run" "joined"
    for _ in range(r.choice([3, 6, 10, 16])):
        free = [a for a in range(4) if a not in sl]
        ch = ["p"] + ["new"] * 3 * (len(free) > 0)
        for a, st in sl.items():
            ch += {"empty": ["startf"] * 2, "ready": ["start"] * 3 + ["startf"], "run": ["join"] * 2, "joined": []}[st]
            ch += ["del", "mov", "mas"]
        x = r.choice(ch)
        pick = lambda *s: r.choice([a for a, st in sl.items() if st in s])
        name = lambda: r.choice(["-", "-", "worker", "a-rather-long-thread-name", "x"])
        if x == "p":
            m.append(r.choice(["p 2", "quiet", "open %d" % r.randrange(4), "p 5"]))
        elif x == "new":
            a = r.choice(free)
            if r.random() < 0.7:
                m.append("newf %d %s %s" % (a, name(), r.choice(bodies)))
                sl[a] = "ready"
            else:
                m.append("new %d %s" % (a, name()))
                sl[a] = "empty"
        elif x == "start":
            a = pick("ready")
            m.append("start %d" % a)
            sl[a] = "run"
        elif x == "startf":
            a = pick("empty", "ready")
            m.append("startf %d %s" % (a, r.choice(bodies)))
            sl[a] = "run"
        elif x == "join":
            a = pick("run")
            m += ["open %d" % g for g in range(4)]
            m.append("join %d" % a)
            sl[a] = "joined"
        elif x == "del":
            a = r.choice(list(sl))
            m.append("del %d" % a)
            del sl[a]
        elif x == "mov" and free:
            a, b = r.choice(list(sl)), r.choice(free)
            m.append("mov %d %d" % (a, b))
            sl[b], sl[a] = sl[a], "empty"
        elif x == "mas" and len(sl) > 1:
            a, b = r.sample(list(sl), 2)
            m.append("mas %d %d" % (a, b))
            sl[b], sl[a] = sl[a], "empty"
    return job(r, "thread", thr + [("m", m)], {}, n)


def src(fn, quick, thorough):
    def f(rng, tier):
        k, n = quick if tier == "quick" else thorough
        return [("h_thr", [fn(rng, n) for _ in range(k)])]
    return f


VR = View("RwLockTrace", ["Ask", "Got", "Rel", "Free", "Q"])
MT = ["Ask", "Got", "Rel", "Free", "TryB", "TryE", "Held", "WaitB", "WaitE", "Note", "Q"]
VM = View("MutexTrace", MT, ("spurious",), when=lambda o: o["k"] == "mtx")
VL = View("LatchTrace", ["New", "OpB", "OpE", "WaitB", "WaitE", "GetB", "GetE", "Reset", "ResetW", "Q"], when=lambda o: o["k"] == "latch")
VP = View("ThrPoolTrace", ["New", "SetQ", "Start", "PushB", "PushE", "RunB", "RunE", "Q", "DelB", "DelE"])
VT = View("ThreadTrace", ["New", "Put", "StartB", "StartE", "RunB", "In", "RunE", "FnD", "Cell", "CellD", "JoinB", "JoinE", "Mov", "MasB", "MasE", "DelB", "DelE", "End"],
          when=lambda o: o["k"] == "thread")
PROPS = {
    "P20": lambda: Prop("P20", [VR], [src(rw_job, (400, 12), (6000, 30))], M("RwLockImpl", ["RwLockA"], ["RwLockB", "RwLockLive"]), assumptions=A),
    "P21": lambda: Prop("P21", [VM, VL], [src(mtx_job, (300, 10), (5000, 30)), src(latch_job, (300, 12), (5000, 30))], M("MutexImpl", ["MutexA"], ["MutexQ", "MutexB", "MutexC"]) + M("LatchImpl", ["LatchQ"], ["LatchA", "LatchLive"]), assumptions=A),
    "P27": lambda: Prop("P27", [VT], [src(thread_job, (400, 8), (8000, 20))], M("ThreadImpl", ["ThreadA"], ["ThreadB"]), assumptions=A),
    "P22": lambda: Prop("P22", [VP], [src(pool_job, (400, 12), (6000, 30))], M("ThrPoolImpl", ["ThrPoolA"], ["ThrPoolB", "ThrPoolC"]), assumptions=A),
}
