"""Script families for the log modules (harness h_log):
P17 asynchronous log, P18 rolling log file, P19 log statements."""
from .core import Prop, View
from .run import Job
from .loop import A, M

MB = 1 << 20
BUF = 4 * MB
PREFIX = [("", 0), ("", 0), ("log/", 0), ("log", 0), ("/v/d/", 0), ("/v/d", 0), ("/v", 1), ("log", 1), ("log/", 1)]


def base(r, k):
    o = {"k": k, "base": r.choice(["app", "a", "server.x", "long_name_of_a_process"])}
    p, e = r.choice(PREFIX)
    if p:
        o["prefix"], o["exists"] = p, e
    return o


def async_job(r, n):
    o = base(r, "async")
    o["fl"] = r.choice([1, 1, 2, 3])
    fam = r.random()
    small = [1, 2, 3, 10, 100, 1000, 5000, 70000]
    mid = small + [MB, 2 * MB, BUF - 1, BUF - 2, BUF - 100]
    m, thr = [], []
    if fam < 0.12:  # the backlog passes the limit behind a slow disk
        o["slow"] = r.choice([10000, 300000, 2000000])
        big = r.choice([2 * MB, 2 * MB + 1, 3 * MB, BUF - 1])
        k = r.choice([17, 18, 19, 24, 36]) * (2 if big == 2 * MB else 1)
        k = min(k, 40)
        m = ["start", "app 10", "quiet %d" % r.choice([0, 3500000])]
        m += ["app %d" % r.choice([big, big, big, 100]) for _ in range(k)]
        m += r.choice([["quiet 9000000"], ["quiet 400000000", "app 5", "quiet 400000000"], []])
        m += ["app %d" % r.choice([1, 1000]) for _ in range(r.randrange(3))] + ["stop"]
        return Job("log", o, [("m", m)], max(1, n // 5), r.randrange(1 << 30))
    sizes = mid if fam < 0.45 else small
    if r.random() < 0.3:
        o["slow"] = r.choice([1, 100, 100000, 2000000])
    if r.random() < 0.3:
        o["roll"] = r.choice([0, 1, 100, 5000])
        o["num"] = r.choice([-1, -1, 2, 3])
    if r.random() < 0.1:
        o["iv"] = r.choice([1, 60])
    def app():
        return "app %d" % r.choice(sizes)
    def idle():
        return r.choice(["p 2", "sleep 1", "sleep %d" % (o["fl"] * 1000000), "sleep %d" % r.randrange(1, 4000000), "p 1"])
    nt = r.choice([0, 1, 2, 2, 3, 4])
    lim = 3 if sizes is mid else 6
    for t in range(nt):
        thr.append(("t%d" % (t + 1), [app() if r.random() < 0.7 else idle() for _ in range(r.randint(1, lim))]))
    if r.random() < 0.15:
        m += [app() for _ in range(r.randrange(3))]
    m.append("start")
    if nt and r.random() < 0.8:
        m.append("go")
    for _ in range(r.randrange(5)):
        m.append(app() if r.random() < 0.6 else idle())
    if nt and "go" not in m:
        m.append("go")
    if nt and r.random() < 0.6:
        m.append("join")
    if r.random() < 0.4:
        m.append("quiet %d" % r.choice([o["fl"] * 1000000 + 30000, 10000000, 0]))
    if r.random() < 0.3:
        m.append(app())
    if r.random() < 0.08 and not any(x.startswith("app") for x in m[:m.index("start")]):
        o["setup"] = 1
    else:
        m.append("stop")
        o["del"] = r.randrange(2)
    return Job("log", o, [("m", m)] + thr, n, r.randrange(1 << 30))


DAY = 86400


def file_job(r, n):
    o = base(r, "file")
    o["ts"] = r.randrange(2)
    o["setup"] = 1 if r.random() < 0.2 else 0
    o["roll"] = r.choice([0, 1, 10, 100, 1000, 1000, 70000, 1 << 30])
    o["iv"] = r.choice([DAY, DAY, DAY, 1, 2, 60, 3600])
    o["fl"] = r.choice([0, 1, 3, 3, 10])
    o["num"] = r.choice([-1, -1, 0, 1, 2, 2, 3, 3, 5])
    if r.random() < 0.4:  # close to midnight or another boundary
        d = 1700000000 // DAY * DAY + DAY * r.randrange(3)
        o["basesec"] = d - r.choice([1, 2, 3, 5, 0])
        if r.random() < 0.5:
            o["baseusec"] = r.choice([0, 999990, 500000])
    if r.random() < 0.2:
        o["slow"] = r.choice([1, 1000, 1100000])
    sizes = [1, 2, 5, 9, 10, 11, 50, 99, 100, 101, 500, 1000, 1001]
    if r.random() < 0.3:
        sizes += [4096, 65535, 65536, 65537, 70000, 200000]
    one = not o["ts"] or r.random() < 0.5
    o["one"] = int(one)
    steps = [1, 500000, 999999, 1000000, 1000001, 2000000, 3000000, 4000000, o["fl"] * 1000000, (o["fl"] + 1) * 1000000]
    if o["iv"] <= 60:
        steps += [o["iv"] * 1000000, o["iv"] * 500000]
    if r.random() < 0.2:
        steps += [DAY * 1000000, DAY * 500000, (DAY - 1) * 1000000]
    def some(k, q):
        ops = []
        for _ in range(k):
            x = r.random()
            if x < 0.62:
                ops.append("app %d" % r.choice(sizes))
            elif x < 0.9:
                ops.append("%s %d" % (r.choice(["sleep", "sleep", "adv"]), r.choice(steps)))
            elif x < 0.96 or not q:
                ops.append("flush")
            else:
                ops.append("quiet %d" % r.choice([0, 1000]))
        return ops
    thr = []
    m = []
    if one:
        m = some(r.choice([2, 6, 12, 25, 40]), True)
    else:
        for t in range(r.choice([2, 3, 4])):
            thr.append(("t%d" % (t + 1), some(r.choice([2, 4, 8]), False)))
        m = some(r.randrange(3), False) + ["go"] + some(r.randrange(4), False) + ["join"] + some(r.randrange(3), False)
        if r.random() < 0.5:
            m.append("quiet 0")
    return Job("log", o, [("m", m)] + thr, n if not one else max(1, n // 2), r.randrange(1 << 30))


def logger_job(r, n):
    o = {"k": "logger"}
    def pieces():
        x = r.random()
        if x < 0.5:
            return [r.choice([0, 1, 3, 10, 40, -3, -4, -5, -6, -7, -8, -9, -10, -11]) for _ in range(r.randrange(5))]
        if x < 0.75:  # around the limit
            tot = r.choice([3850, 3900, 3950, 3980, 4000, 4020, 4040, 4060, 4080, 4096, 4100, 4200, r.randrange(3800, 4200)])
            out, left = [], tot
            while left > 0:
                k = min(left, r.choice([1, 5, 100, 1000, 2000, 4096, tot]))
                out.append(k)
                left -= k
            r.shuffle(out)
            out = out[:60]
            if r.random() < 0.5:
                out += [r.choice([1, 5, -3, -4, -5, -10, -10, -7, -8]) for _ in range(r.randrange(1, 6))]
            return out
        if x < 0.9:
            return [r.choice([10, 500, 1500, 5000, 9000, -3, -8]) for _ in range(r.randint(1, 6))]
        return [1] * r.choice([30, 100]) + [r.choice([4000, 3900, 3990])] + [1] * r.choice([30, 100, 60])
    def log(levels=(0, 1, 2, 3, 4, 5)):
        lib = int(r.random() < 0.3)
        n_ = r.choice(levels)
        if n_ >= 6:
            lib = 0
        return "log %d %d %d %d %s" % (n_, lib, r.choice([0, 0, 2, 11, 9999, 104]), r.randrange(1 << 20), " ".join(map(str, pieces())))
    m, thr = [], []
    def setting():
        return r.choice(["lev %d" % r.choice([0, 1, 2, 3, 4, 5, 6, 9]), "all %d" % r.randrange(2), "all 1", "lib %d" % r.randrange(2), "color %d" % r.randrange(2),
                         r.choice(["wall %d" % r.choice([-1, -1000, -3600000, -86400000, 1000, 7200000]), "sleep 1000000", "adv 1", "sleep %d" % r.randrange(1, 3000000), "adv 999999"])])
    for _ in range(r.choice([1, 3, 8, 15])):
        m.append(setting() if r.random() < 0.4 else log())
    if r.random() < 0.4:
        for t in range(r.choice([2, 3])):
            thr.append((r.choice("tn") + str(t), [log() for _ in range(r.randint(1, 4))]))
        if r.random() < 0.3:
            thr[0][1].append(log((6, 7)))
        m.insert(r.randrange(len(m) + 1), "par")
    if r.random() < 0.3:
        m.append(log((6, 7)))
    return Job("log", o, [("m", m)] + thr, n if thr else 1, r.randrange(1 << 30))


def src(fn, quick, thorough):
    def f(rng, tier):
        k, n = quick if tier == "quick" else thorough
        return [("h_log", [fn(rng, n) for _ in range(k)])]
    return f


def aborted(ev, opts):
    return [{"e": "Abort"} if e["e"] == "Bad" and e.get("w") == "Abort" else e for e in ev]


VA = View("AsyncLogTrace", ["New", "Start", "AppB", "AppE", "Notice", "W", "StopB", "StopE", "Quiet"])
VF = View("LogFileTrace", ["New", "Made", "Open", "AppB", "AppE", "W", "Close", "FlushE", "Rm", "Quiet", "DelB", "DelE"])
VG = View("LoggerTrace", ["SetLev", "SetAll", "SetLib", "Begin", "Eval", "Out", "Flush", "End"], xform=aborted)
PROPS = {
    "P17": lambda: Prop("P17", [VA], [src(async_job, (120, 8), (1500, 16))], M("AsyncLogImpl", ["AsyncLogA"], ["AsyncLogB", "AsyncLogLive"]), assumptions=A),
    "P18": lambda: Prop("P18", [VF], [src(file_job, (400, 8), (6000, 20))], M("LogFileImpl", ["LogFileA"], ["LogFileB", "LogFileC", "LogFileD", "LogFileLive"]), assumptions=A),
    "P19": lambda: Prop("P19", [VG], [src(logger_job, (500, 5), (6000, 12))], [], assumptions=A),
}
