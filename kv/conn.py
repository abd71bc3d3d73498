"""Script families for one connection (harness h_conn), P01-P05."""
from .core import Prop, View
from .run import Job
from . import tlc

WIRE = "SendCall SendRet ShutCall ShutRet CloseCall PeerFin PeerRst Down Teardown WErr W Fin Quiet Up".split()
READ = "Arr PeerFin PeerRst CloseCall Teardown Up Down DisR DisRet EnR EnRet Msg Quiet".split()
LIFE = "Up DisR EnR Msg PeerFin PeerRst CloseCall Teardown WErr Down Drop FdClose BadFd Quiet Exit".split()
NOTE = "SendCall SendRet ShutCall CloseCall PeerFin PeerRst Down Teardown W WErr WC HW Quiet".split()

FORMS = ["raw", "sv", "buf", "cl"]
LENS = [1, 2, 3, 5, 8, 13, 40]
BIG = [1023, 1024, 1025, 4095, 4096, 4097, 8192, 12289, 20000]


def ln(r, big=0.15, zero=0.04):
    x = r.random()
    if x < zero:
        return 0
    return r.choice(BIG) if x < zero + big else r.choice(LENS)


def snd(r, **k):
    return "send %s %d" % (r.choice(FORMS), ln(r, **k))


def common(r):
    o = {}
    if r.random() < 0.3:
        o["et"] = 1
    elif r.random() < 0.25:
        o["poller"] = 1
    if r.random() < 0.5:
        o["reuse"] = "r"
    if r.random() < 0.3:
        o["v6"] = 1
    return o


def window(r, o, env):
    """limited send space, opened step by step"""
    x = r.random()
    if x < 0.3:
        return
    o["win"] = r.choice([0, 0, 1, 2, 3, 5, 10, 20, 60, 1024, 4096, 5000])
    for _ in range(r.randrange(4)):
        env.append("grant %d" % r.choice([1, 1, 2, 3, 4, 7, 16, 100, 4096]))
        if r.random() < 0.3:
            env.append(r.choice(["point", "settle", "settle"]))
    if r.random() < 0.3:
        env.append("open")


def actors(r, k, ops):
    """distributes ops over threads and loop tasks; some go into callbacks"""
    th = []
    names = ["t1", "t2", "t3", "loop"]
    r.shuffle(names)
    for nm in names[:k]:
        th.append((nm, ops()))
    return th


def callbacks(r, o, gen, p=0.5, names=("onup", "onmsg1", "onmsg2", "onwc1", "onwc2", "onhw1", "onhw2")):
    th = []
    if r.random() < p:
        for nm in r.sample(list(names), r.randrange(1, 3)):
            if nm.startswith("onwc"):
                o["wc"] = 1
            if nm.startswith("onhw"):
                o.setdefault("mark", r.choice([1, 2, 3, 8, 20, 1024]))
            th.append((nm, gen()))
    return th


def fin_env(th, env):
    if env:
        th.append(("env", env))
    return th


def send_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o, env = common(r), []
        window(r, o, env)
        th = actors(r, r.randrange(1, 4), lambda: [snd(r) for _ in range(r.randrange(1, 4))])
        th += callbacks(r, o, lambda: [snd(r) for _ in range(r.randrange(1, 3))])
        if any(t[0].startswith("onmsg") for t in th):
            env.append("psend %d" % r.choice([1, 4, 30]))
            env.append("psend 2")
        js.append(Job("send", o, fin_env(th, env), seeds, r.randrange(1 << 30)))
    return js


def shut_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o, env = common(r), []
        window(r, o, env)

        def ops():
            x = [snd(r) for _ in range(r.randrange(0, 3))]
            if r.random() < 0.6:
                x.insert(r.randrange(len(x) + 1), "shut")
            return x
        th = [t for t in actors(r, r.randrange(1, 4), ops) if t[1]]
        th += callbacks(r, o, lambda: [r.choice(["shut", snd(r), "shut"]) for _ in range(r.randrange(1, 3))], 0.4)
        if any(t[0].startswith("onmsg") for t in th):
            env.append("psend 3")
        if not any("shut" in t[1] for t in th):
            th.append(("t9", [snd(r), "shut"]))
        js.append(Job("shut", o, fin_env(th, env), seeds, r.randrange(1 << 30)))
    return js


def end_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o, env = common(r), []
        window(r, o, env)
        kinds = ["close", "shut", "drop", "disr", "enr"]

        def ops():
            x = [snd(r, big=0.05) for _ in range(r.randrange(0, 3))]
            for _ in range(r.randrange(0, 2)):
                x.insert(r.randrange(len(x) + 1), r.choice(kinds))
            if r.random() < 0.4:
                x.insert(r.randrange(len(x) + 1), "close")
            return x
        th = [t for t in actors(r, r.randrange(0, 4), ops) if t[1]]
        # only one thread may drop the reference
        seen = False
        for i, (nm, x) in enumerate(th):
            y = []
            for q in x:
                if q in ("drop", "disr", "enr"):  # loop-thread operations
                    if nm != "loop" or (q == "drop" and seen):
                        continue
                    seen |= q == "drop"
                y.append(q)
            th[i] = (nm, y)
        th = [t for t in th if t[1]]
        th += callbacks(r, o, lambda: [r.choice(["close", "shut", "close", snd(r, big=0)]) for _ in range(r.randrange(1, 3))], 0.5,
                        ("onup", "onmsg1", "onmsg2", "onwc1", "onhw1", "ondown"))
        if r.random() < 0.5:
            env.append("psend %d" % r.choice([1, 5, 64]))
        if r.random() < 0.7:
            env.insert(r.randrange(len(env) + 1), r.choice(["pfin", "prst"]))
        if r.random() < 0.15:
            env.append("prst")
        if r.random() < 0.15:
            o["finish"] = 0
        if r.random() < 0.15:
            o["endclose"] = 0
        if r.random() < 0.1:
            o["msgcb"] = 0
        js.append(Job("end", o, fin_env(th, env), seeds, r.randrange(1 << 30)))
    return js


def recv_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o, env = common(r), []
        o["consume"] = r.choice(["all", "all", "none", "half", "one", "alt"])
        for _ in range(r.randrange(1, 6)):
            env.append("psend %d" % r.choice([1, 2, 3, 10, 100, 1016, 1017, 1024, 4096, 65536, 70000]))
            if r.random() < 0.4:
                env.append(r.choice(["point", "settle"]))
        if r.random() < 0.6:
            env.append(r.choice(["pfin", "pfin", "prst"]))
        th, cbs = [], ("onup", "onmsg1", "onmsg2")
        if r.random() < 0.3:
            # half-closed from this side first, so that the end of stream arrives as a hang-up, with or without
            # data in front of it
            th.append(("onup", ["shut"]))
            cbs = cbs[1:]
            env = ["settle"] + [e for e in env if e not in ("pfin", "prst")] + (["settle"] if r.random() < 0.5 else []) + ["psend %d" % r.choice([1, 10, 1024, 70000]), "pfin"]
        if r.random() < 0.5:
            th.append(("loop", [r.choice(["disr", "enr", "point", snd(r, big=0)]) for _ in range(r.randrange(1, 5))]))
        th += callbacks(r, o, lambda: [r.choice(["disr", "enr", snd(r, big=0), "disr"]) for _ in range(r.randrange(1, 3))], 0.4, cbs)
        js.append(Job("recv", o, fin_env(th, env), seeds, r.randrange(1 << 30)))
    return js


def notify_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o, env = common(r), []
        window(r, o, env)
        if "win" not in o:
            o["win"] = r.choice([0, 1, 3, 6])
        if r.random() < 0.8:
            o["wc"] = 1
        if r.random() < 0.8:
            o["mark"] = r.choice([1, 2, 3, 5, 8, 16, 20, 40, 1024])
        th = actors(r, r.randrange(1, 4), lambda: [snd(r, big=0.05) for _ in range(r.randrange(1, 4))])
        th += callbacks(r, o, lambda: [snd(r, big=0.05) for _ in range(r.randrange(1, 3))], 0.4, ("onwc1", "onwc2", "onhw1", "onup"))
        js.append(Job("notify", o, fin_env(th, env), seeds, r.randrange(1 << 30)))
    return js


def huge_scripts(r, n, seeds):
    """more pieces than one gathering write may carry"""
    js = []
    for _ in range(n):
        o = {"win": r.choice([0, 100])}
        if r.random() < 0.3:
            o["et"] = 1
        k = r.choice([1, 2])
        th = [("loop", ["send %s %d" % (r.choice(FORMS), 4096 * r.choice([1030, 1400]) // k) for _ in range(k)]), ("env", ["settle", "open"])]
        js.append(Job("huge", o, th, seeds, r.randrange(1 << 30)))
    return js


def model_scripts(r, cfg, n, seeds):
    """behaviours of spec/Conn.tla, replayed in the order TLC found them"""
    js = []
    fam = cfg[len("ConnGen"):].lower()
    win = {"send": 2, "shut": 2, "end": 3, "recv": None, "note": 2}[fam]
    for h in tlc.simulate("ConnGen", cfg + ".cfg", n, 150, r.randrange(1, 1 << 30)):
        o = common(r)
        sc = r.choice([1, 1, 5, 1000, 1500])
        if win is not None:
            o["win"] = win * sc
        if fam == "note":
            o["mark"] = r.choice([1, 2, 3, 4]) * sc + r.choice([-1, 0, 0, 1])
            o["mark"] = max(1, o["mark"])
            o["wc"] = r.randrange(2)
        if fam == "recv":
            o["consume"] = r.choice(["all", "none", "half", "one"])
        extra = r.random() < 0.5
        th = {}
        for k, (t, op, ln_, idle) in enumerate(h):
            nm = "env" if t < 0 else "loop" if t == 0 else "t%d" % t
            q = th.setdefault(nm, [])
            q.append("turn %d" % k)
            if idle or (extra and r.random() < 0.3):
                q.append("settle")
            q.append("send %s %d" % (r.choice(FORMS), ln_ * sc) if op == "send" else
                     "psend %d" % (sc * r.choice([1, 3, 50])) if op == "psend" else "grant %d" % sc if op == "grant" else op)
        js.append(Job("model-" + fam, o, list(th.items()), seeds, r.randrange(1 << 30)))
    return js


FAM = {"send": send_scripts, "shut": shut_scripts, "end": end_scripts, "recv": recv_scripts, "notify": notify_scripts, "huge": huge_scripts}


def src(quick, thorough):
    def f(rng, tier):
        q = quick if tier == "quick" else thorough
        jobs = []
        for fam, (n, seeds) in q.items():
            jobs += model_scripts(rng, fam, n, seeds) if fam.startswith("ConnGen") else FAM[fam](rng, n, seeds)
        return [("h_conn", jobs)]
    return f


def V(mod):
    return {"w": View("ConnWireTrace", WIRE), "r": View("ConnReadTrace", READ, (), lambda o: str(o.get("msgcb", 1)) != "0"),
            "l": View("ConnLifeTrace", LIFE), "n": View("ConnNotifyTrace", NOTE, ("mark", "wc"))}[mod]


def M(*cfgs):
    return [("Conn", c + ".cfg") for c in cfgs]


A = ["the simulated kernel (harness/vrt.cc) stands for Linux sockets, epoll, poll, eventfd and timerfd",
     "memory accesses interleave sequentially consistently"]
PROPS = {
    "P01": lambda: Prop("P01", [V("w")], [src(
        {"ConnGenSend": (200, 8), "send": (300, 16), "notify": (60, 8), "end": (60, 8), "huge": (2, 1)},
        {"ConnGenSend": (3000, 20), "send": (5000, 40), "notify": (1000, 30), "end": (1000, 30), "shut": (1000, 20), "huge": (16, 3)})],
        M("ConnSend", "ConnShut"), assumptions=A),
    "P02": lambda: Prop("P02", [V("r")], [src(
        {"ConnGenRecv": (200, 8), "recv": (500, 16), "end": (100, 12)},
        {"ConnGenRecv": (3000, 20), "recv": (6000, 40), "end": (2000, 30)})], M("ConnRecv"), assumptions=A),
    "P03": lambda: Prop("P03", [V("w")], [src(
        {"ConnGenShut": (250, 8), "shut": (400, 16), "end": (60, 8)},
        {"ConnGenShut": (4000, 20), "shut": (6000, 40), "end": (1200, 30)})], M("ConnShut", "ConnEnd"), assumptions=A),
    "P04": lambda: Prop("P04", [V("l")], [src(
        {"ConnGenEnd": (250, 10), "end": (700, 20), "shut": (60, 6), "recv": (60, 6)},
        {"ConnGenEnd": (4000, 20), "end": (7000, 40), "shut": (1000, 20), "recv": (1000, 20)})], M("ConnEnd", "ConnRecv"), assumptions=A),
    "P05": lambda: Prop("P05", [V("n")], [src(
        {"ConnGenNote": (250, 8), "notify": (350, 12), "send": (50, 6)},
        {"ConnGenNote": (4000, 20), "notify": (6000, 40), "send": (1000, 20), "shut": (1000, 20)})], M("ConnNote", "ConnSend"), assumptions=A),
}
