"""Script families for event loops (harness h_loop): P06, P07, P09, P10, P14."""
from .core import Prop, View
from .run import Job
from . import tlc

TASK = "QCall QRet RCall RRet Exec ExecEnd PollB StartCall QuitCall StartRet Quiet Exit".split()
QUIT = "QCall QRet RCall RRet Exec StartCall QuitCall StartRet Quiet Exit".split()
TIME = "TCall TRet Fire PollB PollR CanCall CanRet CanEff StartCall StartRet QuitCall Quiet Exit".split()
REL = "QCall RCall TCall Exec ExecEnd Fire FireEnd CanCall CanRet CanEff Rel Quiet DtorCall Exit Start PushB RunB RunE Q DelB DelE".split()
THR = "StartCall Init StartRet Next QCall Exec QuitCall Quiet DelCall DelRet Exit".split()


def common(r):
    o = {}
    x = r.random()
    if x < 0.25:
        o["poller"] = 1
    elif x < 0.45:
        o["et"] = 1
    if r.random() < 0.3:
        o["late"] = r.choice([1, 5, 30])
    if r.random() < 0.5:
        o["reuse"] = "r"
    return o


def bodies(r, names, gen, p):
    return [(b, gen()) for b in names if r.random() < p]


def task_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o = common(r)
        bn = ["b1", "b2", "b3"]

        def act(quit=0.0, timers=0.1):
            x = r.random()
            b = r.choice(bn + ["-", "-"])
            if x < quit:
                return "quit"
            if x < 0.1:
                return "io"
            if x < 0.1 + timers:
                return "tset %d %d 0 %s" % (r.randrange(1, 4), r.choice([0, 50, 1000, 100000000]), r.choice(bn + ["-"]))
            if x < 0.3:
                return "r " + b
            if x < 0.35:
                return "adv %d" % r.choice([1, 200])
            return "q " + b
        th = []
        if r.random() < 0.5:
            th.append(("init", [act() for _ in range(r.randrange(1, 4))]))
        for nm in ["t1", "t2", "t3"][: r.randrange(0 if th else 1, 4)]:
            x = [act() for _ in range(r.randrange(1, 5))]
            if r.random() < 0.3:
                x.insert(r.randrange(len(x) + 1), "settle")
            th.append((nm, x))
        th += bodies(r, bn, lambda: [act() for _ in range(r.randrange(1, 3))], 0.6)
        if r.random() < 0.4:
            th.append(("onio", [act() for _ in range(r.randrange(1, 3))]))
        js.append(Job("task", o, th, seeds, r.randrange(1 << 30)))
    return js


def quit_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o = common(r)
        bn = ["b1", "b2", "b3", "b4"]

        def act():
            x = r.random()
            if x < 0.2:
                return "quit"
            if x < 0.3:
                return "io"
            if x < 0.4:
                return "tset %d %d %d %s" % (r.randrange(1, 4), r.choice([0, 100, 1000]), r.choice([0, 0, 500]), r.choice(bn + ["-"]))
            if x < 0.5:
                return "r " + r.choice(bn + ["-"])
            if x < 0.55:
                return "adv 100"
            return "q " + r.choice(bn + ["-"])
        th = []
        if r.random() < 0.4:
            th.append(("init", [act() for _ in range(r.randrange(1, 4))]))
        for nm in ["t1", "t2", "t3"][: r.randrange(1, 4)]:
            x = [act() for _ in range(r.randrange(1, 4))]
            if r.random() < 0.25:
                x.insert(r.randrange(len(x) + 1), "settle")
            if r.random() < 0.3:
                x.append("quit")
            th.append((nm, x))
        th += bodies(r, bn, lambda: [act() for _ in range(r.randrange(1, 3))], 0.6)
        if r.random() < 0.5:
            th.append(("onio", [act() for _ in range(r.randrange(1, 3))]))
        js.append(Job("quit", o, th, seeds, r.randrange(1 << 30)))
    return js


DEL = [-5000, 0, 0, 1, 99, 100, 101, 500, 1000, 1000, 1500, 2000, 5000]
FAR = [2148000000, 2200000000, 3000000000, 4294967800, 86400000000, -3000000000]


def timer_scripts(r, n, seeds, cancel=0.25, fam="timer"):
    js = []
    for _ in range(n):
        o = common(r)
        bn = ["b1", "b2", "b3"]
        nl = r.choice([2, 3, 4])
        mx = r.choice([1, 2])

        def act(inside):
            x = r.random()
            lb = r.randrange(1, nl + 1)
            if x < cancel:
                return "tself" if inside and r.random() < 0.35 else "tcan %d" % lb
            if x < cancel + 0.1:
                return "adv %d" % r.choice([1, 150, 1200, 3000])
            if x < cancel + 0.15:
                return "q " + r.choice(bn + ["-"])
            b = r.choice(bn + ["-", "-"])
            y = r.random()
            if y < 0.04:
                return "tset %d %d %d -" % (lb, r.choice(FAR), r.choice([0, 1000]))
            if y < 0.55:
                iv = r.choice([0, 0, 0, 300, 1000, 1700])
                return "tset %d %d %d %s" % (lb, r.choice(DEL), iv, b)
            if y < 0.75:
                return "taft %d %d 0 %s" % (lb, max(0, r.choice(DEL)), b)
            if y < 0.85:
                return "tms %d %d 0 %s" % (lb, r.choice([0, 1000, 2000]), b)
            return "tev %d %d 0 %s" % (lb, r.choice([300, 1000, 2500]), b)
        th = []
        if r.random() < 0.3:
            th.append(("init", [act(False) for _ in range(r.randrange(1, 3))]))
        for nm in ["t1", "t2", "t3"][: r.randrange(1, 3)]:
            x = []
            for _ in range(r.randrange(2, 7)):
                x.append(act(False))
                if r.random() < 0.3:
                    x.append("wait %d" % r.choice([1, 100, 500, 1000, 2000, 6000]))
            x.append("wait %d" % r.choice([2000, 7000]))
            if r.random() < 0.4:
                x.append(act(False))
            th.append((nm, x))
        th += bodies(r, bn, lambda: [act(True) for _ in range(r.randrange(1, 1 + mx))], 0.7)
        if r.random() < 0.1 or (n >= 300 and len(js) == 7):
            # many timers come and go between two that stay
            k = 65535 if len(js) == 7 and n >= 300 else r.choice([254, 255, 255, 256])
            iv = r.choice([0, 1000])
            o["steps"] = 60000000
            th = [x for x in th if x[0] != "init"]
            th.insert(0, ("init", ["tset 1 %d %d -" % (r.choice([2000, 3000]), iv), "burn %d" % k, "tset 2 %d %d -" % (r.choice([2000, 3000]), iv), r.choice(["tcan 1", "tcan 2", "point"])]))
        o["tail"] = 8000
        js.append(Job(fam, o, th, seeds, r.randrange(1 << 30)))
    return js


def cancel_scripts(r, n, seeds):
    return timer_scripts(r, n, seeds, 0.5, "cancel")


def thread_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o = {"kind": "pool" if r.random() < 0.55 else "thr"}
        if r.random() < 0.5:
            o["reuse"] = "r"
        o["n"] = r.choice([0, 1, 2, 2, 3, 4]) if o["kind"] == "pool" else 1
        if r.random() < 0.3:
            o["initcb"] = 0
        th = []
        main = []
        spin = r.random() < 0.1
        if r.random() < 0.95:
            main.append("start")
            for _ in range(r.randrange(0, 8)):
                x = r.random()
                main.append("next" if x < 0.35 else "q -" if x < 0.5 else "q b" if x < 0.6 else "q bq" if x < 0.67 else
                            "quit" if x < 0.73 else "spin" if spin and x < 0.9 else "every %d" % r.choice([100, 5000]) if x < 0.8 else
                            "point" if spin or x < 0.9 else "sleep %d" % r.choice([0, 700]))
        if r.random() < 0.8:
            main.append("del")
        if not main:
            main = ["del"]
        th.append(("main", main))
        if r.random() < 0.4:
            th.append(("init", r.choice([["quit"], ["q bq"], ["busy 10", "quit"]] if not set(m.split()[0] for m in main) & {"q", "every", "spin", "quit"} else [["q -"], ["busy 100"], ["q b"], ["every 300"]])))
        th.append(("b", r.choice([["busy 2000"], ["q -"], ["q -", "busy 5"]])))
        th.append(("bq", r.choice([["quit"], ["q -", "quit"], ["quit", "q -"]])))
        js.append(Job("thread", o, th, seeds, r.randrange(1 << 30)))
    return js


def body_name(t):
    return "init" if t == -99 else "onio" if t == -98 else "k%d" % (-t - 100)


def loop_model_scripts(r, cfg, n, seeds):
    """behaviours of spec/Loop.tla, other threads in the order TLC found them"""
    js = []
    for h in tlc.simulate("LoopGen", cfg + ".cfg", n, 150, r.randrange(1, 1 << 30)):
        th, turn = {}, 0
        extra = r.random() < 0.4
        bodies = {body_name(t) for t, *_ in h if t < -1}
        for t, k, i, idle in h:
            b = "k%d" % i
            x = k if k in ("quit", "io") else "%s %s" % (k, b if b in bodies else "-")
            if t >= -1:
                q = th.setdefault("t%d" % t if t > 0 else "t9", [])
                q.append("turn %d" % turn)
                turn += 1
                if idle or (extra and r.random() < 0.3):
                    q.append("settle")
                q.append(x)
            else:
                th.setdefault(body_name(t), []).append(x)
        js.append(Job("model-" + cfg[7:].lower(), common(r), list(th.items()), seeds, r.randrange(1 << 30)))
    return js


def timer_model_scripts(r, cfg, n, seeds):
    """behaviours of spec/Timers.tla; one unit of the model's clock is a millisecond, or less"""
    js = []
    for h in tlc.simulate("TimersGen", cfg + ".cfg", n, 250, r.randrange(1, 1 << 30)):
        th, turn = {}, 0
        u = r.choice([1000, 1000, 1000, 150, 100])
        asis = r.random() < 0.6
        bodies = {-t for t, *_ in h if -1000 < t < 0}
        for t, k, i, d, iv, now, idle in h:
            b = "k%d" % i if i in bodies else "-"
            x = "adv %d" % u if k == "adv" else "tcan %d" % i
            if k == "tset":
                if iv == 0 or d != iv or asis:
                    x = "tset %d %d %d %s" % (i, d * u, iv * u, b)
                    if iv == 0 and not asis and r.random() < 0.5:
                        x = "taft %d %d 0 %s" % (i, d * u, b)
                else:
                    x = "tev %d %d 0 %s" % (i, iv * u, b)
            if t > 0 or t == -1000:
                q = th.setdefault("t%d" % t if t > 0 else "t9", [])
                q.append("turn %d" % turn)
                turn += 1
                if idle:
                    q.append("settle")
                q.append(x)
            else:
                th.setdefault("init" if t == 0 else "k%d" % -t, []).append(x)
        o = common(r)
        o["tail"] = 8 * u
        js.append(Job("model-" + cfg.lower(), o, list(th.items()), seeds, r.randrange(1 << 30)))
    return js


FAM = {"task": task_scripts, "quit": quit_scripts, "timer": timer_scripts, "cancel": cancel_scripts, "thread": thread_scripts}


def src(quick, thorough):
    def f(rng, tier):
        jobs = []
        for fam, (n, seeds) in (quick if tier == "quick" else thorough).items():
            jobs += (loop_model_scripts(rng, fam, n, seeds) if fam.startswith("LoopGen") else
                     timer_model_scripts(rng, fam, n, seeds) if fam.startswith("TimersGen") else FAM[fam](rng, n, seeds))
        return [("h_loop", jobs)]
    return f


A = ["the simulated kernel (harness/vrt.cc) stands for Linux epoll, poll, eventfd and timerfd, with a virtual clock",
     "memory accesses interleave sequentially consistently"]
VT, VQ, VM, VH = View("LoopTasksTrace", TASK), View("LoopQuitTrace", QUIT), View("LoopTimersTrace", TIME), View("LoopThreadsTrace", THR)
VR = View("ReleaseTrace", REL)


def M(mod, quick, deep=()):
    return [(mod, c + ".cfg") for c in quick] + [(mod, c + ".cfg", ("thorough",)) for c in deep]


def pool_src(rng, tier):
    from . import thr
    k, n = (150, 8) if tier == "quick" else (3000, 20)
    return [("h_thr", [thr.pool_job(rng, n) for _ in range(k)])]


PROPS = {
    "P06": lambda: Prop("P06", [VT], [src({"LoopGenTask": (200, 8), "task": (400, 16), "quit": (50, 8)}, {"LoopGenTask": (3000, 20), "task": (8000, 40), "quit": (2000, 20)})],
                        M("Loop", ["LoopTask"], ["LoopStop", "LoopDeep", "LoopLive"]), assumptions=A),
    "P07": lambda: Prop("P07", [VQ], [src({"LoopGenStop": (250, 8), "quit": (400, 20), "task": (50, 8)}, {"LoopGenStop": (3000, 20), "quit": (8000, 40), "task": (2000, 20)})],
                        M("Loop", ["LoopStop"], ["LoopTask", "LoopDeep2", "LoopLive"]), assumptions=A),
    "P09": lambda: Prop("P09", [VM], [src({"TimersGenA": (150, 6), "timer": (350, 10), "cancel": (50, 6)}, {"TimersGenA": (2500, 15), "TimersGenB": (2500, 15), "timer": (6000, 30), "cancel": (1500, 20)})],
                        M("Timers", ["TimersF"], ["TimersA", "TimersD"]), assumptions=A),
    "P10": lambda: Prop("P10", [VM], [src({"TimersGenB": (150, 6), "cancel": (350, 10), "timer": (50, 6)}, {"TimersGenA": (2500, 15), "TimersGenB": (2500, 15), "cancel": (6000, 30), "timer": (1500, 20)})],
                        M("Timers", ["TimersC"], ["TimersB", "TimersE"]), assumptions=A),
    "P28": lambda: Prop("P28", [VR], [src({"task": (200, 8), "cancel": (250, 8), "timer": (150, 6), "quit": (100, 8)}, {"LoopGenTask": (2000, 15), "TimersGenB": (2000, 15), "task": (4000, 30), "cancel": (6000, 30), "timer": (3000, 20), "quit": (3000, 20)}), pool_src],
                        M("ReleaseImpl", ["ReleaseA"], ["ReleaseB"]), assumptions=A),
    "P14": lambda: Prop("P14", [VH], [src({"thread": (500, 16)}, {"thread": (8000, 40)})],
                        M("LoopThread", ["LoopThr0", "LoopThr1", "LoopThr2", "LoopThr3", "LoopThrLive"]), assumptions=A),
}
