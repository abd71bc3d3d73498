"""Script family for event dispatch (harness h_poll): P08."""
from .core import Prop, View
from .run import Job
from .loop import A, M

EV = "ER EW DR DW DA RM PollB PollR Cb Quiet Exit BadFd".split()


def poll_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o = {}
        x = r.random()
        if x < 0.45:
            o["poller"] = 1
        elif x < 0.65:
            o["et"] = 1
        if r.random() < 0.5:
            o["reuse"] = "r"
        k = o["ch"] = r.choice([1, 2, 2, 3, 3, 4, 5])
        if r.random() < 0.08:
            k = o["ch"] = r.choice([18, 35, 40])
            o["all"] = 1
        if r.random() < 0.5:
            o["win"] = r.choice([0, 1, 5])

        def who():
            return r.randrange(min(k, 6))

        def inside():
            w = "me" if r.random() < 0.35 else who()
            x = r.random()
            if x < 0.5:
                return "%s %s" % (r.choice(["er", "ew", "dr", "dw"]), w)
            if x < 0.68:
                return "%s %s" % (r.choice(["da", "rm", "rm", "re"]), w)
            if x < 0.78:
                return "drain %s" % w
            if x < 0.84:
                return "%s %s" % (r.choice(["fill", "sh"]), w)
            if x < 0.88:
                return "q k"
            return peer()

        def peer():
            return "%s %d" % (r.choice(["ps", "ps", "pf", "pr", "gr"]), who())

        def recycle():
            w = r.choice(["me", who()])
            return (["da %s" % w] if r.random() < 0.5 else []) + ["rm %s" % w] + (["ew %s" % w] if r.random() < 0.3 else []) + ["re %s" % w] + (["%s %s" % (r.choice(["er", "ew"]), w)] if r.random() < 0.8 else [])

        th = []
        init = ["%s %d" % (r.choice(["er", "er", "ew"]), who()) for _ in range(r.randrange(0, k + 3))]
        if r.random() < 0.4:
            init += [inside() for _ in range(r.randrange(1, 5))]
        if r.random() < 0.6:
            init += [peer() for _ in range(r.randrange(1, 4))]
        if init:
            th.append(("init", init))
        for i in range(1, r.choice([3, 6, 12])):
            if r.random() < 0.6:
                b = [inside() for _ in range(r.randrange(0, 4))]
                if r.random() < 0.2:
                    b += recycle()
                th.append(("cb%d" % i, b or ["point"]))
        for nm in ["k", "k2"]:
            b = [inside() for _ in range(r.randrange(1, 6))]
            if r.random() < 0.4:
                b += recycle() if r.random() < 0.5 else []
            th.append((nm, b))
        for nm in ["t1", "t2"][: r.choice([1, 1, 2])]:
            x = []
            for _ in range(r.randrange(2, 10)):
                x.append(r.choice([peer, peer, lambda: "q k", lambda: "q k2", lambda: "settle", lambda: "point"])())
            th.append((nm, x))
        js.append(Job("poll", o, th, seeds, r.randrange(1 << 30)))
    return js


def src(rng, tier):
    n, s = (800, 5) if tier == "quick" else (15000, 12)
    return [("h_poll", poll_scripts(rng, n, s))]


PROPS = {"P08": lambda: Prop("P08", [View("DispatchTrace", EV)], [src], M("PollImpl", ["PollA", "PollB"], ["PollC", "PollD"]), assumptions=A)}
