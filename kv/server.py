"""Script family for servers (harness h_server): P11."""
from .core import Prop, View
from .run import Job
from .loop import A, M, common

EV = "Arrive Acc Up Down Close Cause Hold Unhold DelCall DelRet Quiet Exit BadFd".split()


def server_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o = common(r)
        o.pop("late", 0)
        if r.random() < 0.3:
            o["v6"] = 1
        o["loops"] = r.choice([0, 0, 1, 2, 2, 3])
        if o["loops"] and r.random() < 0.25:
            o["iet"] = 1
        if r.random() < 0.3:
            o["pool"] = 1
            if r.random() < 0.5:
                o["chunks"] = r.choice([1, 2])
        o["end"] = r.choice([0, 1])
        if r.random() < 0.15:
            o["start"] = 0
        errs = r.random() < 0.3
        room = o.get("start", 1) and r.random() < 0.25
        hold = not o.get("pool") and r.random() < 0.3

        def inside():
            x = r.random()
            if hold and x < 0.2:
                return "hold"
            return r.choice(["send", "fclose", "shut", "point", "apply send", "fclose"])

        def act():
            x = r.random()
            if x < 0.32:
                return "conn"
            if x < 0.44:
                return "pfin %d" % r.randrange(3)
            if x < 0.52:
                return "prst %d" % r.randrange(3)
            if x < 0.60:
                return "psend %d" % r.randrange(3)
            if x < 0.66:
                return "apply %s" % r.choice(["send", "fclose", "shut"])
            if x < 0.70:
                return "task k"
            if x < 0.74:
                return "start"
            if errs and x < 0.84:
                return "err %d" % r.choice([4, 103, 71, 101] + ([] if o.get("et") else [23, 105, 12]))
            if room and x < 0.92:
                return "room %d" % r.choice([0, 1, 2, -1])
            if hold and x < 0.95:
                return "unhold"
            return r.choice(["settle", "wait 10", "point", "conn"])
        th = []
        dele = r.random() < 0.4
        k = r.choice([1, 1, 2, 2, 3])
        for i, nm in enumerate(["t1", "t2", "t3"][:k]):
            x = []
            if not o.get("start", 1):
                x.append("start")
                if r.random() < 0.6:
                    x.append("settle")
            x += [act() for _ in range(r.randrange(1, 8))]
            if dele and i == k - 1:
                x.insert(r.randrange(len(x) // 2, len(x) + 1), "del")
            if not o.get("start", 1) and dele:
                x.insert(1, "settle")
            th.append((nm, x))
        th.append(("k", [r.choice(["apply fclose", "apply send", "apply shut", "adv 5"]) for _ in range(r.randrange(1, 3))]))
        for nm, c, p in (("onup", 4, 0.3), ("ondown", 3, 0.2), ("onmsg", 2, 0.4)):
            for i in range(1, c + 1):
                if r.random() < p:
                    th.append((nm + str(i), [inside() for _ in range(r.randrange(1, 3))]))
        js.append(Job("server", o, th, seeds, r.randrange(1 << 30)))
    return js


def src(rng, tier):
    n, s = (500, 12) if tier == "quick" else (8000, 30)
    return [("h_server", server_scripts(rng, n, s))]


PROPS = {"P11": lambda: Prop("P11", [View("ServerTrace", EV, opts=["loops"])], [src], M("ServerImpl", ["ServerA", "ServerB", "ServerC"], ["ServerD", "ServerE"]), assumptions=A)}
