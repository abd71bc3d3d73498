"""Script families for connectors and clients (harness h_client): P12, P13."""
from .core import Prop, View
from .run import Job
from . import tlc
from .loop import A, M, common

DIAL = "StartCall StartRet StopCall StopRet RestCall RestRet Eff Sock Try Close New Quiet Exit BadFd".split()
CLI = ("ConnectCall ConnectRet DiscCall DiscRet StopCall StopRet EnRCall EnRRet DelCall DelRet Eff Sock Try Close Up UpEnd Down DownEnd "
       "Fin Peer Hold Unhold FClose GetCall GetRet Quiet Exit BadFd").split()
OK, REFUSED, LATER = ["0,0,0,0", "115,0,0,0", "115,100,0,0", "115,3000,0,0", "4,50,0,0", "115,700000,0,0"], \
    ["111,0,0,0", "110,0,0,0", "11,0,0,0", "99,0,0,0", "101,0,0,0", "113,0,0,0"], \
    ["115,100,111,0", "115,0,111,0", "115,900000,110,0", "115,50,0,1", "0,0,0,1", "115,100,113,0", "4,20,111,0", "115,10,13,0"]
FATAL = ["13,0,0,0", "1,0,0,0", "97,0,0,0"]


def outcomes(r, long=False):
    k = r.choice([0, 1, 1, 2, 3, 4]) if not long else r.choice([9, 26, 40])
    p = r.random()
    x = [r.choice(REFUSED if r.random() < p else LATER) for _ in range(k)]
    y = r.random()
    d = r.choice(OK) if y < 0.75 else r.choice(LATER + REFUSED) if y < 0.9 else "115,80000000,0,0"
    if r.random() < 0.12 and not long:
        x.append(r.choice(FATAL))
    return ({"out": "/".join(x)} if x else {}) | {"def": d}


WAITS = [0, 10, 60, 150, 1000, 400000, 499000, 501000, 600000, 1200000, 2600000, 20000000]


def dial_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o = common(r)
        o.pop("late", 0)
        long = r.random() < 0.06
        o.update(outcomes(r, long))
        if r.random() < 0.3:
            o["v6"] = 1
        o["kind"] = "con"

        def act():
            x = r.random()
            return "start" if x < 0.35 else "stop" if x < 0.65 else "rest"
        th = []
        for k, nm in enumerate(["t1", "t2", "t3"][: r.choice([1, 1, 2, 2, 3])]):
            x = []
            for i in range(r.randrange(1, 5)):
                x.append(("start" if r.random() < 0.7 else "rest") if i == 0 and k == 0 else act())
                y = r.random()
                if y < 0.15:
                    x[-1] = "task k"
                elif y < 0.25:
                    x[-1] = "later %d k" % r.choice([1, 100, 50000, 500000, 1500000])
                y = r.random()
                if y < 0.45:
                    x.append("wait %d" % r.choice(WAITS))
                elif y < 0.55:
                    x.append("settle")
            if k == 0 and r.random() < 0.4:
                x.append("wait 7000000")
            th.append((nm, x))
        th.append(("k", [act() for _ in range(r.randrange(1, 4))]))
        for c in "12":
            if r.random() < 0.5:
                th.append(("onnew" + c, [r.choice(["rest", "stop", "start", "rest"]) for _ in range(r.randrange(1, 3))]))
        o["tail"] = 1200000000 if long else r.choice([1000, 70000000])
        js.append(Job("dial" if not long else "dial-long", o, th, seeds if not long else 2, r.randrange(1 << 30)))
    return js


def client_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o = common(r)
        o.pop("late", 0)
        o.update(outcomes(r))
        if r.random() < 0.3:
            o["v6"] = 1
        if r.random() < 0.6:
            o["def"] = r.choice(["0,0,0,0", "115,0,0,0", "115,100,0,0"])
        o["kind"] = "cli"
        o["compact"] = r.choice([0, 1])
        retry = r.random() < 0.6

        def act(inside=False):
            x = r.random()
            if x < 0.12:
                return "disc"
            if x < 0.22:
                return "stop"
            if x < 0.30:
                return "connect"
            if x < 0.40:
                return "enretry"
            if x < 0.50:
                return "get"
            if x < 0.56:
                return "del"
            if x < 0.60:
                return "fclose"
            if x < 0.64:
                return "hold"
            if x < 0.68:
                return "unhold"
            if x < 0.74:
                return "send"
            if x < 0.78:
                return "point"
            if inside:
                return r.choice(["disc", "get", "send", "enretry"])
            return r.choice(["pfin", "prst", "psend", "pfin", "pfin"])
        th = []
        for k, nm in enumerate(["t1", "t2", "t3"][: r.choice([1, 1, 2, 2, 3])]):
            x = []
            if k == 0:
                x += (["enretry"] if retry else []) + ["connect"]
                if r.random() < 0.7:
                    x.append(r.choice(["settle", "wait 60", "wait 1000", "wait 600000"]))
            for i in range(r.randrange(1, 6)):
                a = act()
                y = r.random()
                if y < 0.12:
                    a = "task k"
                elif y < 0.18:
                    a = "later %d k" % r.choice([1, 100, 500000])
                x.append(a)
                y = r.random()
                if y < 0.35:
                    x.append("wait %d" % r.choice([0, 10, 60, 150, 1000, 499000, 501000, 1600000]))
                elif y < 0.45:
                    x.append("settle")
            th.append((nm, x))
        th.append(("k", [act(True) for _ in range(r.randrange(1, 3))]))
        for c, p in (("onup1", 0.35), ("onup2", 0.3), ("ondown1", 0.35), ("ondown2", 0.2), ("onmsg1", 0.5)):
            if r.random() < p:
                th.append((c, [act(True) for _ in range(r.randrange(1, 3))]))
        o["tail"] = r.choice([1000, 40000000])
        js.append(Job("client", o, th, seeds, r.randrange(1 << 30)))
    return js


FAM = {"dial": dial_scripts, "client": client_scripts}


def src(quick, thorough):
    def f(rng, tier):
        jobs = []
        for fam, (n, seeds) in (quick if tier == "quick" else thorough).items():
            jobs += FAM[fam](rng, n, seeds)
        return [("h_client", jobs)]
    return f


VC = View("ClientTrace", CLI, when=lambda o: o.get("kind") == "cli")
VD = View("DialTrace", DIAL, when=lambda o: o.get("kind") == "con")
PROPS = {
    "P12": lambda: Prop("P12", [VD], [src({"dial": (500, 12)}, {"dial": (8000, 30)})], M("DialImpl", ["DialA", "DialB"], ["DialC", "DialD", "DialE"]), assumptions=A),
    "P13": lambda: Prop("P13", [VC], [src({"client": (600, 12)}, {"client": (10000, 30)})], M("ClientImpl", ["ClientA", "ClientB"], ["ClientC", "ClientD", "ClientE"]), assumptions=A),
}
