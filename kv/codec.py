"""Script families for length-framed messages (harness h_codec): P26."""
from .core import Prop, View
from .run import Job
from .loop import A, M, common

EV = "Conn Up Down Frame BadFrame Junk Arrive Dlv Hard Shut SendB SendE W Fin Quiet".split()
SIZES = [0, 0, 1, 2, 3, 4, 5, 8, 100, 1000, 4088, 4092, 4096, 4097, 9000]
BIG = [65535, 65536, 20000]


def codec_scripts(r, n, seeds):
    js = []
    for _ in range(n):
        o = common(r)
        o.pop("late", 0)
        o["conns"] = nc = r.choice([1, 1, 1, 2])
        mx = 65536
        if r.random() < 0.35:
            mx = r.choice([0, 1, 8, 100, 4096, 10 ** 6, 1 << 32, 1 << 40])
            o["max"] = mx
        if r.random() < 0.25:
            o["win"] = r.choice([0, 1, 3, 10, 5000])
        small = r.random() < 0.5

        def size():
            k = r.choice([0, 1, 2, 3, 4, 7, 20] if small else SIZES + (BIG if r.random() < 0.3 else []))
            return min(k, mx)

        def send():
            f = r.choice(["sv", "cl", "cl", "pre"])
            k = r.choice([0, 1, 2, 3, 5, 8, 30] if small else SIZES + (BIG if r.random() < 0.3 else []))
            return "send %s %d %d" % (f, k, r.choice([1, 7, 100, 4096]) if k < 50 else r.choice([100, 1000, 4088, 4096, 99999]))
        th = []
        for c in range(nc):
            ops, total = [], 0
            fr = []
            for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
                k = size()
                fr.append("fr %d" % k)
                total += k + 4
            x = r.random()
            if x < 0.2:
                bad = [b for b in (mx + 1, mx + 1000, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - 4, 2 ** 32 - 5) if mx < b < 2 ** 32]
                if bad:
                    fr.append("bad %d" % r.choice(bad))
                    total += 4
                    if r.random() < 0.6:
                        k = r.choice([1, 4, 10, 100])
                        fr.append("junk %d" % k)
                        total += k
                    if r.random() < 0.3:
                        fr.append("fr %d" % size())
            elif x < 0.3 and mx > 2 ** 32:
                fr.append("huge %d" % r.choice([2 ** 32 - 5, 2 ** 32 - 100, 2 ** 31, 2 ** 31 - 1]))
                fr.append("junk %d" % r.choice([1, 4, 10]))
            elif x < 0.4 and fr and mx:  # the stream ends inside a frame
                k = max(1, size())
                fr.append("fr %d" % k)
                total += r.randrange(4 + k)
                fr.append("CUT")
            cut = "CUT" in fr
            fr = [f for f in fr if f != "CUT"]
            if r.random() < 0.6:  # the whole stream, then segments
                ops += fr
                pos = 0
                while pos < total and len(ops) < 60:
                    k = r.choice([1, 1, 2, 3, 4, 5, 10, 50] if small else [1, 3, 4, 100, 4096, 9000, 70000])
                    k = min(k, total - pos)
                    ops.append("seg %d" % k)
                    pos += k
                    if r.random() < 0.25:
                        ops.append("settle" if r.random() < 0.5 else "p")
                if pos < total:
                    ops.append("seg %d" % (total - pos))
                elif not cut:
                    ops.append("rest")
            else:
                for f in fr:
                    ops.append(f)
                    if r.random() < 0.5:
                        ops.append(r.choice(["rest", "seg %d" % r.randrange(1, 9), "seg 4", "seg 5"]))
                    if r.random() < 0.2:
                        ops.append("settle")
                if not cut:
                    ops.append("rest")
            if "win" in o:
                for _ in range(r.randrange(3)):
                    ops.insert(r.randrange(len(ops) + 1), "grant %d" % r.choice([1, 3, 4, 100, 10000]))
            x = r.random()
            if x < 0.15:
                ops.append("fin")
            elif x < 0.2:
                ops.append("rst")
            if r.random() < 0.3:
                ops.insert(r.randrange(len(ops) + 1), "task k")
            th.append(("c%d" % c, ops))
            for k in range(r.choice([0, 0, 1, 2])):
                th.append(("u%d.%d" % (c, k), [send() if r.random() < 0.85 else r.choice(["p", "settle", "p"]) for _ in range(r.choice([1, 2, 4]))]))
        th.append(("k", [r.choice([send(), send(), "cast sv 5", "shut" if r.random() < 0.3 else "take read", "close" if r.random() < 0.2 else send()]) for _ in range(r.randrange(1, 3))]))
        for i in range(1, 9):
            if r.random() < 0.3:
                th.append(("onmsg%d" % i, [r.choice([send(), send(), "take read", "take all", "cast cl 20",
                                                     "shut" if r.random() < 0.2 else send()]) for _ in range(r.randrange(1, 3))]))
        js.append(Job("codec", o, th, seeds, r.randrange(1 << 30)))
    return js


def known(r):
    """what the codec is known to do wrong (known_findings.json), apart from the rest"""
    fr = lambda: ["fr %d" % r.choice([1, 3, 20]) for _ in range(r.choice([2, 3]))]
    js = [Job("closein", {}, [("c0", fr() + ["rest"]), ("onmsg1", ["close"])], 2, r.randrange(1 << 30)) for _ in range(3)]
    js += [Job("wrap", {"max": 1 << 32}, [("c0", ["fr 1", "huge %d" % r.choice([2 ** 32 - 1, 2 ** 32 - 4, 2 ** 32 - 3]), "junk 10", "rest"])], 2, r.randrange(1 << 30)) for _ in range(3)]
    return js


def src(rng, tier):
    n, s = (400, 8) if tier == "quick" else (7000, 20)
    dbg = [Job("asserted", {}, [("u0.0", ["send %s %d %d" % (rng.choice(["cl", "pre"]), rng.choice([5, 9, 30]), 100)])], 1, rng.randrange(1 << 30)) for _ in range(3)]
    return [("h_codec", codec_scripts(rng, n, s) + known(rng)), ("h_codecd", dbg)]


PROPS = {"P26": lambda: Prop("P26", [View("CodecTrace", EV)], [src], [], assumptions=A)}
