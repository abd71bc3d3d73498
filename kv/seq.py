"""Script families for the sequential structures (harness h_seq):
P15 Buffer, P16 ChunkList, P23 pools, P24 ForwardList, P25 arrays."""
from .core import Prop, View
from .run import Job
from .loop import A

BUF = "New App Pre Adv Take Peek Same Res FindL FindC Swap Copy Read Gone".split()
CHU = "New App Pre Adv Take Peek Apl Copy Mct Mas Swap Same Shr Rfc Write Gone".split()
LST = "New Ins Era Set Rsz Cpy Mas Mct Swp Spl Mrg Srt Srg Sr2 Rev Rem Unq Sbf Cmp Ext Put End Mod Gone".split()
ARR = "New Ctor Put Fill Grow Shrink Copy Same Mct Mas Swap FNew FCon FPut FEnd End Gone".split()
STR = "Set Rp Rs Sub Swap Asg Rst Q Cmp CmpC Rel Split Cpy At Ends Case Gone".split()
TXT = "Put Fmt Rst Mas Mct CastS CastI Gone".split()
OWN = "Set Cpy Mov Clr Swp Mod End Gone".split()
TIM = "Set Add Sub Plus Minus Neg Get Form Gone".split()
POO = "New Mal Free Wr Same Shrink Res Cpb End Null CNew LPut LEra LClr MPut MEra CSame CEnd Gone".split()
U = [0, 1, 2, 127, 128, 255, 256, 4660, 65535, 65536, 305419896, 2147483648, 4294967295, 4294967296, 72623859790382856, 9223372036854775808, 18446744073709551615, 13, 10, 3338]


def seqjob(r, k, ops, opts=(), n=1):
    return Job("seq", dict(opts, k=k), [("o", ops)], n, r.randrange(1 << 30))


def start(r):
    """first byte of a piece of data: line ends appear often"""
    return r.choice([r.randrange(256), 10, 13, 9, 12, 14, 11])


def buf_job(r):
    o = {"i0": r.choice([1024, 1024, 0, 1, 16, 100]), "i1": r.choice([1024, 0, 7])}
    big = r.random() < 0.25
    ops = []
    b = 0

    def size():
        x = r.random()
        if x < 0.3:
            return str(r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 100]))
        if x < 0.75:
            return r.choice("wwtrp") + r.choice(["", "+1", "-1", "+8", "-8", "+9", "-7"])
        return str(r.choice([1000, 1024, 1016, 4096, 65536, 65535, 70000] if big else [300, 600, 1024]))

    for _ in range(r.choice([6, 12, 25, 40])):
        if r.random() < 0.2:
            b = 1 - b
        x = r.random()
        c = r.choice("vcs")
        if x < 0.2:
            ops.append("app %d %s %d %s" % (b, size(), start(r), c))
        elif x < 0.27:
            ops.append("app %d 1 %d v" % (b, r.choice([10, 13])))
            if r.random() < 0.5:
                ops.append("app %d 1 10 s" % b)
        elif x < 0.35:
            ops.append("pre %d %s %d %s" % (b, r.choice(["1", "4", "8", "p", "p-1", "p-8", "0"]), start(r), c))
        elif x < 0.43:
            ops.append("%s %d %d %d" % (r.choice(["appi", "appi", "prei"]), b, r.choice([1, 2, 4, 8]), r.choice(U + [r.getrandbits(64)])))
        elif x < 0.5:
            ops.append("%s %d %d" % (r.choice(["rdi", "pki", "advi"]), b, r.choice([1, 2, 4, 8])))
        elif x < 0.62:
            ops.append("adv %d %s" % (b, r.choice(["r", "r-1", "r-8", "1", "r-3", size(), size()])))
        elif x < 0.65:
            ops.append("all %d" % b)
        elif x < 0.7:
            ops.append("ret %d %s %d" % (b, r.choice(["r", "r-1", size()]), r.randrange(4)))
        elif x < 0.76:
            ops.append("%s %d %d" % (r.choice(["lf", "crlf"]), b, r.randrange(2)))
        elif x < 0.82:
            ops.append("res %d %s" % (b, size()))
        elif x < 0.86:
            ops.append("%s %d %s %d" % (r.choice(["inp", "wr"]), b, size(), start(r)))
        elif x < 0.9:
            ops.append("shr %d %s" % (b, r.choice(["0", "0", "1", "w", "w-1", size()])))
        elif x < 0.94:
            ops.append("%s %d %d" % (r.choice(["swap", "copy", "asg"]), b, r.randrange(2)))
        else:
            n = r.choice(["w", "w+1", "w-1", "0", "1", "65536", "65535", "70000", "140000", size()]) if big or r.random() < 0.3 else size()
            ops.append("rd %d %s %d" % (b, n, start(r)))
    return seqjob(r, "buf", ops, o)


def chunk_job(r):
    ops, b = [], 0
    big = r.random() < 0.04

    def size():
        x = r.random()
        if x < 0.35:
            return str(r.choice([0, 1, 2, 3, 5, 7, 8, 9, 100]))
        if x < 0.75:
            return r.choice("wwrf") + r.choice(["", "+1", "-1", "+8", "-8", "-7"])
        return str(r.choice([4088, 4089, 4087, 4096, 4095, 4097, 8184, 8185, 12280, 20000]))

    if big:
        ops.append("app 0 %d %d v" % (r.choice([4096 * 20, 4096 * 24 + 5]), start(r)))
        for _ in range(r.choice([44, 45, 60])):
            ops += ["cln 1", "apl 1"] if False else []
        for _ in range(r.choice([45, 52])):
            ops.append("app 0 98304 %d v" % start(r))
        ops.append("wr 0 %s" % r.choice(["r", "r-1", "4194304", "4194296", "4194289", "k"]))
        ops.append("wr 0 %s" % r.choice(["r", "e"]))
    for _ in range(r.choice([6, 12, 25, 40]) if not big else 5):
        if r.random() < 0.25:
            b = 1 - b
        x = r.random()
        if x < 0.22:
            ops.append("app %d %s %d %s" % (b, size(), start(r), r.choice("vs")))
        elif x < 0.32:
            ops.append("pre %d %s %d" % (b, r.choice(["1", "4", "8", "9", "16", size()]), start(r)))
        elif x < 0.42:
            ops.append("%s %d %d %d" % (r.choice(["appi", "prei"]), b, r.choice([1, 2, 4, 8]), r.choice(U + [r.getrandbits(64)])))
        elif x < 0.49:
            ops.append("%s %d %d" % (r.choice(["rdi", "pki"]), b, r.choice([1, 2, 4, 8])))
        elif x < 0.62:
            ops.append("adv %d %s" % (b, r.choice(["r", "r-1", "f", "f-1", "f+1", "f-3", "1", size()])))
        elif x < 0.64:
            ops.append("all %d" % b)
        elif x < 0.7:
            ops.append("apl %d" % b)
        elif x < 0.78:
            ops.append("%s %d %d" % (r.choice(["cas", "cln", "mas", "mct", "swap", "self"]), b, r.randrange(2)))
        elif x < 0.84:
            ops.append(r.choice(["shr %d %d 1", "shr %d %d 0", "rfc %d %d"]) % (b, r.choice([0, 1, 2, 5])))
        elif x < 0.87:
            ops.append("rws %d %s" % (b, size()))
        elif x < 0.885:
            ops.append("rst %d" % b)
        else:
            ops.append("wr %d %s %d" % (b, r.choice(["r", "r", "r-1", "f", "f-1", "f+1", "e", "k", size()]), 0 if r.random() < 0.15 else 1))
    return seqjob(r, "chunk", ops)


def list_job(r):
    ops = []
    K = r.choice([2, 4, 9])
    small = r.random() < 0.5
    tag = [0]

    def v():
        tag[0] += 1
        return r.randrange(K) * 10 + tag[0] % 10

    def p():
        return r.choice([0, 0, 1, 2, 3, r.randrange(1000)])

    def l():
        return r.randrange(3)

    def vs(m):
        return " ".join(str(v()) for _ in range(r.randrange(m)))

    if not small:
        ops.append("iar %d 0 %s" % (l(), vs(r.choice([6, 20, 70]))))
    if r.random() < 0.3:
        ops.append("iar %d 0 %s" % (l(), vs(6)))
    for _ in range(r.choice([5, 12, 30])):
        x = r.random()
        if x < 0.22:
            ops.append(r.choice(["pf %d %d %d" % (l(), v(), r.randrange(4)), "pb %d %d %d" % (l(), v(), r.randrange(4)), "ia %d %d %d %d" % (l(), p(), v(), r.randrange(4)), "mod %d %d %d" % (l(), p(), v())]))
        elif x < 0.3:
            ops.append(r.choice(["ian %d %d %d %d" % (l(), p(), r.randrange(4), v()), "iar %d %d %s" % (l(), p(), vs(5))]))
        elif x < 0.42:
            ops.append(r.choice(["pop %d %d" % (l(), r.randrange(2)), "ea %d %d %d" % (l(), p(), r.randrange(2)), "ear %d %d %d %d" % (l(), p(), p(), r.randrange(2))]))
        elif x < 0.5:
            ops.append(r.choice(["clr %d %d" % (l(), r.randrange(3)), "il %d %d %d %d" % (l(), r.randrange(2), v(), v()), "dn %d %d" % (l(), r.randrange(5)), "asn %d %d %d" % (l(), r.randrange(5), v()), "asr %d 0 %s" % (l(), vs(6)), "cn %d %d %d" % (l(), r.randrange(4), v()), "cr %d 0 %s" % (l(), vs(5)), "rsz %d %d %d" % (l(), r.randrange(8), r.choice([0, v()]))]))
        elif x < 0.58:
            ops.append("%s %d %d %d" % (r.choice(["cas", "cct", "mas", "mct", "swap"]), l(), l(), r.randrange(2)))
        elif x < 0.7:
            ops.append(r.choice(["spw %d %d %d %d" % (l(), l(), p(), r.randrange(2)), "sp1 %d %d %d %d %d" % (l(), l(), p(), p(), r.randrange(2)), "spr %d %d %d %d %d %d" % (l(), l(), p(), p(), p(), r.randrange(2))]))
        elif x < 0.75:
            a, b = l(), l()
            ops += ["srt %d 1" % a, "srt %d 0" % b, "mrg %d %d %d" % (a, b, r.randrange(3))]
        elif x < 0.83:
            ops.append(r.choice(["srt %d 1", "srt %d 0", "srg %d", "sr2 %d", "rev %d"]) % l())
        elif x < 0.92:
            ops.append(r.choice(["rem %d %d %d" % (l(), v(), r.randrange(2)), "unq %d %d" % (l(), r.randrange(2)), "sbf %d %d %d %d" % (l(), v(), p(), r.randrange(4)), "cmp %d %d" % (l(), l())]))
        else:
            ops.append(r.choice(["ext %d %d %d" % (l(), p(), r.randrange(2)), "put %d %d %d" % (l(), p(), r.randrange(3))]))
    return seqjob(r, "list", ops)


def arr_job(r):
    k = r.randrange(4)
    ops, b = [], 0

    def size():
        return r.choice(["0", "1", "2", "3", "n", "n+1", "n-1", "n+5", "n-2", "m", "m+1", "m-1", str(r.randrange(20))])

    if r.random() < 0.8:
        ops += ["ctor %d %d" % (i, r.choice([1, 2, 3, 7])) for i in range(r.choice([1, 2]))]
    for _ in range(r.choice([5, 10, 20])):
        if r.random() < 0.4:
            b = 1 - b
        x = r.random()
        if x < 0.12:
            ops.append("ctor %d %s" % (b, r.choice(["0", "1", "2", "5", "m"])))
        elif x < 0.25:
            ops.append("fill %d %d" % (b, r.randrange(800)))
        elif x < 0.35:
            ops.append("w %d %d %d" % (b, r.randrange(1000), r.randrange(900)))
        elif x < 0.5:
            ops.append("grow %d %s" % (b, size()))
        elif x < 0.62:
            ops.append("shr %d %s" % (b, size()))
        elif x < 0.82:
            ops.append("%s %d" % (r.choice(["cct", "cas", "cas", "mct", "mas", "self"]), b))
        elif x < 0.87:
            ops.append("swap %d %d" % (b, r.randrange(2)))
        else:
            ops.append(r.choice(["fv 0 %d %d" % (r.choice([0, 1, 2, 5]), r.randrange(800)), "fw 0 %d %d" % (r.randrange(9), r.randrange(900)), "fend 0"]))
    return seqjob(r, "arr%d" % k, ops, {"tk": k, "reuse": r.randrange(2)})


def pool_job(r):
    if r.random() < 0.2:
        ops = []
        for _ in range(r.choice([6, 15, 30])):
            ops.append(r.choice(["lb %d" % r.randrange(90), "li %d %d" % (r.randrange(90), r.randrange(9)), "le %d" % r.randrange(9), "mp %d %d" % (r.randrange(12), r.randrange(90)), "mp %d %d" % (r.randrange(12), r.randrange(90)), "me %d" % r.randrange(12), "shr", "lc" if r.random() < 0.3 else "lb 3"]))
        return seqjob(r, "cont", ops, {"cpb": r.choice([1, 2, 3, 8]), "kind": 9, "sz": 0})
    kind = r.choice([0, 0, 0, 1, 2])
    o = {"kind": kind, "sz": r.choice([1, 4, 8, 8, 12, 16, 24, 40, 64, 9, 200, r.randrange(1, 18)]), "cpb": r.choice([1, 1, 2, 3, 4, 7]) if kind != 1 else r.choice([1, 2, 5]), "reuse": r.randrange(2)}
    ops = []
    for _ in range(r.choice([5, 12, 25])):
        x = r.random()
        if x < 0.35:
            ops.append("m %d" % r.choice([1, 1, 2, 3, 6]))
        elif x < 0.65:
            ops.append("f %d %d" % (r.randrange(50), r.choice([1, 1, 2, 3, 5, 20])))
        elif x < 0.75:
            ops.append("w %d" % r.randrange(50))
        elif x < 0.9:
            ops.append("shr" if kind != 1 else "res %d" % r.randrange(14))
        elif x < 0.97:
            ops.append("cpb %d" % r.choice([1, 2, 3, 5]) if kind == 0 else "m 1")
        else:
            ops.append("fnull")
    return seqjob(r, "pool", ops, o)


BY = [0, 0, 97, 97, 98, 66, 65, 200, 49, 32]


def byts(x):
    return ".".join(map(str, x)) if x else "-"


def words(abc, n):
    out = [[]]
    for w in out:
        if len(w) < n:
            out += [w + [c] for c in abc]
    return out


def str_all(r):
    """every question about every short text, over a few letters: small scope, but all of it"""
    js = []
    abc = [0, 97, 66]
    for s in words(abc, 3):
        ops = ["set 0 %s %s %s m" % (byts(s), byts([r.choice(abc) for _ in range(3)]), byts([r.choice(abc) for _ in range(3)]))]
        for w in words(abc, 2):
            for f in STRF:
                ks = [-1] + list(range(len(s) + 2)) if f not in ("has", "sw", "ew") else [0]
                for k in ks:
                    ops.append("q 0 %s %s %d %d" % (f, byts(w), k, r.choice([0, 1, 1, 2]) if len(w) == 1 else r.choice([0, 2])))
            ops.append("cmp 0 %s" % byts(w))
            if w:
                ops.append("split 0 %s" % byts(w))
        for k in range(4):
            ops += ["lit 0 %d" % k, "at 0 %d" % k] + ["cpy 0 %d %d" % (n, k) for n in range(5)]
        ops += ["cmpc 0 %d" % c for c in abc + [65, 98, 200]] + ["case 0", "ends 0"]
        js.append(seqjob(r, "str", ops))
    return js


STRF = "find rfind has sw ew ffo flo ffn fln".split()


def str_job(r):
    ops = []

    def text(n):
        return byts([r.choice(BY) for _ in range(n)])

    for _ in range(r.choice([8, 20, 40])):
        b, x = r.randrange(2), r.random()
        if x < 0.15 or not ops:
            ops.append("set %d %s %s %s %s" % (b, text(r.choice([0, 1, 2, 3, 5, 8, 20])), text(r.randrange(3)), text(r.randrange(3)), r.choice("msztu")))
        elif x < 0.3:
            ops.append(r.choice(["rp %d %d" % (b, r.randrange(1, 4)), "rs %d %d" % (b, r.randrange(1, 4)), "sub %d %d %d" % (b, r.randrange(20), r.randrange(-1, 12)),
                                 "subr %d %d %d" % (b, r.randrange(20), r.randrange(-1, 12)), "swap %d" % b, "asg %d" % b, "rst %d" % b]))
        elif x < 0.7:
            n = r.choice([0, 1, 1, 1, 2, 2, 3])
            ops.append("q %d %s %s %d %d" % (b, r.choice(STRF), text(n), r.choice([-1, -1, 0, 1, 2, 3, 5, 8, 30]), r.randrange(3)))
        elif x < 0.8:
            ops.append("cmp %d %s" % (b, text(r.choice([0, 1, 2, 3, 5]))))
        elif x < 0.88:
            ops.append(r.choice(["cmpc %d %d" % (b, r.choice(BY)), "lit %d %d" % (b, r.randrange(4))]))
        elif x < 0.94:
            ops.append("split %d %s" % (b, text(r.choice([1, 1, 2]))))
        else:
            ops.append(r.choice(["cpy %d %d %d" % (b, r.choice([0, 1, 3, 9]), r.choice([0, 0, 1, 3])), "at %d %d" % (b, r.choice([0, 1, 4, 20])), "case %d" % b, "ends %d" % b]))
    return seqjob(r, "str", ops)


def str_src(rng, tier):
    return [("h_seq", str_all(rng) + [str_job(rng) for _ in range(1500 if tier == "quick" else 40000)])]


NUMS = [0, 1, 9, 10, 11, 99, 100, 127, 128, 129, 255, 256, 999, 32767, 32768, 65535, 65536, 10**9 - 1, 10**9, 10**9 + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 10**18 - 1, 10**18, 2**63 - 1, 2**63, 2**64 - 1, 1234567890123456789, 1000000007000000009]
FLTS = "0 1 -1 0.5 0.1 3.25 -2.5e-3 1e10 1e100 1.5e-300 123456789012 1234567890123 -1.23456789012e-308 1.7976931348623157e308".split()
BITS = {"i8": 7, "u8": 8, "i16": 15, "u16": 16, "i32": 31, "u32": 32, "i64": 63, "u64": 64}


def integer(r, lo, hi):
    while True:
        n = r.choice(NUMS + [r.getrandbits(r.randrange(1, 65))]) * r.choice([1, 1, -1])
        if lo <= n <= hi:
            return n


def value(r, k=None):
    k = k or r.choice("iiuufpbcsss")
    if k == "i":
        return "i %d" % integer(r, -2**63, 2**63 - 1)
    if k == "u":
        return "u %d" % integer(r, 0, 2**64 - 1)
    if k == "f":
        return "f " + r.choice(FLTS + ["%.6g" % (r.random() * 10 ** r.randrange(-9, 20))])
    if k == "p":
        return "p %d" % r.choice([0, 1, 255, 4096, 2**64 - 1, 0x7fff12345678, r.getrandbits(r.randrange(1, 65))])
    if k == "b":
        return "b %d" % r.randrange(2)
    if k == "c":
        return "c %d" % r.choice([65, 37, 0, 200, 10])
    return "s " + byts([r.choice([65, 66, 37, 37, 200, 32]) for _ in range(r.choice([0, 1, 2, 5, 10, 20, 31, 32, 33, 45, 62, 63, 64, 99]))])


def fmt_args(f):
    n = i = 0
    while i < len(f):
        if f[i] == 37:
            if i + 1 < len(f) and f[i + 1] == 37:
                i += 1
            else:
                n += 1
        i += 1
    return n


def text_job(r):
    ops = []
    for _ in range(r.choice([5, 15, 30])):
        b, x = r.randrange(2), r.random()
        if x < 0.4:
            ops.append("put %d %d %s" % (b, r.randrange(5), value(r)))
        elif x < 0.6:
            f = []
            for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
                f += r.choice([[65], [98, 32], [37, 37], [37], [37], [58] * r.choice([1, 20, 40])])
            while fmt_args(f) > 3:
                f.pop()
            n = fmt_args(f)
            a = [[], [value(r)], ["i %d" % integer(r, -2**31, 2**31 - 1), value(r, "s")], [value(r, "s"), value(r, "u"), value(r, "c")]][n]
            ops.append(("fmt %d %s %d %s" % (b, byts(f), r.randrange(2), " ".join(a))).strip())
        elif x < 0.7:
            ops.append(r.choice(["rst %d", "rst %d", "mas %d", "mct %d"]) % b)
        elif x < 0.85:
            v = value(r)
            while v[0] == "s" and v.count(".") > 50:
                v = value(r)
            ops.append("cs 0 %d %s" % (r.randrange(5), v))
        else:
            k = r.choice(list(BITS))
            hi = 2 ** BITS[k] - 1
            n = r.choice([integer(r, -hi - 1 if k[0] == "i" else 0, hi), hi, -hi - 1 if k[0] == "i" else 0])
            s = [ord(c) for c in "%d" % n] + r.choice([[], [], [], [120], [32], [46, 53], [45]])
            if r.random() < 0.1:
                s = [r.choice([120, 65, 46])] + s
            ops.append("ci 0 %s %s %d" % (k, byts(s), r.randrange(3)))
    return seqjob(r, "text", ops, {"sz": r.choice([64, 64, 100, 400])})


def own_job(r):
    k = r.choice(["any", "any", "uany", "optn", "opts", "opto"])
    ops = []
    for _ in range(r.choice([4, 10, 25])):
        f = r.choice(["set", "set", "set", "cpy", "cpy", "mov", "mct", "clr", "swp", "mod"] + (["cvt", "cvt"] if k[0] == "o" else []))
        ops.append("%s %d %d %d %s %d" % (f, r.randrange(3), r.randrange(3), r.randrange(4), r.choice("nso"), r.randrange(1, 1000)))
    return seqjob(r, k, ops)


def time_job(r):
    ops = []
    sec = lambda: r.choice([0, 1, 59, 60, 86399, 86400, 68169599, 951782400, 951868799, 4107542399, 1 << 31, 1700000000, r.randrange(2**31), r.randrange(10**6)])
    for _ in range(r.choice([5, 15, 30])):
        b, x = r.randrange(2), r.random()
        if x < 0.25:
            s = min(sec(), 2**31 - 1) // r.choice([1, 1, 1, 2])
            u = r.choice([0, 1, 999999, 500000, 999, 1000, r.randrange(10**6)])
            ops.append("set %d x %d %d %d" % (b, r.randrange(2), s * r.choice([1, 1, 1, -1]) if s < 10**9 else s, u))
            ops.append(r.choice(["fmt %d", "get %d"]) % b)
        elif x < 0.5:
            k = r.choice("smuq")
            n = r.choice([0, 1, 2, 999, 1000, 2147, 2148, 3600, 86400, 2147483, 2147484, 10**6, 10**8, r.randrange(10**8)] + {"s": [10**9], "q": []}.get(k, [2**31 - 1, r.randrange(2**31)])) * r.choice([1, 1, -1])
            ops.append("set %d x 0 %d %d" % (b, r.randrange(10**8), r.randrange(10**6)))
            ops.append("%s %d %s %d %d" % (r.choice(["add", "sub"]), b, k, n, r.randrange(3)))
        elif x < 0.65:
            ops += ["set 0 x 1 %d %d" % (r.randrange(10**9) * r.choice([1, -1]), r.randrange(10**6)), "set 1 x 0 %d %d" % (r.randrange(10**9), r.choice([0, r.randrange(10**6)]))]
            ops.append("%s %d x %d" % (r.choice(["plus", "minus", "minus"]), b, r.randrange(2)))
        elif x < 0.7:
            ops += ["set %d x 0 %d %d" % (b, r.randrange(10**9), r.choice([0, r.randrange(10**6)])), "neg %d" % b]
        else:
            ops.append("get %d" % b)
    return seqjob(r, "time", ops, {"tz": r.choice([0, 0, 3600, 19800, -12600, -43200, 50400])})


def src(h, job, quick, thorough):
    def f(rng, tier):
        return [(h, [job(rng) for _ in range(quick if tier == "quick" else thorough)])]
    return f


def M(mod, quick, deep=()):
    return [(mod, c + ".cfg") for c in quick] + [(mod, c + ".cfg", ("thorough",)) for c in deep]


def P(pid, view, job, q, t, models=()):
    return lambda: Prop(pid, [view], [src("h_seq", job, q, t)], list(models), assumptions=A)


PROPS = {
    "P15": P("P15", View("ByteBufTrace", BUF), buf_job, 2500, 40000,
             M("ByteBufImpl", ["ByteBufB"], ["ByteBufA", "ByteBufC"])),
    "P16": P("P16", View("ChunksTrace", CHU), chunk_job, 2500, 30000,
             M("ChunksImpl", ["ChunksA", "ChunksB"], ["ChunksC"])),
    "P23": P("P23", View("PoolsTrace", POO, ("kind", "sz", "cpb")), pool_job, 3000, 40000,
             M("PoolsImpl", ["PoolsA"], ["PoolsB"]) + M("FixedPoolImpl", ["FixedPoolA"], ["FixedPoolB"])),
    "P24": P("P24", View("FwdListTrace", LST), list_job, 3000, 40000),
    "P29": lambda: Prop("P29", [View("StrViewTrace", STR)], [str_src], M("StrImpl", ["StrA"], ["StrB"]), assumptions=A),
    "P30": P("P30", View("TextTrace", TXT, ("sz",)), text_job, 2500, 40000, M("TextImpl", ["TextA"], ["TextB"])),
    "P31": P("P31", View("OwnerTrace", OWN), own_job, 3000, 40000, M("OwnerImpl", ["OwnerA"], ["OwnerB"])),
    "P32": P("P32", View("TimesTrace", TIM, ("tz",)), time_job, 2500, 40000),
    "P25": P("P25", View("ArraysTrace", ARR, ("tk",)), arr_job, 3000, 40000),
}
