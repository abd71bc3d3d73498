#!/usr/bin/env python3
"""Every deliberate deviation written into the models must be noticed by the
contracts that ride along: simulates each model with each Mutant and expects an
invariant violation.  usage: modelmut.py [Module...]"""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import tlc
MUT = {  # module: [(cfg, {constants to override}, [mutants])]
  "Conn": [("ConnSend", {}, ["overtake", "dropagain"]), ("ConnShut", {}, ["sendaftershut", "eagerfin"]), ("ConnNote", {}, ["hwlevel"]),
           ("ConnRecv", {}, ["loseread"]), ("ConnEnd", {}, ["doubleclose"])],
  "Loop": [("LoopStop", {"BodyOps": "2"}, ["nowakequit", "wakewhenpolling", "nowakecalling", "nodrain", "lifo", "drainall"])],
  "LoopThread": [("LoopThr1", {}, ["nojoin", "nowait", "earlyptr", "unlockedquit"]), ("LoopThr2", {}, ["norotate"])],
  "Timers": [("TimersD", {"MaxNow": "8"}, ["armonlyempty", "early", "unsorted", "firecancelled", "restartcancelled", "restartold"]),
             ("TimersD", {"MaxNow": "12", "Dels": "{1, 4}", "Ivs": "{0}", "InitOps": "3", "BodyOps": "0"}, ["norearm"]),
             ("TimersF", {"MaxNow": "6", "Dels": "{0, 2}", "Ivs": "{0}", "InitOps": "2"}, ["byaddr"], "bfs"),
             ("TimersA", {"Ops": "3", "BodyOps": "2", "MaxNow": "5"}, ["ignoreadding"])],
  "RwLockImpl": [("RwLockA", {}, ["nocheck", "lateflag", "ifr", "ifw", "ifwr"], "bfs"), ("RwLockA", {"Spurious": "FALSE"}, ["nowakew", "one"], "bfs")],
  "LatchImpl": [("LatchQ", {}, ["atzero", "nonotify", "if"], "bfs"), ("LatchA", {"Kinds": '{"cd", "wait"}', "Spurious": "FALSE"}, ["one"], "bfs"),
                ("LatchB", {"Spurious": "FALSE"}, ["mutereset"], "bfs")],
  "MutexImpl": [("MutexA", {}, ["tryunrecorded", "unrecordlate"], "bfs"), ("MutexC", {}, ["waitunrecorded"], "bfs"), ("MutexQ", {}, ["short"], "bfs"), ("MutexB", {}, ["nobroadcast"], "bfs")],
  "AsyncLogImpl": [("AsyncLogA", {}, ["overfull", "lostfull", "curfirst", "nocur", "checkfirst", "silent", "noflush", "untimed", "nojoin", "keepcur"], "bfs")],
  "LogFileImpl": [("LogFileA", {}, ["rollat", "tonew", "current", "quitfirst", "unnotified", "rolldrops"], "bfs"), ("LogFileC", {}, ["lateflush", "keepperiod"], "bfs"),
                  ("LogFileD", {"Ops": "4", "Sizes": "{4}", "RollSize": "3"}, ["overwrite"], "bfs")],
  "PollImpl": [("PollA", {}, ["nomod", "stale", "keepindex", "hupalways", "unasked", "either"], "bfs"), ("PollB", {}, ["neverback", "stale"], "bfs"), ("PollC", {}, ["noreindex"], "bfs")],
  "ServerImpl": [("ServerA", {}, ["estbase", "again", "keepmap", "mute", "noquit", "nojoin", "dropqueue"], "bfs"), ("ServerB", {}, ["keepspare"], "bfs"), ("ServerC", {}, ["stay"], "bfs")],
  "DialImpl": [("DialA", {}, ["nocancel", "twice", "stopkeep", "restkeep", "fatalretry", "leak"], "bfs"), ("DialE", {}, ["keepiv"], "bfs"), ("DialB", {}, ["nodouble", "nocap"], "bfs")],
  "ClientImpl": [("ClientA", {}, ["delruns", "delstops", "always", "once", "keepconn"], "bfs"), ("ClientB", {}, ["discretry", "nofin"], "bfs")],
  "ChunksImpl": [("ChunksA", {}, ["droppart", "prefront", "keepempty", "noreset", "aplfront", "shrinkless"], "bfs"), ("ChunksB", {}, ["copyon", "leave", "nextbatch", "more", "noerr"], "bfs")],
  "ByteBufImpl": [("ByteBufA", {}, ["backcopy", "keepw", "noprefix", "growsmall", "resetr", "shrany", "shrr"], "bfs"), ("ByteBufB", {}, ["overrun", "nofull", "extrawhole"], "bfs")],
  "StrImpl": [("StrA", {}, ["nul", "inverted", "notfirst", "retpos", "stay"], "bfs")],
  "TextImpl": [("TextA", {}, ["half", "beyond", "swallow", "order", "again", "room", "zero", "sign"], "bfs")],
  "OwnerImpl": [("OwnerA", {}, ["leak", "share", "freefirst", "keepsource", "dangle"], "bfs")],
  "ReleaseImpl": [("ReleaseA", {}, ["delincb", "keepcancelled", "keepbatch", "early", "addall", "leakadd", "leakset", "restartall", "keepskipped"], "bfs")],
  "ThreadImpl": [("ThreadA", {}, ["usethis", "noname", "twice", "leakdata", "keepcell", "unmarked", "nowait", "nodetach", "keepstarted", "overwrite"], "bfs"), ("ThreadA", {"Ops": "7"}, ["keepjoined"], "bfs")],
  "PoolsImpl": [("PoolsA", {"Sz": "16"}, ["overlap"], "bfs"), ("PoolsA", {}, ["openend", "nostatus", "freestatus", "losefree", "cpbnow", "anyfree", "nounlink", "keepcount"], "bfs")],
  "FixedPoolImpl": [("FixedPoolA", {}, ["keepfree", "extout", "outin", "whole", "moved"], "bfs")],
  "ThrPoolImpl": [("ThrPoolA", {}, ["nowakepush", "offone", "quitfirst", "nopop", "quitone", "nojoin", "nowakepop"], "bfs"),
                  ("ThrPoolA", {"Q": "2"}, ["wakefirst"], "bfs"), ("ThrPoolC", {}, ["iffull", "ifempty", "lifo"], "bfs"),
                  ("ThrPoolA", {"Q": "2", "Clients": "{1, 2}", "Workers": "{11}"}, ["wakewhenempty"], "bfs"),
                  ("ThrPoolB", {"Q": "1", "Workers": "{11}"}, ["quitnotfull"], "sim")],
}


def one(mod, cfg, over, mut, how):
    d = tempfile.mkdtemp(prefix="kvmm-")
    for f in os.listdir(tlc.SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(tlc.SPEC, f), d)
    t = open(os.path.join(d, cfg + ".cfg")).read()
    for k, v in dict(over, Mutant='"%s"' % mut).items():
        t, n = re.subn(r"(?m)^ *%s = .*$" % k, " %s = %s" % (k, v), t)
        assert n == 1, (cfg, k)
    if how != "bfs":
        t = re.sub(r"(?m)^VIEW.*$", "", t)
    open(os.path.join(d, cfg + ".cfg"), "w").write(t)
    try:
        p = subprocess.run(["java", "-Xmx2g", "-XX:+UseSerialGC", "-cp", tlc.CP, "tlc2.TLC", "-config", cfg + ".cfg", "-metadir", d + "/m", "-workers", "2",
                            "-noGenerateSpecTE"] + (["-simulate", "num=1000000", "-depth", "150", "-seed", "3"] if how != "bfs" else []) + [mod + ".tla"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=150)
        out = p.stdout
    except subprocess.TimeoutExpired as e:
        out = ""
    shutil.rmtree(d)
    m = re.search(r"Invariant (\w+) is violated", out)
    bads = [b for b in re.findall(r'bad = "([^"]*)"', out) if b]
    return m and (m.group(1) + " " + (bads[-1] if bads else ""))


jobs = [(m, e[0], e[1], x, e[3] if len(e) > 3 else "sim") for m in (sys.argv[1:] or MUT) for e in MUT[m] for x in e[2]]
with ThreadPoolExecutor(4) as ex:
    res = list(ex.map(lambda j: one(*j), jobs))
missed = 0
for j, r in zip(jobs, res):
    print("%-10s %-12s %-18s %s" % (j[0], j[1], j[3], r or "NOT NOTICED"))
    missed += not r
sys.exit(1 if missed else 0)
