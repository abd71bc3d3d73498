"""TLC front end: trace validation, bounded model checking, behaviour generation."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = os.environ.get("KV_TLA_CP", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar")


class TlcError(Exception):
    pass


def _java(args, env=None, heap="1g", par=False, timeout=850):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss32m", "-XX:+UseParallelGC" if par else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=%d" % (4 if par or heap != "1g" else 4),
           "-cp", CP, "tlc2.TLC"] + args
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
    return p.returncode, p.stdout


_stat = re.compile(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found")


def _stats(out):
    m = None
    for m in _stat.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def _work(mod):
    """a private copy of the spec directory (TLC writes beside its inputs)"""
    d = tempfile.mkdtemp(prefix="kvtlc-")
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


def validate(module, traces, nproc=8, timeout=800):
    """traces: list of {"opt":{}, "ev":[...]}.  Checks each against module
    (a *Trace module).  -> (rejected [(index, pos)], states generated, distinct)"""
    if not traces:
        return [], 0, 0
    # chunks of similar size in events
    tot = sum(len(t["ev"]) + 4 for t in traces)
    k = max(1, min(nproc, tot // 3000 + 1))
    chunks = [[] for _ in range(k)]
    load = [0] * k
    for i in sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"])):
        j = load.index(min(load))
        chunks[j].append(i)
        load[j] += len(traces[i]["ev"]) + 4
    d = _work(module)

    def one(j):
        todo, rej, g, n = chunks[j], [], 0, 0
        while todo:
            tf = os.path.join(d, "t%d.ndjson" % j)
            with open(tf, "w") as f:
                for i in todo:
                    f.write(json.dumps({"id": i, "opt": traces[i].get("opt", {"x": 0}), "ev": traces[i]["ev"]}) + "\n")
            rc, out = _java(["-config", os.path.join(d, module + ".cfg"), "-metadir", os.path.join(d, "m%d" % j), "-workers", "1",
                             "-noGenerateSpecTE", os.path.join(d, module + ".tla")], {"TRACES": tf}, heap="2g", timeout=timeout)
            st = _stats(out)
            g, n = g + st[0], n + st[1]
            if "Model checking completed" in out:
                rej += [(todo[int(a) - 1], int(b)) for a, b in re.findall(r'"?REJ (\d+) (\d+)', out)]
                break
            # no action of the specification can even be evaluated for this step (a
            # record without the field, an impossible index): the trace is none of
            # its behaviours; go on without it
            at = re.findall(r"(?m)^(?:/\\ )?tr = (\d+)$", out)
            pos = re.findall(r"(?m)^(?:/\\ )?l = (\d+)$", out)
            if not at or not pos or "OutOfMemory" in out:
                k = out.find("Error:")
                raise TlcError(module + "\n" + out[k:k + 3000])
            c = int(at[-1]) - 1
            rej.append((todo[c], int(pos[-1])))
            todo = todo[:c] + todo[c + 1:]
            if len(rej) >= 16:
                break
        return rej, g, n

    try:
        with ThreadPoolExecutor(k) as ex:
            res = list(ex.map(one, range(k)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return sorted(r for x in res for r in x[0]), sum(x[1] for x in res), sum(x[2] for x in res)


def model_check(module, cfg=None, workers=4, timeout=600, heap="4g"):
    """-> dict(ok, generated, distinct, out)"""
    d = _work(module)
    try:
        rc, out = _java(["-config", os.path.join(d, cfg or module + ".cfg"), "-metadir", os.path.join(d, "m"), "-workers", str(workers),
                         "-noGenerateSpecTE", "-deadlock" if False else "-cleanup", os.path.join(d, module + ".tla")],
                        heap=heap, par=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"ok": None, "generated": 0, "distinct": 0, "out": "timeout"}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    g, n = _stats(out)
    return {"ok": rc == 0 and "No error has been found" in out, "generated": g, "distinct": n, "out": out[-4000:]}


def simulate(module, cfg, num, depth, seed, timeout=120, env=None):
    """Runs TLC's simulator; the model prints each finished behaviour's history as
    a line 'SCRIPT <json>' through PrintT(ToJson(..)).  -> list of parsed values"""
    d = _work(module)
    try:
        rc, out = _java(["-config", os.path.join(d, cfg), "-metadir", os.path.join(d, "m"), "-workers", "1", "-noGenerateSpecTE",
                         "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), os.path.join(d, module + ".tla")],
                        env, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = []
    for ln in out.splitlines():
        m = re.match(r'"SCRIPT (.*)"$', ln.strip())
        if m:
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if not res and "Error:" in out:
        raise TlcError(module + "\n" + out[-3000:])
    return res
