"""What a check is made of, and how it is run."""
import hashlib, json, os, random, sys, time
from . import build as B, run as R, tlc as T

VERIF = B.VERIF
EVID = os.environ.get("KV_EVID", os.path.join(VERIF, "evidence"))


class View:
    """One reading of a recorded execution: the events kept and the module that judges them."""

    def __init__(self, module, keep, opts=(), when=None, xform=None):
        self.module, self.keep, self.opts, self.when, self.xform = module, set(keep) | {"Bad"}, tuple(opts), when, xform

    def project(self, tr):
        if self.when and not self.when(tr.job.opts):
            return None
        ev = [e for e in tr.ev if e["e"] in self.keep]
        if self.xform:
            ev = self.xform(ev, tr.job.opts)
        return {"opt": dict([("x", 0)] + [(k, int(tr.job.opts.get(k, 0))) for k in self.opts]), "ev": ev}


class Prop:
    def __init__(self, pid, views, sources, models=(), level_note="", assumptions=()):
        """sources: list of f(rng, tier) -> [(harness, [Job])]
        models: list of (module, cfg, tiers)"""
        self.pid, self.views, self.sources, self.models = pid, views, sources, models
        self.level_note, self.assumptions = level_note, list(assumptions)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def _key(t):
    return hashlib.sha256(json.dumps(t, sort_keys=True).encode()).digest()


def mutate(t, rng):
    """a corrupted copy of a trace: shows that the module is not satisfied by just anything"""
    ev = [dict(e) for e in t["ev"]]
    k = rng.randrange(3)
    if not ev:
        return dict(t, ev=[{"e": "Bad"}])
    i = rng.randrange(len(ev))
    if k == 0:
        del ev[i]
    elif k == 1 and len(ev) > 1:
        i = rng.randrange(len(ev) - 1)
        ev[i], ev[i + 1] = ev[i + 1], ev[i]
    else:
        ev.insert(i, dict(ev[i]))
    return {"opt": t["opt"], "ev": ev}


def describe(ev, pos):
    if pos - 1 < len(ev):
        return "event %d %s" % (pos, json.dumps(ev[pos - 1]))
    return "end of trace"


def judge(prop, traces, rng=None, nmut=0, log=None):
    """-> (rejections [(view index, trace, pos, projected)], counts)"""
    rej, st = [], {"projected": 0, "distinct": 0, "generated": 0, "dstates": 0, "mutants": 0, "mutants_rejected": 0}
    for vi, v in enumerate(prop.views):
        seen, order = {}, []
        for tr in traces:
            p = v.project(tr)
            if p is None:
                continue
            st["projected"] += 1
            k = _key(p)
            if k not in seen:
                seen[k] = (tr, p)
                order.append(k)
        projs = [seen[k][1] for k in order]
        n = len(projs)
        muts = []
        if nmut and n:
            muts = [mutate(projs[rng.randrange(n)], rng) for _ in range(nmut)]
            muts = [m for m in muts if m["ev"] and _key(m) not in seen]
        r, g, d = T.validate(v.module, projs + muts)
        st["distinct"] += n
        st["generated"] += g
        st["dstates"] += d
        st["mutants"] += len(muts)
        for i, pos in r:
            if i >= n:
                st["mutants_rejected"] += 1
            else:
                rej.append((vi, seen[order[i]][0], pos, projs[i]))
    return rej, st


def matches(kf, job, proj, pos):
    """a known finding names the family (or the exact script) and the event at which it fails"""
    m = kf["match"]
    if "fam" in m and job.fam != m["fam"]:
        return False
    if "opts" in m and any(str(job.opts.get(k)) != str(x) for k, x in m["opts"].items()):
        return False
    if "threads" in m and [list(x) for x in m["threads"]] != [[n, list(o)] for n, o in job.threads]:
        return False
    e = proj["ev"][pos - 1] if pos - 1 < len(proj["ev"]) else {"e": "end"}
    return all(e.get(k) == x for k, x in m.get("event", {}).items())


def run_check(prop, tier, seed, verbose=False):
    t0 = time.time()
    rng = random.Random(seed * 1000003 + int(hashlib.sha256(prop.pid.encode()).hexdigest()[:6], 16))
    ev = {"property": prop.pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []},
          "assumptions": prop.assumptions, "violations": []}
    cov = ev["coverage"]
    viol = []
    fail = None
    # 1. the specification itself
    mcs = []
    for m in prop.models:
        mod, cfg, tiers = m[0], m[1], m[2] if len(m) > 2 else ("quick", "thorough")
        if tier not in tiers:
            continue
        r = T.model_check(mod, cfg, workers=8, timeout=700 if tier == "thorough" else 200)
        mcs.append({"module": mod, "cfg": cfg, "generated": r["generated"], "distinct": r["distinct"],
                    "result": {True: "no error", False: "ERROR", None: "time limit"}[r["ok"]]})
        cov["states"] += r["distinct"]
        cov["transitions"] += r["generated"]
        if r["ok"] is False:
            fail = "model %s/%s fails:\n%s" % (mod, cfg, r["out"])
    cov["models"] = mcs
    if verbose:
        print("models", json.dumps(mcs), "%.1fs" % (time.time() - t0))
    # 2. the code
    allt, runs, cut, njobs, fams = [], 0, False, 0, {}
    bins = {}
    for src in prop.sources:
        for harness, jobs in src(rng, tier):
            if harness not in bins:
                bins[harness] = B.build(harness)
            traces, n, c = R.run_jobs(bins[harness], jobs, 400 if tier == "thorough" else 40)
            for t in traces:
                t.msg = (harness, t.msg)
            allt += traces
            runs += n
            cut |= c
            njobs += len(jobs)
            for j in jobs:
                fams[j.fam] = fams.get(j.fam, 0) + 1
            if verbose:
                print(harness, "jobs", len(jobs), "runs", n, "traces", len(traces), "%.1fs" % (time.time() - t0))
    rej, st = judge(prop, allt, rng, nmut=12)
    cov["states"] += st["dstates"]
    cov["transitions"] += st["generated"]
    if verbose:
        print("judged", st, "rejected", len(rej), "%.1fs" % (time.time() - t0))
    # 3. each rejection is confirmed by running it again
    kfs = known_findings(prop.pid)
    hit = {}
    reported = {}
    for vi, tr, pos, proj in rej:
        kf = next((k for k in kfs if matches(k, tr.job, proj, pos)), None)
        if kf:
            hit.setdefault(kf["id"], kf)
            continue
        sig = (tr.job.fam, proj["ev"][pos - 1]["e"] if pos - 1 < len(proj["ev"]) else "end")
        if len(reported) >= 8 or sig in reported:
            continue
        again = rerun(prop, vi, tr)
        if again is None:
            ev.setdefault("unconfirmed", []).append({"job": tr.job.line("x", 1, tr.seed), "at": describe(proj["ev"], pos)})
            continue
        reported[sig] = (vi, tr, again[0], again[1])
    for kf in kfs:
        if kf["id"] in hit or kf.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop.pid, kf["what"]))
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for sig, (vi, tr, pos, proj) in reported.items():
        h = hashlib.sha256((tr.job.line("x", 1, tr.seed)).encode()).hexdigest()[:10]
        path = os.path.join(EVID, "replays", "%s-%s.json" % (prop.pid, h))
        with open(path, "w") as f:
            json.dump({"property": prop.pid, "harness": tr.msg[0], "family": tr.job.fam, "opts": tr.job.opts,
                       "threads": tr.job.threads, "seed": tr.seed, "view": vi, "module": prop.views[vi].module,
                       "rejected_at": describe(proj["ev"], pos), "position": pos, "trace": proj,
                       "status": tr.msg[1]}, f, indent=1)
        viol.append({"replay": path, "family": tr.job.fam, "at": describe(proj["ev"], pos)})
        print("VIOLATION property=%s replay=%s" % (prop.pid, path))
        print("  %s: %s rejects %s  script: %s" % (tr.job.fam, prop.views[vi].module, describe(proj["ev"], pos), tr.job.line("x", 1, tr.seed)))
    cov["traces_validated_against_impl"] = st["distinct"] - len(rej)
    cov["executions"] = runs
    cov["distinct_executions"] = len(allt)
    cov["scripts"] = njobs
    cov["scripts_by_family"] = fams
    cov["time_cut"] = cut
    cov["rejected"] = len(rej)
    cov["corrupted_traces"] = {"made": st["mutants"], "rejected": st["mutants_rejected"]}
    for t in rng.sample(allt, min(3, len(allt))):
        cov["samples"].append({"script": t.job.line(t.job.fam, 1, t.seed), "events": [json.dumps(e) for e in t.ev[:25]]})
    ev["violations"] = viol
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fail:
        print(fail)
        return 2
    if not allt or (st["distinct"] == 0):
        print("nothing was explored")
        return 2
    print("%s %s: %d executions, %d distinct traces checked, %d states, %.1f s%s" % (
        prop.pid, tier, runs, st["distinct"], cov["states"], time.time() - t0, ", VIOLATED" if viol else ""))
    return 1 if viol else 0


def rerun(prop, vi, tr):
    j = tr.job
    job = R.Job(j.fam, j.opts, j.threads, 1, tr.seed)
    b = B.build(tr.msg[0])
    for _ in range(2):
        ts, _, _ = R.run_jobs(b, [job], 60)
        p = prop.views[vi].project(ts[0])
        r, _, _ = T.validate(prop.views[vi].module, [p])
        if r:
            return r[0][1], p
    return None


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    b = B.build(d["harness"])
    job = R.Job(d["family"], d["opts"], [(n, o) for n, o in d["threads"]], 1, d["seed"])
    ts, _, _ = R.run_jobs(b, [job], 60)
    p = prop.views[d["view"]].project(ts[0])
    for i, e in enumerate(ts[0].ev):
        print(json.dumps(e))
    r, _, _ = T.validate(d["module"], [p])
    if r:
        print("rejected by %s at %s" % (d["module"], describe(p["ev"], r[0][1])))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("accepted by", d["module"])
    return 0
