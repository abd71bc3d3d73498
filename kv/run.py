"""Runs jobs on a harness binary (the real code under vrt) and collects traces."""
import os, shutil, subprocess, tempfile, json

NPROC = min(8, os.cpu_count() or 8)


class Trace:
    __slots__ = ("job", "seed", "bad", "msg", "ev")

    def __init__(self, job, seed, bad, msg, ev):
        self.job, self.seed, self.bad, self.msg, self.ev = job, seed, bad, msg, ev


class Job:
    """A script with the seeds it is run with.
    opts: dict, threads: list of (name, [op, ...]) with op a string 'name a b'"""
    __slots__ = ("fam", "opts", "threads", "n", "seed0")

    def __init__(self, fam, opts, threads, n=10, seed0=1):
        self.fam, self.opts, self.threads, self.n, self.seed0 = fam, dict(opts), threads, n, seed0

    def line(self, jid, n=None, seed0=None):
        o = " ".join("%s=%s" % kv for kv in self.opts.items())
        t = " | ".join("%s %s" % (nm, " ; ".join(ops)) for nm, ops in self.threads)
        s = "%s %d %d %s" % (jid, self.n if n is None else n, self.seed0 if seed0 is None else seed0, o)
        return s + (" | " + t if t else "")


class RunError(Exception):
    pass


def run_jobs(binary, jobs, seconds=60.0, nproc=None):
    """-> (traces, runs, cut)"""
    nproc = nproc or NPROC
    d = tempfile.mkdtemp(prefix="kvrun-")
    try:
        procs = []
        for k in range(nproc):
            mine = range(k, len(jobs), nproc)
            if not mine:
                continue
            jf = os.path.join(d, "j%d" % k)
            with open(jf, "w") as f:
                for i in mine:
                    f.write(jobs[i].line("j%d" % i) + "\n")
            of = os.path.join(d, "o%d" % k)
            procs.append((subprocess.Popen([binary, jf, of, str(seconds)], cwd=d, stdout=subprocess.DEVNULL,
                                           stderr=None if os.environ.get("VRT_NOISY") else subprocess.DEVNULL), of))
        traces, runs, cut, ended = [], 0, 0, 0
        for p, of in procs:
            try:
                p.wait(seconds + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            cur = None
            with open(of, errors="replace") as f:
                for ln in f:
                    if ln.startswith("@ "):
                        w = ln.split(None, 4)
                        cur = Trace(jobs[int(w[1][1:])], int(w[2]), w[3] != "0", w[4].strip() if len(w) > 4 else "", [])
                        traces.append(cur)
                    elif ln.startswith("# runs"):
                        w = ln.split()
                        runs += int(w[2])
                        cut |= int(w[4])
                        ended += 1
                    elif cur is not None:
                        cur.ev.append(ln.rstrip("\n"))
        if ended != len(procs):
            raise RunError("harness %s did not finish" % binary)
        for t in traces:
            ev = []
            for e in t.ev:
                try:
                    ev.append(json.loads(e))
                except ValueError:
                    # an observation beyond all bounds: no behaviour of any contract
                    ev.append({"e": "Bad", "w": "Garbled"})
                    break
            t.ev = ev
        return traces, runs, bool(cut)
    finally:
        shutil.rmtree(d, ignore_errors=True)
