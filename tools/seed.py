#!/usr/bin/env python3
"""Planted bugs: make, confirm, and try the checks against them.

  seed.py confirm ID...   the patch applies, builds, passes the stable tests; the demo
                          passes without it and fails with it (in a private copy that is
                          mounted over /repo in a namespace of its own)
  seed.py try ID...       runs the property's quick check on a copy with the patch
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def copy(pid):
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    p = subprocess.run(["git", "-C", d + "/repo", "apply", os.path.join(V, "seeded", pid, "patch.diff")])
    if p.returncode:
        shutil.rmtree(d)
        raise SystemExit(pid + ": patch does not apply")
    return d


def ns(d, cmd, timeout=900):
    p = subprocess.run(["unshare", "-m", "-n", "bash", "-c", "ip link set lo up; mount --bind %s/repo /repo && cd /repo && %s" % (d, cmd)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def confirm(pid):
    sd = os.path.join(V, "seeded", pid)
    work = tempfile.mkdtemp(prefix="demo-")
    shutil.copytree(sd, work + "/x", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    demo = "timeout 300 bash %s/x/demo.sh" % work
    d = tempfile.mkdtemp(prefix="seed-")
    res = []
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        rc, out = ns(d, "bash /opt/vp/build.sh >/dev/null 2>&1; " + demo)
        res.append("demo clean: %d" % rc)
        ok = rc == 0
        if rc:
            print(out[-1500:])
        p = subprocess.run(["git", "-C", d + "/repo", "apply", sd + "/patch.diff"])
        if p.returncode:
            print(pid, "patch does not apply")
            return False
        rc, out = ns(d, "bash /opt/vp/test.sh /repo/_build/o.json")
        if rc and "build" in out:
            print(out[-2500:])
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base["stable"] if isinstance(base, dict) else base
        got = json.load(open(d + "/repo/_build/o.json"))
        missing = [t for t in base if t not in got["passed"]]
        res.append("stable missing: %d" % len(missing))
        ok &= not missing
        if missing:
            print(missing[:5], out[-500:])
        rc, out = ns(d, demo)
        res.append("demo patched: %d" % rc)
        ok &= rc != 0
        print(pid, "OK" if ok else "FAIL", "; ".join(res), "|", out.strip().splitlines()[-1][:150] if out.strip() else "")
        return ok
    finally:
        shutil.rmtree(d)
        shutil.rmtree(work)


def attempt(pid):
    meta = json.load(open(os.path.join(V, "seeded", pid, "meta.json")))
    d = copy(pid)
    try:
        e = dict(os.environ, KV_REPO=d + "/repo", KV_CACHE="/tmp/kv-build-cache-seed", VERIF_SEED="1", KV_EVID=d + "/ev")
        p = subprocess.run([sys.executable, V + "/check.py", "--prop", meta["property"]], env=e, cwd=V, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        hit = "VIOLATION property=" + meta["property"] in p.stdout and p.returncode == 1
        print(pid, meta["property"], "CAUGHT" if hit else "MISSED rc=%d" % p.returncode, p.stdout.strip()[:400 if hit else 800].replace(d, ""))
        return hit
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    f = {"confirm": confirm, "try": attempt}[sys.argv[1]]
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    bad = [i for i in ids if not f(i)]
    print(len(ids) - len(bad), "of", len(ids), "ok; not:", bad)
