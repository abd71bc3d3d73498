"""Builds the real code of /repo's working tree together with a harness.

Every source is compiled with -fsanitize=thread so that vrt (harness/vrt.cc),
which implements the __tsan_* entry points itself, sees each memory access.
Objects are cached by content hash; without a cache everything is rebuilt.
"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")
CACHE = os.environ.get("KV_CACHE", "/tmp/kv-build-cache")
SRC_GLOBS = ["kanon/string/*.cc", "kanon/log/*.cc", "kanon/mem/*.cc", "kanon/process/*.cc",
             "kanon/thread/*.cc", "kanon/util/*.cc", "kanon/buffer/*.cc",
             "kanon/algo/*.cc", "kanon/algo/forward_list/*.cc", "kanon/linux/core/*.cc",
             "kanon/linux/core/*/*.cc", "third-party/xxHash/xxhash.c",
             "kanon/net/*.cc", "kanon/net/*/*.cc", "kanon/linux/net/*.cc", "kanon/linux/net/*/*.cc"]
REPO_FLAGS = ["-O1", "-g", "-fsanitize=thread", "-pthread", "-march=x86-64", "-w",
              "-I" + REPO, "-I" + os.path.join(REPO, "third-party")]
# harness -> (extra repo sources, instrument the harness itself)
HARNESS = {
    "h_conn": ([], False),
    "h_loop": ([], False),
    "h_poll": ([], False),
    "h_server": ([], False),
    "h_client": ([], False),
    "h_seq": ([], True),
    "h_log": ([], False),
    "h_thr": ([], True),
    "h_codec": (["example/length_codec/codec.cc -DNDEBUG"], False),
    "h_codecd": (["example/length_codec/codec.cc"], False),  # the same with assertions
}
SAME = {"h_codecd": "h_codec"}


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def _headers_hash():
    h = hashlib.sha256()
    files = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if not d.startswith((".", "_")) and d != "build")
        for f in fs:
            if f.endswith((".h", ".hpp", ".inl", ".inc")):
                files.append(os.path.join(root, f))
    files += glob.glob(os.path.join(VERIF, "harness", "*.h"))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()


def _key(src, flags, hh):
    h = hashlib.sha256()
    h.update(hh.encode())
    h.update(" ".join(flags).encode())
    h.update(src.encode())
    with open(src, "rb") as fd:
        h.update(fd.read())
    return h.hexdigest()[:32]


def _compile(src, flags, hh):
    out = os.path.join(CACHE, _key(src, flags, hh) + ".o")
    if os.path.exists(out):
        return out
    cc = "gcc" if src.endswith(".c") else "g++"
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=CACHE)
    os.close(fd)
    try:
        _run([cc] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    except BaseException:
        if os.path.exists(tmp):
            os.unlink(tmp)
        raise
    return out


def _trim():
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        tot = sum(os.path.getsize(f) for f in fs)
        if tot > 3 << 30:
            for f in sorted(fs, key=os.path.getmtime)[: len(fs) // 2]:
                os.unlink(f)
    except OSError:
        pass


def build(harness):
    """returns the path of the harness binary for the current working tree"""
    os.makedirs(CACHE, exist_ok=True)
    _trim()
    hh = _headers_hash()
    extra, instr = HARNESS[harness]
    srcs = []
    for g in SRC_GLOBS:
        srcs += sorted(glob.glob(os.path.join(REPO, g)))
    jobs = []
    for e in extra:
        jobs.append((os.path.join(REPO, e.split()[0]), ["-std=gnu++11"] + REPO_FLAGS + e.split()[1:]))
    for s in srcs:
        std = [] if s.endswith(".c") else ["-std=gnu++11"]
        jobs.append((s, std + REPO_FLAGS))
    hf = ["-std=gnu++17", "-O1", "-g", "-Wall", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"),
          "-I" + os.path.join(REPO, "example"), "-pthread"]
    jobs.append((os.path.join(VERIF, "harness", "vrt.cc"), hf))
    jobs.append((os.path.join(VERIF, "harness", SAME.get(harness, harness) + ".cc"), (["-fsanitize=thread", "-w"] if instr else []) + hf))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: _compile(j[0], j[1], hh), jobs))
    h = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, harness + "-" + h)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        _run(["g++"] + objs + ["-o", tmp, "-rdynamic", "-no-pie", "-ldl", "-pthread"])
        os.rename(tmp, out)
    return out


if __name__ == "__main__":
    hs = sys.argv[1:]
    if hs == ["--all"]:
        hs = [h for h in HARNESS if os.path.exists(os.path.join(VERIF, "harness", SAME.get(h, h) + ".cc"))]
    for h in hs:
        print(build(h))
