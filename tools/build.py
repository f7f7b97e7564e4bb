"""Builds the maf sources of /repo (or $MAF_REPO) plus a harness, in one sanitizer flavor.
Objects are cached under /verif/build by content hash; nothing is written in /repo."""
import concurrent.futures as cf
import hashlib, os, subprocess, sys, fcntl, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MAF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = next((c for c in ("/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(c)), "clang++")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

COMMON = ["-std=c++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-pthread", "-w",
          "-DMAF_MIN_ALLOWED_LOG_LEVEL=1", "-DMAF_STATIC_LIBRARY", "-fdelayed-template-parsing"]
INC = [f"-I{REPO}/include", f"-I{REPO}/src/platforms/unix", f"-I{REPO}/src/common",
       f"-I{VERIF}/mon", f"-I{VERIF}/harness/standin"]
FLAVORS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
             "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
HFLAGS = {"values": ["-O0"]}  # optimising its hundreds of instantiations takes minutes
COV = ["-fsanitize-coverage=trace-pc-guard", f"-fsanitize-coverage-allowlist={VERIF}/mon/cov_allow.txt"]


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:20]


def _files_hash(paths):
    m = hashlib.sha256()
    for p in sorted(paths):
        m.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            m.update(f.read())
    return m.hexdigest()[:20]


def lib_sources():
    r = []
    for root in (f"{REPO}/src/common", f"{REPO}/src/platforms/unix"):
        for d, _, fs in os.walk(root):
            r += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(r)


def lib_headers():
    r = []
    for root in (f"{REPO}/include", f"{REPO}/src/common", f"{REPO}/src/platforms/unix"):
        for d, _, fs in os.walk(root):
            r += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".inl"))]
    return sorted(r)


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def _compile(src, obj, flags):
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    _run([CXX, *COMMON, *flags, *INC, "-include", f"{VERIF}/mon/prefix.h", "-c", src, "-o", tmp])
    os.replace(tmp, obj)
    return obj


def build(harness, flavor, extra=()):
    """returns the path of the executable of harness/<harness>.cpp"""
    os.makedirs(BUILD, exist_ok=True)
    hdrs = lib_headers()
    hh = _files_hash(hdrs + glob.glob(f"{VERIF}/mon/*.h") + [f"{VERIF}/mon/cov_allow.txt"])
    fl = FLAVORS[flavor]
    extra = [*HFLAGS.get(harness, []), *extra]
    jobs = []
    odir = os.path.join(BUILD, flavor)
    os.makedirs(odir, exist_ok=True)
    for s in lib_sources():
        with open(s, "rb") as f:
            k = _h(f.read(), hh, s, fl, COMMON)
        jobs.append((s, f"{odir}/l_{os.path.basename(s)[:-4]}_{k}.o", fl + COV))
    hs = f"{VERIF}/harness/{harness}.cpp"
    with open(hs, "rb") as f:
        k = _h(f.read(), hh, _files_hash(glob.glob(f"{VERIF}/harness/*.h")), fl, COMMON, extra)
    jobs.insert(0, (hs, f"{odir}/h_{harness}_{k}.o", fl + COV + list(extra)))
    # parts of the same harness, compiled in parallel
    for ps in sorted(glob.glob(f"{VERIF}/harness/{harness}__*.cpp")):
        with open(ps, "rb") as f:
            k = _h(f.read(), hh, _files_hash(glob.glob(f"{VERIF}/harness/*.h")), fl, COMMON, extra)
        jobs.insert(1, (ps, f"{odir}/h_{os.path.basename(ps)[:-4]}_{k}.o", fl + COV + list(extra)))
    for m, mfl in (("mon", fl), ("perturb", [])):
        ms = f"{VERIF}/mon/{m}.cpp"
        with open(ms, "rb") as f:
            k = _h(f.read(), hh, mfl, COMMON)
        jobs.append((ms, f"{odir}/m_{m}_{k}.o", mfl))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: _compile(*j), jobs))
    exe = f"{odir}/x_{harness}_{_h(*objs)}"
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        _run([CXX, *fl, "-pthread", "-rdynamic", *(f"-Wl,--wrap={f}" for f in ("read", "write", "recv", "send")), *objs, "-o", tmp])
        os.replace(tmp, exe)
    return exe


def prune(keep_mb=3000):
    """drops oldest cached objects when the cache grows too large"""
    fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(f"{BUILD}/*/*")]
    tot = sum(f[1] for f in fs)
    for mt, sz, p in sorted(fs):
        if tot < keep_mb << 20:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        tot -= sz


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "asan"))
