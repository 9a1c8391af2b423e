"""Runs ffdump over the translation units of /repo's current working tree."""
import time, hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("FF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
FFDUMP = os.path.join(BUILD, "ffdump")

CONFIGS = {
    "default": dict(FLINT=0, DEFAULT=1, CUSTOM=0, MPI=0),
    "flint": dict(FLINT=1, DEFAULT=0, CUSTOM=0, MPI=0),
    "mpi": dict(FLINT=0, DEFAULT=1, CUSTOM=0, MPI=1),
    "flintmpi": dict(FLINT=1, DEFAULT=0, CUSTOM=0, MPI=1),
}


class AnalysisError(Exception):
    pass


def ensure_tool():
    src = os.path.join(VERIF, "tools/ffdump")
    if not os.path.exists(FFDUMP) or os.path.getmtime(FFDUMP) < os.path.getmtime(os.path.join(src, "ffdump.cpp")):
        subprocess.check_call(["bash", os.path.join(src, "build.sh")], stdout=sys.stderr)


def gen_headers(cfg, d):
    inc = os.path.join(d, "include", "firefly")
    os.makedirs(inc, exist_ok=True)
    hdr = os.path.join(REPO, "source/include/firefly")
    t = open(os.path.join(hdr, "config.hpp.in")).read()
    for k in ("FLINT", "DEFAULT", "CUSTOM", "MPI"):
        t = t.replace("@%s_FLAG@" % k, str(CONFIGS[cfg][k]))
    open(os.path.join(inc, "config.hpp"), "w").write(t)
    t = open(os.path.join(hdr, "version.hpp.in")).read()
    t = re.sub(r"@PROJECT_VERSION_\w+@", "0", t)
    open(os.path.join(inc, "version.hpp"), "w").write(t)
    return os.path.join(d, "include")


_MPI_FLAGS = None


def mpi_flags():
    global _MPI_FLAGS
    if _MPI_FLAGS is None:
        try:
            o = subprocess.run(["mpicxx", "--showme:compile"], capture_output=True, text=True, timeout=30)
            _MPI_FLAGS = o.stdout.split() if o.returncode == 0 else []
        except Exception:
            _MPI_FLAGS = []
        if not _MPI_FLAGS:
            b = "/usr/lib/x86_64-linux-gnu/openmpi/include"
            _MPI_FLAGS = ["-I" + b, "-I" + b + "/openmpi"]
    return _MPI_FLAGS


def flags(cfg, incdir):
    f = ["-DFIREFLY_ROOT_DIR=\"%s\"" % REPO, "-I" + incdir, "-I" + os.path.join(REPO, "source/include")]
    if CONFIGS[cfg]["MPI"]:
        f += mpi_flags()
    return f + ["-pthread", "-DNDEBUG", "-std=gnu++14", "-w", "-ferror-limit=0"]


def lib_sources():
    """All library sources of the build, as named in CMakeLists.txt (fallback: all in source/)."""
    src = os.path.join(REPO, "source")
    return sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cpp"))


def plan(cfg):
    """(name, file) of the translation units of a configuration."""
    out = [(os.path.basename(f), f) for f in lib_sources()]
    out.append(("unit_reconst.cpp", os.path.join(VERIF, "units/unit_reconst.cpp")))
    out.append(("unit_math.cpp", os.path.join(VERIF, "units/unit_math.cpp")))
    for f in ("ff_insert.cpp", "firefly.cpp"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append((f, p))
    return out


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "source"), os.path.join(VERIF, "units")):
        for dp, dn, fn in os.walk(base):
            for f in fn:
                files.append(os.path.join(dp, f))
    for f in ("ff_insert.cpp", "firefly.cpp"):
        files.append(os.path.join(REPO, f))
    files.append(FFDUMP)
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def prune(base, key):
    """drops cached results of other trees, except recent ones another run may be using"""
    now = time.time()
    old = []
    for d in os.listdir(base):
        try:
            old.append((now - os.path.getmtime(os.path.join(base, d)), d))
        except OSError:
            pass
    for i, (age, d) in enumerate(sorted(old)):
        if d != key and (age > 1800 or i > 12):
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)


def dump(jobs, keep_going=False):
    """jobs: list of (cfg, unit file). Returns {(cfg, name): parsed json}."""
    ensure_tool()
    key = tree_hash()
    cdir = os.path.join(BUILD, "cache", key)
    base = os.path.join(BUILD, "cache")
    if os.path.isdir(base):
        prune(base, key)
    os.makedirs(cdir, exist_ok=True)
    os.utime(cdir)
    incs = {}
    for cfg in {c for c, _, _ in jobs}:
        incs[cfg] = gen_headers(cfg, os.path.join(cdir, "inc-" + cfg))

    def one(job):
        cfg, name, path = job
        out = os.path.join(cdir, cfg + "__" + name + ".json")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            cmd = [FFDUMP, "--root=" + REPO + "/", "--root=" + os.path.join(VERIF, "units") + "/",
                   "--prefix=%s/%s" % (cfg, name), "-o", tmp, path, "--"] + flags(cfg, incs[cfg])
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(tmp):
                raise AnalysisError("ffdump failed on %s [%s]: %s" % (path, cfg, r.stderr[-2000:]))
            os.rename(tmp, out)
        with open(out) as f:
            return json.load(f)

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    return {(c, n): r for (c, n, _), r in zip(jobs, res)}


if __name__ == "__main__":
    import time
    t = time.time()
    jobs = [(c, n, p) for c in sys.argv[1:] or ["default", "flint", "mpi"] for n, p in plan(c)]
    d = dump(jobs)
    for k, v in d.items():
        print(k, "errors" if v["errors"] else "ok", len(v["functions"]), "functions", len(v["records"]))
    print("%.1fs" % (time.time() - t))
