"""Builds the extractor, runs it over /repo's current working tree and merges the facts."""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
EXTRACT = os.path.join(CACHE, "extract")


class AnalysisError(Exception):
    """The analysis itself cannot answer (not a verdict)."""


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_extractor():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    tag = _sha([src])
    stamp = EXTRACT + ".stamp"
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == tag:
            return EXTRACT
        cxxflags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        cxxflags = [f for f in cxxflags if not f.startswith("-std=") and f != "-fno-exceptions"]
        libdir = subprocess.check_output(["llvm-config-18", "--libdir"], text=True).strip()
        cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-w"] + cxxflags + [src, "-o", EXTRACT + ".tmp",
               "-L" + libdir, "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("extractor build failed: " + r.stderr[:2000])
        os.replace(EXTRACT + ".tmp", EXTRACT)
        open(stamp, "w").write(tag)
    return EXTRACT


def source_files(repo):
    out = []
    for d in ("src", "third_level_manager", "tools", "tests", "examples"):
        for r, ds, fs in os.walk(os.path.join(repo, d)):
            ds[:] = sorted(x for x in ds if not x.startswith(".") and x != "_build")
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".h", ".cc", ".hxx", ".ipp", ".inl")):
                    out.append(os.path.join(r, f))
    return sorted(out)


def tus(repo):
    t = []
    for r, ds, fs in os.walk(os.path.join(repo, "src")):
        t += [os.path.join(r, f) for f in fs if f.endswith((".cpp", ".cc"))]
    for p in ("third_level_manager/*.cpp", "tests/*.cpp", "tools/*.cpp", "tools/*/*.cpp"):
        t += glob.glob(os.path.join(repo, p))
    # examples are parsed for the command sequences an application issues
    for p in ("examples/combi_example/*.cpp", "examples/combi_workers_only/*.cpp",
              "examples/distributed_advection/*.cpp", "examples/distributed_third_level/combi*.cpp"):
        t += glob.glob(os.path.join(repo, p))
    return sorted(set(x for x in t if not x.endswith("test_uftp.cpp")))


def flags(repo, debug):
    ompi = "/usr/lib/x86_64-linux-gnu/openmpi/include"
    f = ["-std=c++17"]
    if not debug:
        f.append("-DNDEBUG")
    f += ["-DDISCOTEC_USE_LZ4", "-DTIMING", "-DBOOST_SERIALIZATION_DYN_LINK",
          "-DBOOST_UNIT_TEST_FRAMEWORK_DYN_LINK", "-I" + os.path.join(VERIF, "extractor", "include"),
          "-I" + os.path.join(repo, "src"), "-I" + os.path.join(repo, "third_level_manager"),
          "-isystem", ompi, "-isystem", ompi + "/openmpi", "-fopenmp",
          "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w", "-ferror-limit=0"]
    return f


def _run(extractor, repo, fl, files, out):
    cmd = [extractor, out, repo.rstrip("/") + "/", "--"] + fl + ["--"] + files
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("extractor crashed on %s: %s" % (files, r.stderr[-2000:]))


def load(debug=False, repo=None):
    """-> raw dict of merged facts for the current working tree."""
    repo = repo or REPO
    ex = build_extractor()
    allsrc = source_files(repo)
    inst = os.path.join(VERIF, "extractor", "instantiate.cpp")
    key = _sha(allsrc + [ex, os.path.abspath(__file__), inst]) + ("d" if debug else "r")
    cp = os.path.join(CACHE, "facts-%s.pkl" % key)
    if os.path.exists(cp):
        try:
            with open(cp, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    fl = flags(repo, debug)
    files = tus(repo)
    if not files:
        raise AnalysisError("no translation units found under " + repo)
    # balance: big ones first, round robin over small batches
    files.sort(key=lambda p: (-("tests/" in p or "manager/" in p or "examples/" in p), p))
    nb = 16
    batches = [files[i::nb] for i in range(nb)]
    batches.append([inst])
    tmp = tempfile.mkdtemp(prefix="vf", dir=CACHE)
    try:
        outs = [os.path.join(tmp, "b%02d.jsonl" % i) for i in range(len(batches))]
        with ThreadPoolExecutor(8) as tp:
            list(tp.map(lambda a: _run(ex, repo, fl, a[0], a[1]), zip(batches, outs)))
        res = merge(outs, repo, inst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small
    old = sorted(glob.glob(os.path.join(CACHE, "facts-*.pkl")), key=os.path.getmtime)
    for p in old[:-5]:
        try:
            os.remove(p)
        except OSError:
            pass
    with open(cp + ".%d" % os.getpid(), "wb") as f:
        pickle.dump(res, f, protocol=4)
    os.replace(cp + ".%d" % os.getpid(), cp)
    return res


def merge(outs, repo, inst):
    fns, recs, enums, gvars, tmpls, tul, errs = {}, {}, {}, {}, {}, [], []
    for o in outs:
        with open(o) as f:
            for line in f:
                d = json.loads(line)
                k, v = d["K"], d["v"]
                if k == "fn":
                    fns.setdefault(v["key"], v)
                elif k == "rec":
                    recs.setdefault(("T:" if v["dep"] else "") + v["t"], v)
                elif k == "enum":
                    enums.setdefault((v["file"], v["l"]), v)
                elif k == "var":
                    gvars.setdefault((v["q"], v["t"], v["file"]), v)
                elif k == "tmpl":
                    tmpls[(v["file"], v["l"])] = v["q"]
                elif k == "tu":
                    tul.append(v["file"])
                    for m in v["msgs"]:
                        if not m.startswith(inst) and v["file"] != inst:
                            errs.append(m)
    if errs:
        raise AnalysisError("the tree does not parse: " + "; ".join(errs[:5]))
    return {"fns": fns, "recs": recs, "enums": list(enums.values()), "gvars": list(gvars.values()),
            "tmpls": tmpls, "tus": tul}
