"""Builds the AST extractor, parses every translation unit of /repo's *current*
working tree with it and returns the merged resolved program (see program.py).

Everything is cached by content hash (sources + extractor + flags), so twenty
checks run after one another parse the tree once; a changed tree is always
parsed again.  Nothing of /repo is executed or written."""
import fcntl, glob, hashlib, json, os, pickle, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LDT_REPO", "/repo")
CACHE = os.environ.get("LDT_VERIF_CACHE", os.path.join(VERIF, ".cache"))
SRC = os.path.join(VERIF, "tool", "extract.cpp")


class AnalysisError(Exception):
    """The analysis could not be carried out (missing anchor, parse failure)."""


# sources that the build does not compile into anything
NOT_BUILT = {
    "src/api.cpp",                                   # LITE build only
    "src/ldt_statistics/distributions/mnormal.cpp",
    "src/ldt_statistics/modeling/time_series/expsmoothing.cpp",
    "src/ldt_statistics/modeling/time_series/tsfilter.cpp",
    "src/matrix/matrix_la.cpp",                      # #included by matrix.cpp
}
INC = ["include", "include/math", "include/blas", "include/math/statistics",
       "include/math/statistics/inference", "include/math/statistics/inference/models"]
COMMON = ["-DUSE_BOOST", "-Dldt_EXPORTS", "-DNDEBUG", "-fopenmp", "-w",
          "-ferror-limit=50"]


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def llvm_dir():
    for d in sorted(glob.glob("/usr/lib/llvm-*"), reverse=True):
        if os.path.isdir(d + "/include/clang/AST") and glob.glob(d + "/lib/libclang-cpp.so*"):
            return d
    raise AnalysisError("clang development files not found under /usr/lib/llvm-*")


def build_extractor():
    os.makedirs(CACHE, exist_ok=True)
    h = hashlib.sha256(open(SRC, "rb").read()).hexdigest()[:16]
    exe = os.path.join(CACHE, "extract-" + h)
    if os.path.exists(exe):
        return exe
    d = llvm_dir()
    so = os.path.basename(sorted(glob.glob(d + "/lib/libclang-cpp.so*"))[0])
    llvm = os.path.basename(sorted(glob.glob(d + "/lib/libLLVM-*.so"))[0])
    tmp = exe + ".%d" % os.getpid()
    r = _sh(["g++", "-std=c++17", "-O1", "-fno-rtti", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
             "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I" + d + "/include", SRC,
             "-o", tmp, "-L" + d + "/lib", "-l:" + so, "-l:" + llvm, "-Wl,-rpath," + d + "/lib"])
    if r.returncode:
        raise AnalysisError("extractor does not build:\n" + r.stdout[-3000:])
    os.rename(tmp, exe)
    return exe


def source_list():
    """(relative path, kind) of every TU the product is built from."""
    tus = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            p = os.path.relpath(os.path.join(root, f), REPO)
            if p in NOT_BUILT:
                continue
            if f.endswith(".cpp"):
                tus.append((p, "cpp"))
            elif f.endswith(".c"):
                tus.append((p, "c"))
    for d in ("Rpackage/src", "Rpackage_F/src"):
        for p in sorted(glob.glob(os.path.join(REPO, d, "r_*.cpp"))):
            tus.append((os.path.relpath(p, REPO), "r"))
    return sorted(tus)


def all_inputs():
    """every file the parse reads from the repository (headers included)."""
    out = []
    for d in ("src", "include"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    for d in ("Rpackage/src", "Rpackage_F/src"):
        for p in glob.glob(os.path.join(REPO, d, "r_*")):
            out.append(os.path.relpath(p, REPO))
    return sorted(out)


def tree_hash(files, extra=b""):
    h = hashlib.sha256()
    h.update(open(SRC, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(extra)
    for p in files:
        h.update(p.encode() + b"\0")
        with open(os.path.join(REPO, p), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def load_raw():
    """merged raw extraction: dict(funcs, records, enums, globals, files, tus)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _load_raw()


def _load_raw():
    exe = build_extractor()
    files = all_inputs()
    if not files:
        raise AnalysisError("no sources under " + REPO)
    key = tree_hash(files)
    pk = os.path.join(CACHE, "prog-%s.pickle" % key)
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    scratch = tempfile.mkdtemp(prefix="ldt-verif-")
    try:
        # A copy without the stale header copies that cmake leaves in Rpackage*/src.
        root = os.path.join(scratch, "r")
        for p in files:
            q = os.path.join(root, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, p), q)
        inc = ["-I" + os.path.join(root, i) for i in INC]
        inc += ["-idirafter", os.path.join(VERIF, "tool", "shim")]
        rinc = ["-I/usr/share/R/include"]
        for c in ("/usr/lib/R/site-library", "/usr/local/lib/R/site-library", "/usr/lib/R/library"):
            for pkg in ("Rcpp", "BH"):
                if os.path.isdir(os.path.join(c, pkg, "include")):
                    rinc.append("-I" + os.path.join(c, pkg, "include"))
        d = llvm_dir()
        res = sorted(glob.glob(d + "/lib/clang/*"))
        tus = source_list()

        def one(i_tu):
            i, (p, kind) = i_tu
            out = os.path.join(scratch, "o%d.json" % i)
            fl = (["-std=gnu11", "-x", "c"] if kind == "c" else ["-std=c++17"]) + COMMON + inc
            if kind == "r":
                fl += ["-I" + os.path.dirname(os.path.join(root, p))] + rinc
            if res:
                fl += ["-resource-dir", res[-1]]
            r = _sh([exe, out, os.path.join(root, p), root + "/", "--"] + fl)
            if r.returncode or not os.path.exists(out):
                return p, None, r.stdout[-3000:]
            with open(out) as f:
                t = f.read()
            t = t.replace(root + "/", "")
            return p, json.loads(t), r.stdout

        funcs, records, enums, globs, allfiles = {}, {}, {}, {}, set()
        with ThreadPoolExecutor(8) as tp:
            for p, j, log in tp.map(one, enumerate(tus)):
                if j is None or j.get("errors"):
                    raise AnalysisError("%s does not parse:\n%s" % (p, log))
                allfiles.update(j["files"])
                for f in j["funcs"]:
                    k = f["f"]
                    if k in funcs and (funcs[k]["file"], funcs[k]["l"]) != (f["file"], f["l"]):
                        k = k + "@" + f["file"]
                        f["f"] = k
                    f["tu"] = p
                    funcs.setdefault(k, f)
                for r in j["records"]:
                    records.setdefault(r["n"], r)
                for e in j["enums"]:
                    enums.setdefault(e["n"], e)
                for g in j["globals"]:
                    globs.setdefault((g["q"], g["file"], g["l"]), g)
        raw = dict(funcs=funcs, records=records, enums=enums, globals=list(globs.values()),
                   files=sorted(allfiles), tus=[t[0] for t in tus], hash=key)
        for old in glob.glob(os.path.join(CACHE, "prog-*.pickle")):
            if len(glob.glob(os.path.join(CACHE, "prog-*.pickle"))) > 6:
                os.remove(old)
        tmp = pk + ".%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(raw, f, protocol=4)
        os.rename(tmp, pk)
        return raw
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    r = load_raw()
    print("extractor + program ready:", len(r["funcs"]), "functions,", len(r["tus"]), "translation units")
