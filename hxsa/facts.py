"""Extraction of the resolved program from /repo's current working tree.

The sources that make up the library are found from the CMakeLists.txt files
below /repo/src (never from a list kept here); every one is parsed by
frontend/hxfacts (clang's own AST and CFG) and the per-unit facts are merged.
"""
import hashlib, json, os, pickle, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HXSA_REPO", "/repo")
FRONTEND = os.path.join(VERIF, "frontend", "hxfacts")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (exit status 2)."""


def sources(repo):
    out = []
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        if "CMakeLists.txt" in fs:
            txt = open(os.path.join(d, "CMakeLists.txt")).read()
            txt = re.sub(r"#.*", "", txt)
            for m in re.findall(r"[\w./+-]+\.(?:cpp|cc|c)\b", re.sub(r"\$\{\w+\}/?", "", txt)):
                p = os.path.normpath(os.path.join(d, m))
                if os.path.exists(p) and p not in out:
                    out.append(p)
    # backends that need a library which is not installed are not built
    have_thallium = any(os.path.exists(p) for p in ("/usr/include/thallium.hpp", "/usr/local/include/thallium.hpp"))
    if not have_thallium:
        out = [p for p in out if "/Thallium/" not in p]
    if len(out) < 5:
        raise AnalysisBroken("found only %d library sources under %s/src" % (len(out), repo))
    return sorted(out)


def flags(repo):
    f = ["-std=c++17", "-DDEBUG", "-DSYSTEM_BIG_ENDIAN=0"]
    if os.path.exists("/usr/include/leveldb/db.h"):
        f.append("-DHXHIM_HAVE_LEVELDB=1")
    if os.path.exists("/usr/include/rocksdb/db.h"):
        f.append("-DHXHIM_HAVE_ROCKSDB=1")
    f.append("-I" + os.path.join(repo, "include"))
    for p in ("/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"):
        if os.path.isdir(p):
            f += ["-isystem", p]
    for v in ("11", "12", "13"):
        g = "/usr/lib/gcc/x86_64-linux-gnu/" + v
        if os.path.isdir(g) and os.path.isdir("/usr/include/c++/" + v):
            f.append("--gcc-install-dir=" + g)
            break
    return f


def tree_hash(repo):
    h = hashlib.sha256()
    for top in ("src", "include"):
        for d, ds, fs in os.walk(os.path.join(repo, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, repo).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for p in (FRONTEND, os.path.abspath(__file__)):
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repo.encode())
    return h.hexdigest()


def precompile(repo, fl, outdir):
    """every header of the tree, parsed once (speed only: a unit that does not
    parse on top of it is parsed on its own).  GCC-only repetitions of default
    template arguments are blanked in an overlay; sizes and columns stay."""
    h = os.path.join(outdir, "all.hpp")
    with open(h, "w") as f:
        for d, _, fs in os.walk(os.path.join(repo, "include")):
            if "Thallium" not in d:
                for n in sorted(fs):
                    if n.endswith(".hpp"):
                        f.write('#include "%s"\n' % os.path.join(d, n))
    blanks = os.path.join(outdir, "blanks")
    env = dict(os.environ, HXFACTS_DISCOVER="1", HXFACTS_PATCHED=os.path.join(outdir, "patched"))
    subprocess.run([FRONTEND, repo, blanks, h, "--"] + fl, capture_output=True, env=env)
    if not os.path.exists(blanks):
        return blanks, []
    files = {}
    for l in open(blanks):
        off, p = l.rstrip("\n").split(" ", 1)
        files[p] = None
    overlay = []
    if files:
        roots = []
        for n, p in enumerate(files):
            roots.append({"type": "file", "name": os.path.realpath(p), "external-contents": os.path.join(outdir, "patched.%d" % n)})
        y = os.path.join(outdir, "overlay.yaml")
        with open(y, "w") as f:
            json.dump({"version": 0, "case-sensitive": "true", "use-external-names": False, "roots": roots}, f)
        overlay = ["-ivfsoverlay", y]
    pch = os.path.join(outdir, "all.pch")
    p = subprocess.run(["clang++-18" if shutil.which("clang++-18") else "clang++", "-x", "c++-header", "-Xclang", "-fno-pch-timestamp", "-fpch-instantiate-templates"] + fl + overlay + [h, "-o", pch], capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(pch):
        return blanks, []
    return blanks, overlay + ["-include-pch", pch]


def run_frontend(repo, srcs, fl, outdir):
    blanks, pre = precompile(repo, fl, outdir)
    env = dict(os.environ, HXFACTS_BLANKS=blanks)

    def one(src):
        r = run1(src, pre)
        return r if r[1] or not pre else run1(src, [])

    def run1(src, pre):
        out = os.path.join(outdir, hashlib.sha1(src.encode()).hexdigest() + ".json")
        fs = [x for x in fl] + ([] if src.endswith(".c") else pre)
        if src.endswith(".c"):
            fs = [x for x in fs if not x.startswith("-std=")] + ["-std=gnu11"]
        p = subprocess.run([FRONTEND, repo, out, src, "--"] + fs, capture_output=True, text=True, env=None if pre and "-include-pch" in fs else env)
        if p.returncode != 0 or not os.path.exists(out):
            return src, None, (p.stderr or "")[-3000:]
        return src, out, ""
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return list(ex.map(one, srcs))


def ensure_frontend():
    if not os.path.exists(FRONTEND):
        subprocess.run(["make", "-s", "-C", os.path.dirname(FRONTEND)], check=True)


def load_raw(repo=None, extra=()):
    """-> dict(units=[...], funcs, records, enums, globals)"""
    repo = os.path.realpath(repo or REPO)
    ensure_frontend()
    key = tree_hash(repo)
    cdir = os.path.join(VERIF, ".cache")
    cpath = os.path.join(cdir, key + ".pickle")
    if os.path.exists(cpath) and not extra and not os.environ.get("HXSA_NOCACHE"):
        try:
            with open(cpath, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    srcs = sources(repo)
    fl = flags(repo)
    tmp = tempfile.mkdtemp(prefix="hxsa-")
    try:
        res = run_frontend(repo, srcs, fl, tmp)
        bad = [(s, e) for s, o, e in res if o is None]
        if bad:
            raise AnalysisBroken("the front end could not parse %s:\n%s" % (bad[0][0], bad[0][1]))
        raw = {"units": [os.path.relpath(s, repo) for s in srcs], "funcs": {}, "records": {}, "enums": {}, "globals": {}}
        for s, o, _ in res:
            with open(o) as f:
                d = json.load(f)
            unit = os.path.relpath(s, repo)
            for u, fn in d["funcs"].items():
                if u not in raw["funcs"] or ("blocks" in fn and "blocks" not in raw["funcs"][u]):
                    fn["unit"] = unit
                    raw["funcs"][u] = fn
            raw["records"].update(d["records"])
            raw["enums"].update(d["enums"])
            for u, g in d["globals"].items():
                if u not in raw["globals"] or ("init" in g and "init" not in raw["globals"][u]):
                    raw["globals"][u] = g
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        os.makedirs(cdir, exist_ok=True)
        for old in os.listdir(cdir):
            p = os.path.join(cdir, old)
            if len(os.listdir(cdir)) > 12:
                os.unlink(p)
        t = cpath + ".%d" % os.getpid()
        with open(t, "wb") as f:
            pickle.dump(raw, f, protocol=4)
        os.replace(t, cpath)
    except OSError:
        pass
    return raw


if __name__ == "__main__":
    r = load_raw(sys.argv[1] if len(sys.argv) > 1 else None)
    print(len(r["units"]), "units", {k: len(v) for k, v in r.items() if k != "units"})
