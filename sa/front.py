"""Front end: builds the clang-based dumper, parses every source of /repo and merges
the resolved syntax trees into one Program."""
import glob, hashlib, json, os, pickle, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """The analysis itself cannot give an answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool():
    src = os.path.join(VERIF, "tool", "astdump.cpp")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "astdump-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        cxx = next((c for c in (LLVM + "/bin/clang++", "/usr/bin/g++") if os.path.exists(c)), "c++")
        r = sh([cxx, "-O1", "-DNDEBUG", "-std=c++17", "-fno-rtti", "-D_GNU_SOURCE", "-I" + LLVM + "/include",
                src, "-o", tmp, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1"])
        if r.returncode:
            raise Broken("cannot build astdump:\n" + r.stderr[-3000:])
        os.replace(tmp, out)
    return out


def flags():
    res = sh([LLVM + "/bin/clang", "-print-resource-dir"]).stdout.strip()
    return ["-I" + REPO + "/include", "-I" + VERIF + "/stubs", "-I/usr/include/mfem", "-I/usr/include/hypre",
            "-I/usr/include/hdf5/serial",
            "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
            "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
            "-w", "-std=gnu++14", "-resource-dir=" + res, "-ferror-limit=0"]


def sources():
    s = []
    for d in ("src", "bin", "utils"):
        s += sorted(glob.glob("%s/%s/*.cpp" % (REPO, d)))
    return s


LIBROM = re.compile(r"(librom\.h|linalg/\w+\.h|utils/\w+\.h|mfem/Utilities\.hpp)$")
INC = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)


def needs_librom(path, seen=None):
    """Does a source include a libROM header (directly or not)? linalg_utils is built without."""
    seen = set() if seen is None else seen
    if path in seen or os.path.basename(path).startswith("linalg_utils"):
        return False
    seen.add(path)
    for inc in INC.findall(open(path, errors="replace").read()):
        for base in (os.path.dirname(path), REPO + "/include"):
            c = os.path.normpath(os.path.join(base, inc))
            if os.path.isfile(c):
                if needs_librom(c, seen):
                    return True
                break
        else:
            if LIBROM.match(inc):
                return True
    return False


def P_rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + "/") else path


def digest():
    h = hashlib.sha1()
    fs = [os.path.join(VERIF, "tool", "astdump.cpp"), os.path.join(HERE, "front.py")]
    fs += sorted(glob.glob(VERIF + "/stubs/**/*.h*", recursive=True))
    for d in ("src", "bin", "utils", "include"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            fs += [os.path.join(root, f) for f in sorted(files)]
    for f in fs:
        h.update(P_rel(f).encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


class Program:
    def __init__(self):
        self.funcs = []        # all non-dependent function definitions
        self.templates = []    # dependent patterns
        self.by_key = {}       # (id, type) -> func
        self.by_name = {}      # qualified name -> [func]
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.units = []

    def rel(self, path):
        return path[len(REPO) + 1:] if path.startswith(REPO + "/") else path

    def callee(self, e):
        """The /repo definition a call/ctor expression resolves to (statically), or None."""
        c = e.get("cid")
        if c is None:
            return None
        return self.by_key.get((c, e.get("cty")))


def load(quiet=False):
    os.makedirs(BUILD, exist_ok=True)
    key = digest()
    cache = os.path.join(BUILD, "ast-" + key + ".pickle")
    if os.path.exists(cache):
        try:
            with open(cache, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    t, fl, srcs = tool(), flags(), sources()

    tuc = os.path.join(BUILD, "tu")
    os.makedirs(tuc, exist_ok=True)
    base = hashlib.sha1((t + " ".join(x.replace(REPO, "@") for x in fl)).encode())
    for f in sorted(glob.glob(VERIF + "/stubs/**/*.h*", recursive=True) + glob.glob(REPO + "/**/*.h*", recursive=True)):
        if os.path.isfile(f) and "/_build/" not in f:
            base.update(P_rel(f).encode() + b"\0" + open(f, "rb").read())

    def one(s):
        h = base.copy()
        h.update(P_rel(s).encode() + b"\0" + open(s, "rb").read())
        c = os.path.join(tuc, h.hexdigest()[:24])
        if os.path.exists(c):
            try:
                with open(c, "rb") as f:
                    return s, pickle.load(f)
            except Exception:
                pass
        r = sh([t, "--root=" + REPO + "/", s, "--"] + fl)
        if not r.stdout.strip():
            raise Broken("cannot parse %s:\n%s" % (s, r.stderr[-2000:]))
        d = json.loads(r.stdout)
        if d["errors"] and not needs_librom(s):
            raise Broken("%d error(s) in %s:\n%s" % (d["errors"], s, r.stderr[-2000:]))
        for x in d["functions"] + d["records"]:
            x["file"] = P_rel(x["file"])
        tmp = c + ".%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(d, f, protocol=4)
        os.replace(tmp, c)
        return s, d

    P = Program()
    with ThreadPoolExecutor(8) as ex:
        for s, d in ex.map(one, srcs):
            P.units.append(P.rel(s))
            for f in d["functions"]:
                if f["dependent"]:
                    P.templates.append(f)
                    continue
                k = (f["id"], f["type"])
                f["unit"] = P.rel(s)
                f["file"] = P.rel(f["file"])
                if k in P.by_key and P.by_key[k].get("targs") == f.get("targs"):
                    continue
                if f["name"] == "main":
                    k = (f["id"] + s, f["type"])
                P.by_key[k] = f
                P.funcs.append(f)
                P.by_name.setdefault(f["name"], []).append(f)
            for r in d["records"]:
                if not r["dependent"]:
                    r["file"] = P.rel(r["file"])
                    P.records.setdefault(r["name"], r)
            for e in d["enums"]:
                P.enums.setdefault(e["name"], e)
            for g in d["globals"]:
                if g.get("def") or g["q"] not in P.globals:
                    P.globals[g["q"]] = g
    # template patterns: keep only those with no instantiation anywhere
    inst = {f.get("pat") for f in P.funcs}
    seen, tm = set(), []
    for f in P.templates:
        if f["id"] not in inst and (f["id"], f["type"]) not in seen:
            seen.add((f["id"], f["type"]))
            f["file"] = P.rel(f["file"])
            tm.append(f)
    P.templates = tm
    def mtime(p):
        try:
            return os.path.getmtime(p)
        except OSError:
            return 0
    for old in sorted(glob.glob(BUILD + "/ast-*.pickle"), key=mtime)[:-8] + \
            sorted(glob.glob(BUILD + "/tu/*"), key=mtime)[:-400]:
        try:
            os.remove(old)
        except OSError:
            pass
    tmp = cache + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(P, f, protocol=4)
    os.replace(tmp, cache)
    return P


if __name__ == "__main__":
    import time
    t = time.time()
    P = load()
    print("units %d, functions %d, uninstantiated templates %d, classes %d (%.1fs)" %
          (len(P.units), len(P.funcs), len(P.templates), len(P.records), time.time() - t))
