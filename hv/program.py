"""Front end driver: builds the clang tool, dumps every translation unit of the
current working tree of /repo and merges them into one resolved program."""
import hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """the analysis cannot see what it must see: neither pass nor violation"""


def tool():
    src = os.path.join(VERIF, "tool", "hdump.cpp")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "hdump-" + key)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".tmp%d" % os.getpid()
    cxx = "/usr/bin/clang++-18"
    cmd = [cxx, "-O1", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build front end:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def sources(repo=None):
    repo = repo or REPO
    out = []
    for d, _, fs in os.walk(os.path.join(repo, "source")):
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc", ".cxx")):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256(open(os.path.join(VERIF, "tool", "hdump.cpp"), "rb").read())
    for top in ("source", "include"):
        for d, ds, fs in sorted(os.walk(os.path.join(repo, top))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(b"\0")
                h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:24]


def dump_tu(src, outdir, repo):
    out = os.path.join(outdir, os.path.relpath(src, repo).replace("/", "__") + ".json")
    if os.path.exists(out):
        return out
    flags = ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(repo, "source"),
             "-I/usr/include/eigen3", "-std=c++14", "-UNDEBUG", "-w",
             "-resource-dir", LLVM + "/lib/clang/18"]
    if "LibraryLink" in src:
        flags.append("-I" + os.path.join(VERIF, "stubs"))
        for v in ("MAJOR", "MINOR", "RELEASE"):
            flags.append("-DHimalaya_VERSION_%s=0" % v)
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run([tool(), repo.rstrip("/") + "/", tmp, src, "--"] + flags,
                       capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(tmp):
        raise AnalysisBroken("cannot parse %s:\n%s" % (src, r.stderr[-3000:]))
    os.replace(tmp, out)
    return out


class TU:
    def __init__(self, path, d):
        self.path = path
        self.types = d["types"]
        self.files = d["files"]
        self.funcs = d["funcs"]
        self.records = d["records"]
        self.enums = d["enums"]
        self.globals = d["globals"]


class Func:
    __slots__ = ("tu", "d", "qn", "m", "params", "body")

    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.qn = d["qn"]
        self.m = d["m"]
        self.params = d["params"]
        self.body = d["body"]

    @property
    def file(self):
        return self.tu.files[self.d["file"]]

    @property
    def line(self):
        return self.d["line"]

    def where(self):
        return "%s:%d (%s)" % (rel(self.file), self.line, self.qn)

    def ret(self):
        return self.tu.types[self.d["ret"]]


def rel(p):
    return os.path.relpath(p, REPO) if p and p.startswith(REPO) else p


class Program:
    def __init__(self, only=None, repo=None):
        """only: optional predicate on the source path"""
        t0 = time.time()
        self.repo = repo or REPO
        cache = os.path.join(BUILD, "dump", tree_hash(self.repo))
        os.makedirs(cache, exist_ok=True)
        self._prune(os.path.dirname(cache), cache)
        tool()
        if only is None:
            only = lambda s: "LibraryLink" not in s
        srcs = [s for s in sources(self.repo) if only(s)]
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda s: dump_tu(s, cache, self.repo), srcs))
        self.tus = []
        for s, o in zip(srcs, outs):
            with open(o) as f:
                self.tus.append(TU(s, json.load(f)))
        self.funcs = {}      # mangled -> Func with body
        self.decls = {}      # mangled -> Func (any)
        self.by_qn = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.rec_by_type = {}
        for tu in self.tus:
            for d in tu.funcs:
                f = Func(tu, d)
                key = f.m
                self.decls.setdefault(key, f)
                if f.body is not None or f.d["kind"] == "ctor" and f.d["def"]:
                    if key not in self.funcs:
                        self.funcs[key] = f
                        self.by_qn.setdefault(f.qn, []).append(f)
            for r in tu.records:
                r["tu"] = tu
                self.records.setdefault(r["qn"], r)
                self.rec_by_type.setdefault(tu.types[r["type"]], r)
            for e in tu.enums:
                e["tu"] = tu
                self.enums.setdefault(e["qn"], e)
            for g in tu.globals:
                g["tu"] = tu
                self.globals.setdefault((g["qn"], tu.files[g["file"]]), g)
        self.load_s = time.time() - t0

    @staticmethod
    def _prune(root, keep):
        try:
            ds = sorted((os.path.getmtime(os.path.join(root, d)), d) for d in os.listdir(root))
            import shutil
            for _, d in ds[:-6]:
                p = os.path.join(root, d)
                if p != keep:
                    shutil.rmtree(p, ignore_errors=True)
        except OSError:
            pass

    def fn(self, qn, nparams=None, pred=None):
        c = [f for f in self.by_qn.get(qn, []) if (nparams is None or len(f.params) == nparams)
             and (pred is None or pred(f))]
        if len(c) != 1:
            raise AnalysisBroken("anchor %s: %d candidates" % (qn, len(c)))
        return c[0]

    def global_init(self, qn):
        return [g for (q, _), g in self.globals.items() if q == qn]
