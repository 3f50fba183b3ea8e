"""Abstract interpreter: executes the resolved AST over symbolic inputs and
builds the gated value graph (hv.graph).  Branches on undecided conditions are
executed on both sides and joined with ite nodes; nothing is ever run natively."""
from fractions import Fraction
import re
from . import graph as G
from .graph import N, tn
from . import consts


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f=None):
        self.cls = cls
        self.f = f if f is not None else {}

    def __repr__(self):
        return "Obj(%s)" % self.cls


class Mat:
    __slots__ = ("r", "c", "d")

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, d

    def at(self, i, j):
        return self.d[i * self.c + j]

    def __repr__(self):
        return "Mat(%d,%d,%r)" % (self.r, self.c, self.d)


class Arr:
    __slots__ = ("d", "kind")

    def __init__(self, d, kind="array"):
        self.d = d
        self.kind = kind

    def __repr__(self):
        return "Arr(%r)" % (self.d,)


class MapV:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Ref:
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k

    def same(self, o):
        return self.c is o.c and self.k == o.k

    def __repr__(self):
        return "Ref(%r,%r)" % (type(self.c).__name__, self.k)


class BlockRef:
    """reference to sub-block of a matrix: list of flat indices"""
    __slots__ = ("m", "idx", "r", "c")

    def __init__(self, m, idx, r, c):
        self.m, self.idx, self.r, self.c = m, idx, r, c


class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = tn(re), tn(im)


class Lam:
    __slots__ = ("node", "env", "this", "tu", "caps")

    def __init__(self, node, env, this, tu):
        self.node, self.env, self.this, self.tu = node, env, this, tu


class FnPtr:
    __slots__ = ("m", "qn")

    def __init__(self, qn, m):
        self.qn, self.m = qn, m


class Stream:
    __slots__ = ("name", "items")

    def __init__(self, name):
        self.name = name
        self.items = []


class Comma:
    __slots__ = ("m", "pos")

    def __init__(self, m):
        self.m, self.pos = m, 0


class Opq:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "Opq(%r)" % self.n


def copyv(v):
    if isinstance(v, Obj):
        return Obj(v.cls, {k: copyv(x) for k, x in v.f.items()})
    if isinstance(v, Mat):
        return Mat(v.r, v.c, list(v.d))
    if isinstance(v, Arr):
        return Arr([copyv(x) for x in v.d], v.kind)
    if isinstance(v, MapV):
        return MapV(dict(v.d))
    return v


_MATRE = re.compile(r"^Eigen::(Matrix|Array)<(double|int|std::complex<double>|bool|long double), (-?\d+), (-?\d+)")
_ARRRE = re.compile(r"^std::array<(.*), (\d+)>$")
_VECRE = re.compile(r"^std::vector<(.*?)(, std::allocator<.*>)?>$")
_CARRRE = re.compile(r"^(.*)\[(\d+)\]$")
_PERMRE = re.compile(r"^Eigen::PermutationMatrix<(\d+)")

SCALARS = {"double", "float", "int", "bool", "unsigned int", "long", "unsigned long", "short", "char",
           "long double", "unsigned char", "signed char", "long long", "unsigned long long"}
INTS = SCALARS - {"double", "float", "long double"}


# outcome trees:  N = normal leaf; ("b", cond, treeA, treeB); ("ret", v, delta); ("thr", v, delta);
# ("brk", delta); ("cnt", delta)
NRM = ("n",)


class Interp:
    def __init__(self, prog, opaque=None, decide=None, max_unroll=2000, intrinsics=None):
        self.p = prog
        self.trail = []
        self.opaque = opaque or (lambda f: False)
        self.decide_cb = decide
        self.max_unroll = max_unroll
        self.intr = intrinsics or {}
        self.globals = {}
        self.depth = 0
        self.memo = {}
        self.notes = []          # imprecision notes
        self.streams = {}
        self.calls = []          # (qn, args) of opaque calls, in order
        self.cond = []           # path condition stack
        self.throws = []
        self.fresh = 0
        self.funcs_seen = set()
        self.uninit_reads = []
        self.guards = []
        self.raw_literals = False
        self.keep_log1p = False    # rounding analysis: log1p(x) is not log(1 + x)
        self.on_construct = None   # hook(interp, Func, args) -> NotImplemented or value
        self.on_call = None      # hook(interp, Func, args, this) -> NotImplemented or value
        self.on_method = None    # hook(frame, qn, object, argument expressions, expression) for methods without a body
        self.keep_globals = set()

    # ------------------------------------------------------------------ heap
    def get(self, ref):
        c, k = ref.c, ref.k
        if isinstance(c, Cell):
            return c.v
        if isinstance(c, Obj):
            if k not in c.f:
                c.f[k] = G.var("uninit:%s.%s" % (c.cls, k))
            return c.f[k]
        if isinstance(c, (Mat, Arr)):
            return c.d[k]
        if isinstance(c, MapV):
            return c.d[k]
        if isinstance(c, BlockRef):
            return c.m.d[c.idx[k]]
        if isinstance(c, SelRef):
            return c.read(self)
        raise Unsupported("get %r" % (c,))

    def put(self, ref, v):
        c, k = ref.c, ref.k
        if isinstance(c, BlockRef):
            c, k = c.m, c.idx[k]
        if isinstance(c, SelRef):
            return c.write(self, v)
        if isinstance(c, Cell):
            old = c.v
            c.v = v
        elif isinstance(c, Obj):
            old = c.f.get(k, _MISSING)
            c.f[k] = v
        elif isinstance(c, (Mat, Arr)):
            old = c.d[k]
            c.d[k] = v
        elif isinstance(c, MapV):
            old = c.d.get(k, _MISSING)
            c.d[k] = v
        else:
            raise Unsupported("put %r" % (c,))
        self.trail.append((c, k, old))

    def _raw(self, c, k):
        if isinstance(c, Cell):
            return c.v
        if isinstance(c, Obj):
            return c.f.get(k, _MISSING)
        if isinstance(c, MapV):
            return c.d.get(k, _MISSING)
        return c.d[k]

    def _rawset(self, c, k, v):
        if isinstance(c, Cell):
            c.v = v
        elif isinstance(c, Obj):
            if v is _MISSING:
                c.f.pop(k, None)
            else:
                c.f[k] = v
        elif isinstance(c, MapV):
            if v is _MISSING:
                c.d.pop(k, None)
            else:
                c.d[k] = v
        else:
            c.d[k] = v

    def delta(self, mark):
        d = {}
        for c, k, _ in self.trail[mark:]:
            d[(id(c), k)] = (c, k)
        return {key: (c, k, self._raw(c, k)) for key, (c, k) in d.items()}

    def undo(self, mark):
        while len(self.trail) > mark:
            c, k, old = self.trail.pop()
            self._rawset(c, k, old)

    def apply(self, delta):
        for c, k, v in delta.values():
            self.trail.append((c, k, self._raw(c, k)))
            self._rawset(c, k, v)

    # ------------------------------------------------------------------ merging
    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, N) and a.op == "throw" and not isinstance(b, N):
            return b        # objects: path that threw has no value
        if isinstance(b, N) and b.op == "throw" and not isinstance(a, N):
            return a
        if a is _MISSING:
            return b
        if b is _MISSING:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, (N, int, bool, Fraction)) and isinstance(b, (N, int, bool, Fraction)):
            if isinstance(a, bool) and isinstance(b, bool):
                return G.lite(c, a, b)
            return G.ite(c, a, b)
        if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
            return Mat(a.r, a.c, [self.merge(c, x, y) for x, y in zip(a.d, b.d)])
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.d) == len(b.d):
            return Arr([self.merge(c, x, y) for x, y in zip(a.d, b.d)], a.kind)
        if isinstance(a, Obj) and isinstance(b, Obj):
            ks = list(a.f) + [k for k in b.f if k not in a.f]
            return Obj(a.cls, {k: self.merge(c, a.f.get(k, _MISSING), b.f.get(k, _MISSING)) for k in ks})
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = cx(a), cx(b)
            return Cx(G.ite(c, a.re, b.re), G.ite(c, a.im, b.im))
        if isinstance(a, str) and isinstance(b, str):
            if a == b:
                return a
            return G.ite(c, G.var("str:" + a), G.var("str:" + b))
        if isinstance(a, Stream) or isinstance(b, Stream):
            return a
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.same(b):
                return a
            return Ref(SelRef(c, a, b), None)
        def sc(x):
            if isinstance(x, str):
                return G.var("str:" + x)
            if isinstance(x, Opq):
                return x.n
            return x
        a2, b2 = sc(a), sc(b)
        if isinstance(a2, (N, int)) and isinstance(b2, (N, int)):
            return Opq(G.ite(c, a2, b2)) if isinstance(a, Opq) or isinstance(b, Opq) else G.ite(c, a2, b2)
        if isinstance(a, Mat) or isinstance(b, Mat):
            m = a if isinstance(a, Mat) else b
            return self.merge(c, self.tomat(a, m.r, m.c), self.tomat(b, m.r, m.c))
        self.notes.append("merge %r %r" % (type(a), type(b)))
        return a

    def tomat(self, v, r=None, c=None):
        if isinstance(v, Mat):
            return v
        if isinstance(v, BlockRef):
            return Mat(v.r, v.c, [v.m.d[i] for i in v.idx])
        if isinstance(v, Opq) and r:
            return Mat(r, c, [G.fn("elem", v.n, G.const(i)) for i in range(r * c)])
        if isinstance(v, N) and r:
            return Mat(r, c, [G.fn("elem", v, G.const(i)) for i in range(r * c)])
        raise Unsupported("tomat %r" % (v,))

    def leaves(self, t, path=()):
        """(conds, leaf)"""
        if t[0] == "b":
            yield from self.leaves(t[2], path + (t[1],))
            yield from self.leaves(t[3], path + (G.lnot(t[1]),))
        else:
            yield path, t

    def subst(self, t, r):
        """replace normal leaves by r"""
        if t is NRM:
            return r
        if r is NRM:
            return t
        if t[0] == "b":
            return ("b", t[1], self.subst(t[2], r), self.subst(t[3], r))
        return t

    def has(self, t, kind):
        if t[0] == "b":
            return self.has(t[2], kind) or self.has(t[3], kind)
        return t[0] == kind

    def foldval(self, t, f):
        """fold outcome tree with f(leaf)->value or _SKIP"""
        if t[0] == "b":
            a = self.foldval(t[2], f)
            b = self.foldval(t[3], f)
            if a is _SKIP:
                return b
            if b is _SKIP:
                return a
            return self.merge(t[1], a, b)
        return f(t)

    # ------------------------------------------------------------------ decisions
    def decide(self, c):
        c = G.tobool(c)
        if isinstance(c, bool):
            return c
        if not isinstance(c, N):
            return c
        for pc in reversed(self.cond):
            if pc is c:
                return True
            if (pc.op == "not" and pc.a[0] is c) or (c.op == "not" and c.a[0] is pc):
                return False
        if self.decide_cb is not None:
            r = self.decide_cb(c)
            if r is not None:
                return r
            if c.op in ("and", "or"):
                x, y = self.decide(c.a[0]), self.decide(c.a[1])
                r = G.land(x, y) if c.op == "and" else G.lor(x, y)
                if isinstance(r, bool):
                    return r
            if c.op == "not":
                r = self.decide(c.a[0])
                if isinstance(r, bool):
                    return not r
        return c

    # ------------------------------------------------------------------ types / defaults
    def default(self, ty, tag, zero=False):
        if ty in SCALARS:
            if zero:
                return 0 if ty in INTS else G.ZERO
            return G.var("uninit:" + tag)
        m = _MATRE.match(ty)
        if m:
            r, c = int(m.group(3)), int(m.group(4))
            if r < 0 or c < 0:
                return Opq(G.var("dyn:" + tag))
            z = G.ZERO if m.group(2) != "int" else 0
            if m.group(2).startswith("std::complex"):
                return Mat(r, c, [Cx(G.ZERO, G.ZERO) if zero else Cx(G.var("uninit:%s[%d].re" % (tag, i)), G.var("uninit:%s[%d].im" % (tag, i))) for i in range(r * c)])
            return Mat(r, c, [z if zero else G.var("uninit:%s[%d]" % (tag, i)) for i in range(r * c)])
        m = _ARRRE.match(ty) or _CARRRE.match(ty)
        if m:
            return Arr([self.default(m.group(1).strip(), "%s[%d]" % (tag, i), zero) for i in range(int(m.group(2)))])
        m = _VECRE.match(ty)
        if m:
            return Arr([], "vector")
        if ty.startswith("std::complex"):
            return Cx(G.ZERO, G.ZERO)
        if ty.startswith("std::tuple<") or ty.startswith("std::pair<"):
            return Arr([self.default(t, "%s<%d>" % (tag, i), True) for i, t in enumerate(split_targs(ty))], "tuple")
        m = _PERMRE.match(ty)
        if m:
            n = int(m.group(1))
            return Obj("perm", {"idx": Mat(n, 1, list(range(n)))})
        if ty.startswith("std::map<") or ty.startswith("std::unordered_map<"):
            return MapV({})
        if ty in self.p.rec_by_type:
            r = self.p.rec_by_type[ty]
            return self.new_obj(r, tag, zero)
        if "basic_string" in ty and "stream" not in ty:
            return ""
        if "stream" in ty:
            return Stream(tag)
        if ty in self.p.enums:
            return 0 if zero else G.var("uninit:" + tag)
        return Opq(G.var("uninit:" + tag))

    def new_obj(self, r, tag, zero=False):
        o = Obj(r["qn"])
        tu = r["tu"]
        for name, ty, line, flags, init, acc in r["fields"]:
            if init is not None:
                o.f[name] = self.val_init(init, tu, o, tu.types[ty])
            else:
                o.f[name] = self.default(tu.types[ty], tag + "." + name, zero)
        return o

    def val_init(self, e, tu, this, ty):
        fr = Frame(self, tu, {}, this, None)
        v = fr.rv(e)
        return fr.coerce(v, ty, "init")

    def sym(self, ty, tag):
        """symbolic value of a type, leaves are variables tag..."""
        if ty in SCALARS:
            return G.var(tag)
        m = _MATRE.match(ty)
        if m:
            r, c = int(m.group(3)), int(m.group(4))
            if m.group(2).startswith("std::complex"):
                return Mat(r, c, [Cx(G.var("%s(%d,%d).re" % (tag, i, j)), G.var("%s(%d,%d).im" % (tag, i, j))) for i in range(r) for j in range(c)])
            if c == 1:
                return Mat(r, c, [G.var("%s(%d)" % (tag, i)) for i in range(r)])
            return Mat(r, c, [G.var("%s(%d,%d)" % (tag, i, j)) for i in range(r) for j in range(c)])
        m = _ARRRE.match(ty) or _CARRRE.match(ty)
        if m:
            return Arr([self.sym(m.group(1).strip(), "%s[%d]" % (tag, i)) for i in range(int(m.group(2)))])
        if ty in self.p.rec_by_type:
            r = self.p.rec_by_type[ty]
            o = Obj(r["qn"])
            for name, t, *_ in r["fields"]:
                o.f[name] = self.sym(r["tu"].types[t], tag + "." + name)
            return o
        if ty.startswith("std::complex"):
            return Cx(G.var(tag + ".re"), G.var(tag + ".im"))
        if ty.startswith("std::tuple<"):
            return Arr([self.sym(t, "%s<%d>" % (tag, i)) for i, t in enumerate(split_targs(ty))], "tuple")
        if ty in self.p.enums:
            return G.var(tag)
        if "stream" in ty:
            return Stream(tag)
        if "basic_string" in ty:
            return G.var(tag)
        return Opq(G.var(tag))

    def shaped(self, ty, base, args):
        """value of type ty whose scalar leaves are uninterpreted functions of args"""
        cnt = [0]

        def leaf():
            i = cnt[0]
            cnt[0] += 1
            return G.fn(base + ("#%d" % i if i else ""), *args)

        def go(t):
            if t in SCALARS:
                return leaf()
            m = _MATRE.match(t)
            if m:
                r, c = int(m.group(3)), int(m.group(4))
                if r > 0 and c > 0:
                    if m.group(2).startswith("std::complex"):
                        return Mat(r, c, [Cx(leaf(), leaf()) for _ in range(r * c)])
                    return Mat(r, c, [leaf() for _ in range(r * c)])
                return Opq(leaf())
            m = _ARRRE.match(t) or _CARRRE.match(t)
            if m:
                return Arr([go(m.group(1).strip()) for _ in range(int(m.group(2)))])
            if t.startswith("std::complex"):
                return Cx(leaf(), leaf())
            if t.startswith("std::tuple<") or t.startswith("std::pair<"):
                return Arr([go(x) for x in split_targs(t)], "tuple")
            if t in self.p.rec_by_type:
                r = self.p.rec_by_type[t]
                o = Obj(r["qn"])
                for name, ft, *_ in r["fields"]:
                    o.f[name] = go(r["tu"].types[ft])
                return o
            return Opq(leaf()) if t not in self.p.enums else leaf()

        return go(ty)

    # ------------------------------------------------------------------ calls
    def flat(self, v, out):
        """flatten a value to scalar nodes"""
        if isinstance(v, (N, int, bool, Fraction)):
            out.append(tn(v))
        elif isinstance(v, (Mat, Arr)):
            for x in v.d:
                self.flat(x, out)
        elif isinstance(v, Obj):
            for k in sorted(v.f):
                self.flat(v.f[k], out)
        elif isinstance(v, Ref):
            self.flat(self.get(v), out)
        elif isinstance(v, BlockRef):
            self.flat(self.tomat(v), out)
        elif isinstance(v, Cx):
            out.append(v.re)
            out.append(v.im)
        elif isinstance(v, Opq):
            out.append(v.n)
        elif isinstance(v, str):
            out.append(G.var("str:" + v))
        elif isinstance(v, MapV):
            for k in sorted(v.d, key=str):
                self.flat(v.d[k], out)
        elif isinstance(v, Lam):
            out.append(G.var("lambda"))
        return out

    def call(self, f, args, this=None):
        """interpret function f (Func) with argument values (Ref for reference params allowed)"""
        if self.on_call is not None:
            r = self.on_call(self, f, args, this)
            if r is not NotImplemented:
                return r
        if self.depth > 60:
            raise Unsupported("recursion depth in " + f.qn)
        key = None
        if this is None and all(isinstance(a, (N, int, bool)) for a in args) and f.ret() in SCALARS:
            key = (f.m, tuple(a.id if isinstance(a, N) else (type(a).__name__, a) for a in args))
            if self.decide_cb is not None or self.cond:
                key = key + tuple(c.id for c in self.cond)
            if key in self.memo:
                return self.memo[key]
        self.funcs_seen.add(f.m)
        env = {}
        fr = Frame(self, f.tu, env, this, f)
        for prm, a in zip(f.params, args):
            pid, name, ty, line, flags, _ = prm
            if "&" in flags:
                if isinstance(a, (Ref, BlockRef)):
                    env[pid] = a
                else:
                    env[pid] = Ref(Cell(a), 0)
            else:
                v = a
                if isinstance(v, Ref):
                    v = self.get(v)
                v = fr.coerce(v, f.tu.types[ty], name)
                env[pid] = Ref(Cell(copyv(v)), 0)
        self.depth += 1
        save = G.cur_loc[0]
        try:
            r = fr.run()
        finally:
            self.depth -= 1
            G.cur_loc[0] = save
        if key is not None:
            self.memo[key] = r
        return r

    def construct(self, f, args, tag=""):
        """run constructor f; returns new Obj"""
        if self.on_construct is not None:
            r = self.on_construct(self, f, args)
            if r is not NotImplemented:
                return r
        rec = self.p.records.get(f.d["cls"])
        o = Obj(f.d["cls"])
        if f.d["defaulted"] and f.body is None or (f.d["defaulted"] and f.body and not f.d.get("inits")):
            return self.new_obj(rec, tag or f.d["cls"])
        written = {}
        for nm, e, w in f.d.get("inits") or []:
            written[nm] = e
        if rec:
            for name, ty, line, flags, init, acc in rec["fields"]:
                o.f[name] = self.default(rec["tu"].types[ty], f.d["cls"] + "." + name)
        env = {}
        fr = Frame(self, f.tu, env, o, f)
        for prm, a in zip(f.params, args):
            pid, name, ty, line, flags, _ = prm
            if "&" in flags:
                env[pid] = a if isinstance(a, (Ref, BlockRef)) else Ref(Cell(a), 0)
            else:
                v = self.get(a) if isinstance(a, Ref) else a
                env[pid] = Ref(Cell(copyv(fr.coerce(v, f.tu.types[ty], name))), 0)
        if "<delegate>" in written:
            v = fr.rv(written["<delegate>"])
            o.f = v.f
        else:
            for nm, e, w in f.d.get("inits") or []:
                if nm.startswith("<"):
                    fr.rv(e)
                    continue
                fty = None
                fflags = ""
                for name, ty, line, flags, init, acc in rec["fields"]:
                    if name == nm:
                        fty = rec["tu"].types[ty]
                        fflags = flags
                if "&" in fflags:
                    o.f[nm] = fr.lv(e)
                else:
                    v = fr.coerce(fr.rv(e), fty, "%s.%s" % (f.d["cls"], nm))
                    o.f[nm] = copyv(v)
        self.depth += 1
        try:
            fr.run()
        finally:
            self.depth -= 1
        self.funcs_seen.add(f.m)
        return o


class SelRef:
    """conditional reference"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, I):
        return I.merge(self.c, I.get(self.a), I.get(self.b))

    def write(self, I, v):
        I.put(self.a, I.merge(self.c, v, I.get(self.a)))
        I.put(self.b, I.merge(self.c, I.get(self.b), v))


class _M:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


_MISSING = _M("missing")
_SKIP = _M("skip")


def split_targs(ty):
    s = ty[ty.index("<") + 1:ty.rindex(">")]
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return [o.rstrip("& ").strip() for o in out]


def cx(v):
    if isinstance(v, Cx):
        return v
    return Cx(tn(v), G.ZERO)


def isscalar(v):
    return isinstance(v, (N, int, bool, Fraction))


def s_add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(G.add(a.re, b.re), G.add(a.im, b.im))
    if not isinstance(a, N) and not isinstance(b, N):
        return a + b
    return G.add(a, b)


def s_neg(a):
    if isinstance(a, Cx):
        return Cx(G.neg(a.re), G.neg(a.im))
    if not isinstance(a, N):
        return -a
    return G.neg(a)


def s_sub(a, b):
    return s_add(a, s_neg(b))


def s_mul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(G.sub(G.mul(a.re, b.re), G.mul(a.im, b.im)), G.add(G.mul(a.re, b.im), G.mul(a.im, b.re)))
    if not isinstance(a, N) and not isinstance(b, N):
        return a * b
    return G.mul(a, b)


def s_div(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        d = G.add(G.mul(b.re, b.re), G.mul(b.im, b.im))
        nr = G.add(G.mul(a.re, b.re), G.mul(a.im, b.im))
        ni = G.sub(G.mul(a.im, b.re), G.mul(a.re, b.im))
        if b.im is G.ZERO:
            return Cx(G.div(a.re, b.re), G.div(a.im, b.re))
        return Cx(G.div(nr, d), G.div(ni, d))
    return G.div(a, b)


from .frame import Frame  # noqa: E402  (statement / expression evaluation)
