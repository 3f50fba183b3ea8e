"""Statement and expression evaluation for hv.interp."""
from fractions import Fraction
from . import graph as G
from .graph import N, tn
from . import consts
from .program import AnalysisBroken
from . import interp as I_
from .interp import (Obj, Mat, Arr, MapV, Cell, Ref, BlockRef, Cx, Lam, FnPtr, Stream, Comma, Opq, NRM,
                     Unsupported, _MATRE, _ARRRE, _CARRRE, _VECRE, SCALARS, INTS, cx, isscalar,
                     s_add, s_sub, s_mul, s_div, s_neg, split_targs)

_lc = {}


def _loc(f, l):
    k = (f, l)
    r = _lc.get(k)
    if r is None:
        r = _lc[k] = k
    return r


class Ptr:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


EPS = G.var("K:eps")
NAN = G.var("K:nan")
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^="}
CMPOPS = {"<", "<=", ">", ">=", "==", "!="}


class Frame:
    def __init__(self, I, tu, env, this, f):
        self.I = I
        self.tu = tu
        self.env = env
        self.this = this
        self.f = f
        self.file = f.file if f is not None else tu.path
        self.scopes = []
        self.fmark = len(I.trail)

    # ---------------------------------------------------------------- utilities
    def ty(self, e):
        return self.tu.types[e[2]]

    def coerce(self, v, ty, tag=""):
        I = self.I
        if isinstance(v, Ref):
            v = I.get(v)
        if ty is None:
            return v
        if ty in SCALARS:
            if isinstance(v, BlockRef):
                v = I.tomat(v)
            if isinstance(v, Mat) and len(v.d) == 1:
                v = v.d[0]
            if isinstance(v, Cx):
                v = v.re
            if isinstance(v, Opq):
                return v.n
            if v is None:
                return G.var("uninit:" + tag)
            if isinstance(v, (Fraction,)):
                v = G.const(v)
            if ty == "bool":
                if isinstance(v, (int, bool)):
                    return bool(v)
                if isinstance(v, N):
                    r = G.tobool(v)
                    return r
                return v
            if ty in INTS:
                if isinstance(v, bool):
                    return int(v)
                if isinstance(v, N) and v.op == "c":
                    return int(v.a[0])
                return v
            if isinstance(v, (int, bool)):
                return G.const(int(v))
            return v
        if ty in I.p.enums:
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, N) and v.op == "c":
                return int(v.a[0])
            return v
        m = _MATRE.match(ty)
        if m and int(m.group(3)) > 0 and int(m.group(4)) > 0:
            r, c = int(m.group(3)), int(m.group(4))
            if isinstance(v, (BlockRef, Opq, N)):
                v = I.tomat(v, r, c)
            if isinstance(v, Mat) and (v.r, v.c) != (r, c) and len(v.d) == r * c:
                v = Mat(r, c, v.d)
            if m.group(2).startswith("std::complex") and isinstance(v, Mat):
                v = Mat(r, c, [cx(x) for x in v.d])
            return v
        if ty.startswith("std::complex") and isscalar(v):
            return cx(v)
        if isinstance(v, BlockRef):
            return I.tomat(v)
        return v

    def ev(self, e):
        return getattr(self, "e_" + e[0])(e)

    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, Ref):
            v = self.I.get(v)
            if isinstance(v, Ref):
                v = self.I.get(v)
        return v

    def mv(self, e):
        v = self.rv(e)
        if isinstance(v, BlockRef):
            v = self.I.tomat(v)
        return v

    def lv(self, e):
        v = self.ev(e)
        if isinstance(v, (Ref, BlockRef)):
            return v
        return Ref(Cell(v), 0)

    # ---------------------------------------------------------------- running
    def run(self):
        I = self.I
        body = self.f.body
        if body is None:
            return None
        cm = len(I.cond)
        mark = len(I.trail)
        self.fmark = mark
        t = self.exec(body)
        del I.cond[cm:]
        return self.finish(t, mark)

    def finish(self, t, mark):
        I = self.I
        if t is NRM:
            return None
        if t[0] == "ret":
            return t[1]
        if t[0] == "thr":
            return t[1]
        cur = I.delta(mark)
        I.undo(mark)

        def dof(leaf):
            if leaf is NRM:
                return cur
            if leaf[0] in ("ret", "brk", "cnt"):
                return leaf[-1]
            return None
        locs = {}
        for _, leaf in I.leaves(t):
            d = dof(leaf)
            if d:
                for k, (c, kk, v) in d.items():
                    locs[k] = (c, kk)
        newv = []
        for k, (c, kk) in locs.items():
            pre = I._raw(c, kk)

            def lf(leaf):
                d = dof(leaf)
                if d is None:
                    return I_._SKIP
                x = d.get(k)
                return pre if x is None else x[2]
            v = I.foldval(t, lf)
            newv.append((c, kk, v))
        for c, kk, v in newv:
            if v is I_._SKIP:
                continue
            I.trail.append((c, kk, I._raw(c, kk)))
            I._rawset(c, kk, v)

        def rf(leaf):
            if leaf is NRM:
                return None
            if leaf[0] == "ret":
                return leaf[1]
            if leaf[0] == "thr":
                return leaf[1]
            return None
        return I.foldval(t, rf)

    def normalise(self, t, kinds):
        """turn leaves of the given kinds into normal leaves, joining their states"""
        I = self.I
        if not any(I.has(t, k) for k in kinds):
            return t
        if t[0] in kinds:
            return NRM
        cur = I.delta(self.fmark)
        I.undo(self.fmark)

        def dof(leaf):
            if leaf is NRM:
                return cur
            if leaf[0] in kinds:
                return leaf[-1]
            return None
        locs = {}
        for _, leaf in I.leaves(t):
            d = dof(leaf)
            if d:
                for k, (c, kk, v) in d.items():
                    locs[k] = (c, kk)
        newv = []
        for k, (c, kk) in locs.items():
            pre = I._raw(c, kk)

            def lf(leaf):
                d = dof(leaf)
                if d is None:
                    return I_._SKIP
                x = d.get(k)
                return pre if x is None else x[2]
            newv.append((c, kk, I.foldval(t, lf)))
        for c, kk, v in newv:
            if v is I_._SKIP:
                continue
            I.trail.append((c, kk, I._raw(c, kk)))
            I._rawset(c, kk, v)

        def conv(x):
            if x[0] == "b":
                return ("b", x[1], conv(x[2]), conv(x[3]))
            return NRM if x[0] in kinds else x
        t = conv(t)

        def simp(x):
            if x[0] == "b":
                a, b = simp(x[2]), simp(x[3])
                if a is NRM and b is NRM:
                    return NRM
                return ("b", x[1], a, b)
            return x
        return simp(t)

    def fork(self, c, A, B):
        I = self.I
        c = I.decide(c)
        if c is True:
            return A()
        if c is False:
            return B()
        if not isinstance(c, N):
            c = G.fn("cond?", *I.flat(c, []))
        if c.op == "throw":
            return ("thr", c, None)
        cm = len(I.cond)
        mark = len(I.trail)
        I.cond.append(c)
        tA = A()
        nA = I.has(tA, "n")
        dA = I.delta(mark)
        I.undo(mark)
        del I.cond[cm:]
        I.cond.append(G.lnot(c))
        tB = B()
        nB = I.has(tB, "n")
        dB = I.delta(mark)
        I.undo(mark)
        del I.cond[cm:]
        if nA and nB:
            for k in list(dA) + [k for k in dB if k not in dA]:
                cc, kk, _ = dA.get(k) or dB[k]
                pre = I._raw(cc, kk)
                va = dA[k][2] if k in dA else pre
                vb = dB[k][2] if k in dB else pre
                v = I.merge(c, va, vb)
                I.trail.append((cc, kk, pre))
                I._rawset(cc, kk, v)
            if tA is NRM and tB is NRM:
                return NRM
        elif nA:
            I.apply(dA)
            if tA is NRM:
                I.cond.append(c)
        elif nB:
            I.apply(dB)
            if tB is NRM:
                I.cond.append(G.lnot(c))
        else:
            pass
        return ("b", c, tA, tB)

    # ---------------------------------------------------------------- statements
    def exec(self, s):
        if s is None:
            return NRM
        m = getattr(self, "s_" + s[0], None)
        if m is not None:
            G.cur_loc[0] = _loc(self.file, s[1])
            return m(s)
        G.cur_loc[0] = _loc(self.file, s[1])
        v = self.ev(s)
        if isinstance(v, N) and v.op == "throw":
            return ("thr", v, None)
        return NRM

    def seq(self, lst):
        I = self.I
        t = NRM
        for s in lst:
            r = self.exec(s)
            t = I.subst(t, r)
            if r is not NRM and not I.has(r, "n"):
                break
        return t

    def s_compound(self, s):
        self.scopes.append([])
        t = self.seq(s[3])
        sc = self.scopes.pop()
        if self.I.has(t, "n") or t[0] == "thr":
            self.dtors([sc])
        return t

    def dtors(self, scopes):
        for sc in reversed(scopes):
            for ref in reversed(sc):
                o = self.I.get(ref)
                if isinstance(o, Obj):
                    f = self.I.p.funcs.get("dtor:" + o.cls)
                    if f is not None and f.body is not None:
                        self.I.call(f, [], o)

    def declvar(self, v):
        vid, name, ty, line, flags, init = v
        I = self.I
        t = self.tu.types[ty]
        if "s" in flags:
            # static local: treat as a global initialised once
            pass
        if "&" in flags:
            r = self.ev(init)
            if not isinstance(r, (Ref, BlockRef)):
                r = Ref(Cell(r), 0)
            self.env[vid] = r
            return None
        if init is None:
            val = I.default(t, name)
        else:
            val = self.ev(init)
            if isinstance(val, Ref):
                val = I.get(val)
            if isinstance(val, N) and val.op == "throw":
                self.env[vid] = Ref(Cell(val), 0)
                return val
            val = self.coerce(val, t, name)
            if isinstance(val, BlockRef) and t.startswith("Eigen::Block"):
                self.env[vid] = Ref(Cell(val), 0)
                return None
            val = I_.copyv(val)
        ref = Ref(Cell(val), 0)
        self.env[vid] = ref
        if isinstance(val, Obj) and self.scopes:
            self.scopes[-1].append(ref)
        return None

    def s_decl(self, s):
        for v in s[3]:
            G.cur_loc[0] = _loc(self.file, v[3])
            r = self.declvar(v)
            if r is not None:
                return ("thr", r, None)
        return NRM

    def s_if(self, s):
        _, line, _, init, cv, c, a, b = s
        t0 = NRM
        if init is not None:
            t0 = self.exec(init)
        if cv is not None:
            self.declvar(cv)
        cond = G.tobool(self.rv(c))
        return self.fork(cond, lambda: self.exec(a), lambda: self.exec(b) if b is not None else NRM)

    def s_return(self, s):
        v = None
        if s[3] is not None:
            if self.f is not None and self.f.d.get("retref"):
                v = self.ev(s[3])
            else:
                v = self.rv(s[3])
                if isinstance(v, BlockRef):
                    v = self.I.tomat(v)
                v = I_.copyv(v)
                if self.f is not None:
                    v = self.coerce(v, self.f.ret(), "ret")
        if isinstance(v, N) and v.op == "throw":
            return ("thr", v, None)
        if self.scopes:
            self.dtors(self.scopes)
        return ("ret", v, self.I.delta(self.fmark))

    def s_null(self, s):
        return NRM

    def s_break(self, s):
        return ("brk", self.I.delta(self.fmark))

    def s_continue(self, s):
        return ("cnt", self.I.delta(self.fmark))

    def loop(self, condf, incf, bodyf):
        I = self.I
        acc = NRM
        n = 0
        while True:
            c = condf()
            c = I.decide(c)
            if c is False:
                break
            if c is not True:
                self.havoc(bodyf, incf)
                break
            n += 1
            if n > I.max_unroll:
                I.notes.append("loop bound exceeded in %s" % (self.f.qn if self.f else "?"))
                self.havoc(bodyf, incf)
                break
            t = bodyf()
            t = self.normalise(t, ("cnt",))
            acc = I.subst(acc, t)
            if not I.has(t, "n"):
                break
            if incf:
                incf()
        acc = self.normalise(acc, ("brk",))
        return acc

    def havoc(self, bodyf, incf):
        I = self.I
        mark = len(I.trail)
        cm = len(I.cond)
        bodyf()
        if incf:
            incf()
        d = I.delta(mark)
        I.undo(mark)
        del I.cond[cm:]
        I.fresh += 1
        tag = "loop%d" % I.fresh
        I.notes.append("loop havoc at %r" % (G.cur_loc[0],))

        def hv(v, post):
            if isinstance(post, (N, int, bool)):
                deps = [tn(post)]
                if isinstance(v, (N, int, bool)):
                    deps.append(tn(v))
                return G.fn("havoc:" + tag, *deps)
            if isinstance(post, Mat):
                if not isinstance(v, Mat):
                    v = post
                return Mat(post.r, post.c, [hv(x, y) for x, y in zip(v.d, post.d)])
            if isinstance(post, Arr):
                if not isinstance(v, Arr) or len(v.d) != len(post.d):
                    return post
                return Arr([hv(x, y) for x, y in zip(v.d, post.d)], post.kind)
            if isinstance(post, Obj) and isinstance(v, Obj):
                return Obj(post.cls, {k: hv(v.f.get(k), post.f[k]) for k in post.f})
            return post
        for c, k, v in d.values():
            pre = I._raw(c, k)
            I.trail.append((c, k, pre))
            I._rawset(c, k, hv(pre, v))

    def s_for(self, s):
        _, line, _, init, c, inc, body = s
        self.exec(init)
        return self.loop((lambda: G.tobool(self.rv(c))) if c is not None else (lambda: True),
                         (lambda: self.ev(inc)) if inc is not None else None,
                         lambda: self.exec(body))

    def s_while(self, s):
        return self.loop(lambda: G.tobool(self.rv(s[3])), None, lambda: self.exec(s[4]))

    def s_do(self, s):
        first = [True]

        def cf():
            if first[0]:
                first[0] = False
                return True
            return G.tobool(self.rv(s[3]))
        return self.loop(cf, None, lambda: self.exec(s[4]))

    def s_rangefor(self, s):
        _, line, _, v, rng, body = s
        I = self.I
        r = self.ev(rng)
        val = I.get(r) if isinstance(r, Ref) else r
        if isinstance(val, (Arr, Mat)):
            items = [Ref(val, i) for i in range(len(val.d))]
        elif isinstance(val, MapV):
            items = [Ref(Cell(Arr([k, x], "pair")), 0) for k, x in val.d.items()]
        else:
            items = None
        vid, name, ty, ln, flags, _ = v
        if items is None:
            self.env[vid] = Ref(Cell(Opq(G.fn("elem", *I.flat(val, [])))), 0)
            self.havoc(lambda: self.exec(body), None)
            return NRM
        acc = NRM
        for it in items:
            if "&" in flags:
                self.env[vid] = it
            else:
                self.env[vid] = Ref(Cell(I_.copyv(self.coerce(I.get(it), self.tu.types[ty]))), 0)
            t = self.normalise(self.exec(body), ("cnt",))
            acc = I.subst(acc, t)
            if not I.has(t, "n"):
                break
        return self.normalise(acc, ("brk",))

    def s_switch(self, s):
        _, line, _, c, body = s[:5]
        I = self.I
        items = []     # (labels, stmt)

        def flat(x):
            labs = []
            while x is not None and x[0] in ("case", "default"):
                if x[0] == "case":
                    labs.append(x[3])
                    x = x[5]
                else:
                    labs.append("default")
                    x = x[3]
            items.append((labs, x))
        lst = body[3] if body[0] == "compound" else [body]
        for x in lst:
            flat(x)
        v = self.rv(c)
        if isinstance(v, N) and v.op == "c":
            v = int(v.a[0])

        def start(i):
            def go():
                self.scopes.append([])
                t = self.seq([x for _, x in items[i:] if x is not None])
                self.scopes.pop()
                return t
            return go
        default = None
        labels = []
        for i, (ls, _) in enumerate(items):
            for l in ls:
                if l == "default":
                    default = i
                else:
                    labels.append((l, i))
        if isinstance(v, (int, bool)):
            tgt = default
            for l, i in labels:
                if l == int(v):
                    tgt = i
                    break
            t = start(tgt)() if tgt is not None else NRM
            return self.normalise(t, ("brk",))
        if not isinstance(v, N):
            v = G.fn("sw", *I.flat(v, []))

        def chain(k):
            if k == len(labels):
                return start(default)() if default is not None else NRM
            l, i = labels[k]
            return self.fork(G.cmp("==", v, G.const(l)), start(i), lambda: chain(k + 1))
        t = chain(0)
        return self.normalise(t, ("brk",))

    def s_try(self, s):
        t = self.exec(s[3])
        if t[0] == "thr" and s[4]:
            for ev, hb in s[4]:
                if ev is not None:
                    self.env[ev[0]] = Ref(Cell(Opq(G.var("exc"))), 0)
                return self.exec(hb)
        return t

    def s_opaquestmt(self, s):
        self.I.notes.append("opaque statement %s at %s:%s" % (s[3], self.file, s[1]))
        return NRM

    def s_case(self, s):
        return self.exec(s[5])

    def s_default(self, s):
        return self.exec(s[3])

    # ---------------------------------------------------------------- expressions
    def e_int(self, e):
        return int(e[3])

    def e_enum(self, e):
        return int(e[3])

    def e_char(self, e):
        return int(e[3])

    def e_bool(self, e):
        return bool(e[3])

    def e_flt(self, e):
        if self.I.raw_literals:
            return G.const(consts.parse(e[3]))
        return consts.recognise(e[3])

    def e_str(self, e):
        return e[3]

    def e_nullptr(self, e):
        return 0

    def e_zero(self, e):
        return self.I.default(self.ty(e), "zero", True)

    def e_this(self, e):
        return Ptr(Ref(Cell(self.this), 0))

    def e_fref(self, e):
        return FnPtr(e[3], e[4])

    def e_ref(self, e):
        r = self.env.get(e[3])
        if r is not None:
            if isinstance(r, Ref):
                v = r
                # reference stored in a cell
                return v
            return r
        if e[5] is not None:
            return self.global_ref(e)
        # unknown local (captured but missing)
        c = Ref(Cell(self.I.default(self.ty(e), e[4])), 0)
        self.env[e[3]] = c
        return c

    def global_ref(self, e):
        qn = e[5]
        I = self.I
        if qn in ("std::cerr", "std::cout", "std::clog"):
            if qn not in I.globals:
                I.globals[qn] = Ref(Cell(Stream(qn)), 0)
            return I.globals[qn]
        if qn in I.globals:
            return I.globals[qn]
        gs = I.p.global_init(qn)
        if not gs:
            r = Ref(Cell(I.sym(self.ty(e), "G:" + qn)), 0)
            I.globals[qn] = r
            return r
        g = gs[0]
        tu = g["tu"]
        ty = tu.types[g["type"]]
        if not g["const"]:
            v = I.sym(ty, "G:" + qn)
        elif g["var"][5] is None:
            v = I.default(ty, qn, True)
        else:
            v = I.val_init(g["var"][5], tu, None, ty)
        r = Ref(Cell(v), 0)
        I.globals[qn] = r
        return r

    def e_mem(self, e):
        _, line, _, base, name, qn = e
        I = self.I
        if base is None:
            o = self.this
        else:
            b = self.ev(base)
            if isinstance(b, Ptr):
                b = b.ref
            while isinstance(b, Ref):
                b = I.get(b)
                if isinstance(b, Ptr):
                    b = b.ref
            o = b
        if isinstance(o, Obj):
            x = o.f.get(name)
            if isinstance(x, Ref):
                return x
            return Ref(o, name)
        if isinstance(o, Arr) and name in ("first", "second"):
            return Ref(o, 0 if name == "first" else 1)
        if isinstance(o, Opq):
            return Ref(Cell(I.shaped(self.ty(e), "." + name, [o.n])), 0)
        if isinstance(o, N):
            return Ref(Cell(I.shaped(self.ty(e), "." + name, [o])), 0)
        raise Unsupported("member %s of %r at %s:%d" % (name, o, self.file, line))

    def e_idx(self, e):
        b = self.rv(e[3])
        i = self.rv(e[4])
        return self.index(b, i, e)

    def index(self, b, i, e):
        I = self.I
        if isinstance(b, Ptr):
            b = I.get(b.ref)
        if isinstance(b, Obj) and b.cls == "perm":
            b = b.f["idx"]
        if isinstance(i, N) and i.op == "c":
            i = int(i.a[0])
        if isinstance(i, bool):
            i = int(i)
        if isinstance(b, BlockRef):
            if isinstance(i, int):
                return Ref(b.m, b.idx[i])
            b = I.tomat(b)
        if isinstance(b, (Arr, Mat)):
            n = len(b.d)
            if isinstance(i, int):
                if not 0 <= i < n:
                    I.notes.append("index %d out of bounds %d at %s:%s" % (i, n, self.file, e[1]))
                    I.throws.append((tuple(I.cond), (self.file, e[1]), "out_of_range"))
                    return G.throw("out_of_range")
                return Ref(b, i)
            if isinstance(i, N) and n:
                r = Ref(b, n - 1)
                for k in range(n - 2, -1, -1):
                    c = G.cmp("==", i, G.const(k))
                    if c is True:
                        r = Ref(b, k)
                    elif c is not False:
                        r = Ref(I_.SelRef(c, Ref(b, k), r), None)
                return r
        if isinstance(b, MapV):
            if isinstance(i, (int, str)):
                if i in b.d:
                    return Ref(b, i)
                return Ref(b, i) if i in b.d else G.throw("map.at")
            r = None
            for k in reversed(list(b.d)):
                c = G.cmp("==", i, G.const(k)) if isinstance(k, int) else None
                r = Ref(b, k) if r is None else Ref(I_.SelRef(c, Ref(b, k), r), None)
            return r
        if isinstance(b, (Opq, N)):
            n = b.n if isinstance(b, Opq) else b
            return Ref(Cell(I.shaped(self.ty(e), "elem", [n] + I.flat(i, []))), 0)
        if isinstance(b, str) and isinstance(i, int):
            return ord(b[i]) if i < len(b) else 0
        raise Unsupported("index %r[%r] at %s:%d" % (b, i, self.file, e[1]))

    def e_cond(self, e):
        I = self.I
        c = I.decide(self.rv(e[3]))
        if c is True:
            return self.ev(e[4])
        if c is False:
            return self.ev(e[5])
        res = {}

        def br(k, x):
            def go():
                v = self.rv(x)
                res[k] = I_.copyv(v) if not isinstance(v, BlockRef) else I.tomat(v)
                return NRM
            return go
        if not isinstance(c, N):
            c = G.fn("cond?", *I.flat(c, []))
        if c.op == "throw":
            return c
        self.fork(c, br(0, e[4]), br(1, e[5]))
        a, b = res[0], res[1]
        t = self.ty(e)
        if t in SCALARS:
            a, b = self.coerce(a, t), self.coerce(b, t)
        return I.merge(c, a, b)

    def e_cast(self, e):
        _, line, _, kind, x = e
        v = self.rv(x)
        t = self.ty(e)
        if kind == "IntegralToFloating":
            if isinstance(v, (int, bool)):
                return G.const(int(v))
            return v
        if kind in ("FloatingToIntegral",):
            if isinstance(v, N) and v.op == "c":
                return int(v.a[0])
            return G.fn("trunc", tn(v)) if isscalar(v) else v
        if kind in ("FloatingToBoolean", "IntegralToBoolean"):
            return G.tobool(v)
        if kind == "ToVoid":
            return None
        return self.coerce(v, t) if t in SCALARS or t in self.I.p.enums else v

    def e_throw(self, e):
        I = self.I
        msg = "?"
        ty = "?"
        if e[3] is not None:
            x = e[3]
            ty = self.ty(x)

            def find(n):
                if isinstance(n, list):
                    if n and n[0] == "str":
                        return n[3]
                    for y in n:
                        r = find(y)
                        if r is not None:
                            return r
                return None
            msg = find(x) or "?"
        I.throws.append((tuple(I.cond), (self.file, e[1]), ty + ": " + msg))
        return G.throw(ty + ": " + msg)

    def e_lambda(self, e):
        env = {}
        for cap in e[4]:
            if not cap:
                continue
            if cap[0] == "this":
                continue
            vid, name, byref = cap
            r = self.env.get(vid)
            if r is None:
                continue
            if byref:
                env[vid] = r
            else:
                v = self.I.get(r) if isinstance(r, Ref) else r
                env[vid] = Ref(Cell(I_.copyv(v)), 0)
        return Lam(e, env, self.this, self.tu)

    def call_lambda(self, lam, args, callee=None):
        I = self.I
        _, line, _, params, caps, body, m, specs = lam.node
        for sm, sp, sb in specs:
            if sm == callee or callee is None and len(specs) == 1:
                params, body = sp, sb
        env = dict(lam.env)
        fr = Frame(I, lam.tu, env, lam.this, None)
        fr.file = self.file
        for prm, a in zip(params, args):
            pid, name, ty, ln, flags, _ = prm
            if "&" in flags:
                env[pid] = a if isinstance(a, (Ref, BlockRef)) else Ref(Cell(a), 0)
            else:
                v = I.get(a) if isinstance(a, Ref) else a
                env[pid] = Ref(Cell(I_.copyv(fr.coerce(v, lam.tu.types[ty]))), 0)
        if body is None:
            if any(isinstance(a, Ref) for a in args):
                raise AnalysisBroken("%s:%s: call of an uninstantiated lambda" % (self.file, line))
            return Opq(G.fn("lambda?", *sum((I.flat(a, []) for a in args), [])))
        cm = len(I.cond)
        mark = len(I.trail)
        fr.fmark = mark
        t = fr.exec(body)
        del I.cond[cm:]
        return fr.finish(t, mark)

    def e_init(self, e):
        items, names = e[3], e[4]
        t = self.ty(e)
        I = self.I
        if names:
            r = I.p.rec_by_type.get(t)
            o = I.new_obj(r, t) if r else Obj(t)
            for nm, x in zip(names, items):
                if nm == "<base>":
                    self.rv(x)
                    continue
                fty = None
                if r:
                    for f in r["fields"]:
                        if f[0] == nm:
                            fty = r["tu"].types[f[1]]
                o.f[nm] = I_.copyv(self.coerce(self.rv(x), fty, nm))
            if t.startswith("std::array") and len(names) == 1:
                return o.f[names[0]]
            return o
        m = _ARRRE.match(t) or _CARRRE.match(t)
        if m:
            vals = [I_.copyv(self.rv(x)) for x in items]
            n = int(m.group(2))
            if len(vals) == 1 and isinstance(vals[0], Arr) and t.startswith("std::array"):
                return vals[0]
            inner = m.group(1).strip()
            vals = [self.coerce(v, inner) for v in vals]
            while len(vals) < n:
                vals.append(I.default(inner, "init", True))
            return Arr(vals)
        if len(items) == 1:
            return self.rv(items[0])
        if not items:
            return I.default(t, "init", True)
        return Arr([I_.copyv(self.rv(x)) for x in items])

    def e_un(self, e):
        op, x = e[3], e[4]
        I = self.I
        if op in ("++", "--", "post++", "post--"):
            r = self.lv(x)
            old = I.get(r)
            new = s_add(old, 1 if "++" in op else -1)
            I.put(r, new)
            return old if op.startswith("post") else r
        if op == "&":
            r = self.ev(x)
            if isinstance(r, Ref):
                return Ptr(r)
            return Ptr(Ref(Cell(r), 0))
        if op == "*":
            v = self.rv(x)
            if isinstance(v, Ptr):
                return v.ref
            if isinstance(v, (Arr, Mat)):
                return Ref(v, 0)
            if isinstance(v, FnPtr) or isinstance(v, Lam):
                return v
            return Opq(G.fn("deref", *I.flat(v, [])))
        v = self.rv(x)
        if op == "-":
            if isinstance(v, (BlockRef, Mat)):
                v = I.tomat(v)
                return Mat(v.r, v.c, [s_neg(a) for a in v.d])
            if isinstance(v, Opq):
                return Opq(G.neg(v.n))
            if isinstance(v, bool):
                return -int(v)
            return s_neg(v)
        if op == "+":
            return v
        if op == "!":
            return G.lnot(G.tobool(v)) if isscalar(v) else G.lnot(G.fn("bool", *I.flat(v, [])))
        if op == "~" and isinstance(v, int):
            return ~v
        return Opq(G.fn("un" + op, *I.flat(v, [])))

    def e_bin(self, e):
        op = e[3]
        I = self.I
        if op == "&&":
            a = I.decide(G.tobool(self.rv(e[4])))
            if a is False:
                return False
            if isinstance(a, N):
                I.cond.append(a)
                b = I.decide(G.tobool(self.rv(e[5])))
                I.cond.remove(a)
            else:
                b = I.decide(G.tobool(self.rv(e[5])))
            if isinstance(a, N) and a.op == "throw":
                return a
            return G.land(a, b)
        if op == "||":
            a = I.decide(G.tobool(self.rv(e[4])))
            if a is True:
                return True
            if isinstance(a, N):
                na = G.lnot(a)
                I.cond.append(na)
                b = I.decide(G.tobool(self.rv(e[5])))
                I.cond.remove(na)
            else:
                b = I.decide(G.tobool(self.rv(e[5])))
            return G.lor(a, b)
        if op == ",":
            self.ev(e[4])
            return self.ev(e[5])
        if op in ASSIGN:
            return self.assign(op, e[4], self.rv(e[5]), e)
        a = self.rv(e[4])
        b = self.rv(e[5])
        G.cur_loc[0] = _loc(self.file, e[1])
        return self.binop(op, a, b, e)

    def assign(self, op, lhs, v, e):
        I = self.I
        r = self.ev(lhs)
        if isinstance(r, N) and r.op == "throw":
            return r
        G.cur_loc[0] = _loc(self.file, e[1])
        if not isinstance(r, (Ref, BlockRef)):
            if isinstance(r, Arr) and r.kind == "tie":
                for x, y in zip(r.d, v.d):
                    I.put(x, y)
                return r
            r = Ref(Cell(r), 0)
        return self.assign_ref(op, r, v, e, self.tu.types[lhs[2]])

    def assign_ref(self, op, r, v, e, lty):
        I = self.I
        if isinstance(v, N) and v.op == "throw":
            return v
        if isinstance(r, Ref):
            cur = I.get(r)
            if isinstance(cur, (BlockRef,)):
                r = cur
            elif isinstance(cur, Ref):
                r = cur
        if isinstance(r, BlockRef):
            if isinstance(v, BlockRef):
                v = I.tomat(v)
            cur = I.tomat(r)
            if op != "=":
                v = self.binop(op[:-1], cur, v, e)
            if isinstance(v, Mat):
                for i, x in enumerate(v.d):
                    I.put(Ref(r.m, r.idx[i]), x)
            else:
                I.notes.append("block assign")
            return r
        cur = I.get(r)
        if op != "=":
            v = self.binop(op[:-1], cur, v, e)
        if isinstance(v, BlockRef):
            v = I.tomat(v)
        if isinstance(cur, Arr) and cur.kind == "tie":
            for x, y in zip(cur.d, v.d):
                I.put(x, y)
            return r
        v = self.coerce(v, lty)
        # element-wise into fixed-size matrices keeps aliasing of outer refs
        if isinstance(cur, Mat) and isinstance(v, Mat) and len(cur.d) == len(v.d):
            for i, x in enumerate(list(v.d)):
                I.put(Ref(cur, i), x)
            return r
        if isinstance(cur, Obj) and isinstance(v, Obj) and cur.cls == v.cls:
            vv = I_.copyv(v)
            for k, x in vv.f.items():
                I.put(Ref(cur, k), x)
            return r
        I.put(r, I_.copyv(v))
        return r

    def binop(self, op, a, b, e):
        I = self.I
        if isinstance(a, N) and a.op == "throw":
            return a
        if isinstance(b, N) and b.op == "throw":
            return b
        if isinstance(a, BlockRef):
            a = I.tomat(a)
        if isinstance(b, BlockRef):
            b = I.tomat(b)
        if isinstance(a, Mat) or isinstance(b, Mat):
            return self.matop(op, a, b, e)
        if isinstance(a, Opq):
            a = a.n
        if isinstance(b, Opq):
            b = b.n
        if op in CMPOPS:
            if isinstance(a, (str, Ptr)) or isinstance(b, (str, Ptr)):
                if isinstance(a, str) and isinstance(b, str):
                    return G.CMP[op](a, b)
                fa, fb = I.flat(a, []), I.flat(b, [])
                return G.fn("cmp" + op, *(fa + fb))
            if isinstance(a, Cx) or isinstance(b, Cx):
                a, b = cx(a), cx(b)
                r = G.land(G.cmp("==", a.re, b.re), G.cmp("==", a.im, b.im))
                return r if op == "==" else G.lnot(r)
            return G.cmp(op, a, b)
        if not (isscalar(a) or isinstance(a, Cx)) or not (isscalar(b) or isinstance(b, Cx)):
            if op == "+" and isinstance(a, str) and isinstance(b, str):
                return a + b
            return Opq(G.fn("bin" + op, *(I.flat(a, []) + I.flat(b, []))))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op == "+":
            return s_add(a, b)
        if op == "-":
            return s_sub(a, b)
        if op == "*":
            return s_mul(a, b)
        if op == "/":
            ity = e is not None and self.ty(e) in INTS and e[0] == "bin"
            if isinstance(a, int) and isinstance(b, int):
                if ity or True:
                    if b == 0:
                        return G.fn("intdiv0", tn(a))
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
            if ity and e[3] == "/":
                return G.fn("idiv", tn(a), tn(b))
            return s_div(a, b)
        if isinstance(a, int) and isinstance(b, int):
            if op == "%":
                import math
                return int(math.fmod(a, b)) if b else 0
            if op == "<<":
                return a << b
            if op == ">>":
                return a >> b
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
        if op in ("&", "|") and isinstance(a, (N, int)) and isinstance(b, (N, int)):
            return (G.land if op == "&" else G.lor)(G.tobool(a), G.tobool(b))
        return G.fn("bin" + op, tn(a), tn(b))

    def matop(self, op, a, b, e):
        t = self.tu.types[e[2]] if e is not None else ""
        arr = "Array" in t.split("<")[0] or "ArrayWrapper" in t or "Eigen::Array" in t
        if op in ("+", "-"):
            f = s_add if op == "+" else s_sub
            if isinstance(a, Mat) and isinstance(b, Mat):
                if len(a.d) != len(b.d):
                    raise Unsupported("matrix size mismatch")
                return Mat(a.r, a.c, [f(x, y) for x, y in zip(a.d, b.d)])
            if isinstance(a, Mat):
                return Mat(a.r, a.c, [f(x, b) for x in a.d])
            return Mat(b.r, b.c, [f(a, x) for x in b.d])
        if op == "*":
            if isinstance(a, Mat) and isinstance(b, Mat):
                if arr and "Matrix<" not in t:
                    return Mat(a.r, a.c, [s_mul(x, y) for x, y in zip(a.d, b.d)])
                if a.c != b.r:
                    raise Unsupported("matrix product dims (%d,%d)*(%d,%d)" % (a.r, a.c, b.r, b.c))
                out = []
                for i in range(a.r):
                    for j in range(b.c):
                        s = s_mul(a.at(i, 0), b.at(0, j))
                        for k in range(1, a.c):
                            s = s_add(s, s_mul(a.at(i, k), b.at(k, j)))
                        out.append(s)
                return Mat(a.r, b.c, out)
            if isinstance(a, Mat):
                return Mat(a.r, a.c, [s_mul(x, b) for x in a.d])
            return Mat(b.r, b.c, [s_mul(a, x) for x in b.d])
        if op == "/":
            if isinstance(a, Mat) and isinstance(b, Mat):
                return Mat(a.r, a.c, [s_div(x, y) for x, y in zip(a.d, b.d)])
            if isinstance(a, Mat):
                return Mat(a.r, a.c, [s_div(x, b) for x in a.d])
            return Mat(b.r, b.c, [s_div(a, x) for x in b.d])
        if op in CMPOPS:
            fa, fb = self.I.flat(a, []), self.I.flat(b, [])
            return G.fn("matcmp" + op, *(fa + fb))
        raise Unsupported("matop " + op)

    # ---------------------------------------------------------------- calls
    def args(self, lst):
        return [self.ev(x) for x in lst]

    def e_opcall(self, e):
        _, line, _, op, argx, m, ismeth = e
        I = self.I
        f = I.p.funcs.get(m) if m else None
        if f is not None and f.body is not None:
            a = self.args(argx)
            if ismeth:
                o = a[0]
                while isinstance(o, Ref):
                    o = I.get(o)
                if isinstance(o, Lam):
                    return self.call_lambda(o, a[1:], m)
                r = self.callf(f, a[1:], o, e)
            else:
                r = self.callf(f, a, None, e)
            return r
        if op == "()" and argx:
            c = self.ev(argx[0])
            cv = c
            while isinstance(cv, Ref):
                cv = I.get(cv)
            if isinstance(cv, Lam):
                return self.call_lambda(cv, self.args(argx[1:]), m)
            if isinstance(cv, FnPtr):
                return self.call_qn(cv.qn, cv.m, self.args(argx[1:]), e)
            if isinstance(cv, Obj) and cv.cls not in ("perm",):
                a = self.args(argx[1:])
                return Opq(G.fn("opcall", *sum((I.flat(x, []) for x in [cv] + a), [])))
            idx = [self.rv(x) for x in argx[1:]]
            return self.eindex(cv, idx, e)
        if op == "[]":
            b = self.rv(argx[0])
            i = self.rv(argx[1])
            return self.index(b, i, e)
        if op == "<<":
            a = self.ev(argx[0])
            av = a
            while isinstance(av, Ref):
                av = I.get(av)
            if isinstance(av, Stream):
                b = self.rv(argx[1])
                av.items.append((tuple(I.cond), b))
                return a
            if isinstance(av, (Mat, BlockRef)):
                c = Comma(av)
                self.comma(c, self.rv(argx[1]))
                return c
            b = self.rv(argx[1])
            return Opq(G.fn("<<", *(I.flat(av, []) + I.flat(b, []))))
        if op == "," and len(argx) == 2:
            a = self.ev(argx[0])
            av = a
            while isinstance(av, Ref):
                av = I.get(av)
            b = self.rv(argx[1])
            if isinstance(av, Comma):
                self.comma(av, b)
                return av
            return b
        if op in ASSIGN:
            v = self.rv(argx[1])
            return self.assign(op, argx[0], v, e)
        if op == "*" and len(argx) == 1:
            v = self.rv(argx[0])
            if isinstance(v, Ptr):
                return v.ref
            if isinstance(v, Ref):
                return v
        if op == "->":
            v = self.rv(argx[0])
            return v
        if op == "!" or (op == "-" and len(argx) == 1):
            return self.e_un(["un", line, e[2], op, argx[0]])
        if op in ("++", "--"):
            return self.e_un(["un", line, e[2], op, argx[0]])
        if len(argx) == 2:
            a = self.rv(argx[0])
            b = self.rv(argx[1])
            G.cur_loc[0] = _loc(self.file, line)
            return self.binop(op, a, b, e)
        a = self.args(argx)
        return I.shaped(self.ty(e), "op" + op, sum((I.flat(x, []) for x in a), []))

    def comma(self, c, v):
        I = self.I
        if isinstance(v, BlockRef):
            v = I.tomat(v)
        vals = v.d if isinstance(v, Mat) else [v]
        for x in vals:
            m = c.m
            if isinstance(m, BlockRef):
                I.put(Ref(m.m, m.idx[c.pos]), x)
            else:
                x = G.const(x) if isinstance(x, int) else x
                I.put(Ref(m, c.pos), x)
            c.pos += 1

    def eindex(self, v, idx, e):
        I = self.I
        if isinstance(v, Obj) and v.cls == "perm":
            v = v.f["idx"]
        if isinstance(v, (Opq,)):
            return Ref(Cell(I.shaped(self.ty(e), "coeff", [v.n] + sum((I.flat(i, []) for i in idx), []))), 0)
        idx = [int(i.a[0]) if isinstance(i, N) and i.op == "c" else i for i in idx]
        if isinstance(v, BlockRef):
            r, c = v.r, v.c
        else:
            r, c = v.r, v.c
        if len(idx) == 1:
            return self.index(v, idx[0], e)
        i, j = idx
        if isinstance(i, int) and isinstance(j, int):
            if not (0 <= i < r and 0 <= j < c):
                I.notes.append("matrix index (%d,%d) out of bounds (%d,%d) at %s:%s" % (i, j, r, c, self.file, e[1]))
                I.throws.append((tuple(I.cond), (self.file, e[1]), "out_of_range"))
                return G.throw("out_of_range")
            k = i * c + j
        else:
            k = G.add(G.mul(tn(i), G.const(c)), tn(j))
        return self.index(v, k, e)

    def callf(self, f, args, this, e):
        I = self.I
        if isinstance(this, Ptr):
            this = I.get(this.ref)
        if I.opaque(f):
            return self.opaque_call(f, args, this, e)
        for a in args:
            if isinstance(a, N) and a.op == "throw":
                return a
        r = I.call(f, args, this)
        G.cur_loc[0] = _loc(self.file, e[1])
        if isinstance(r, Ref) and not f.d.get("retref"):
            r = I.get(r)
        return r

    def opaque_call(self, f, args, this, e):
        I = self.I
        fl = []
        if isinstance(this, Obj):
            I.flat(this, fl)
        for prm, a in zip(f.params, args):
            I.flat(a, fl)
        I.calls.append((f.qn, args, tuple(I.cond), (self.file, e[1])))
        nm = f.qn.split("::")[-1]
        # out parameters
        k = 0
        for prm, a in zip(f.params, args):
            flags = prm[4]
            if "&" in flags and "c" not in flags and isinstance(a, (Ref, BlockRef)):
                k += 1
                ty = f.tu.types[prm[2]]
                nv = I.shaped(ty, nm + "!" + prm[1], fl)
                self.assign_ref("=", a, nv, e, ty)
        rt = f.ret()
        if rt == "void":
            return None
        return I.shaped(rt, nm, fl)

    def e_call(self, e):
        _, line, _, qn, argx, m, callee = e
        I = self.I
        if qn is None:
            c = self.rv(callee) if callee else None
            a = self.args(argx)
            if isinstance(c, FnPtr):
                return self.call_qn(c.qn, c.m, a, e)
            if isinstance(c, Lam):
                return self.call_lambda(c, a)
            return I.shaped(self.ty(e), "indirect", sum((I.flat(x, []) for x in a), []))
        a = self.args(argx)
        return self.call_qn(qn, m, a, e)

    def call_qn(self, qn, m, a, e):
        I = self.I
        if qn in I.intr:
            r = I.intr[qn](self, a, e)
            if r is not NotImplemented:
                return r
        f = I.p.funcs.get(m)
        if f is not None:
            return self.callf(f, a, None, e)
        G.cur_loc[0] = _loc(self.file, e[1])
        from . import builtins as B
        r = B.call(self, qn, a, e)
        if r is not NotImplemented:
            return r
        d = I.p.decls.get(m)
        if d is not None:
            return self.opaque_call(d, a, None, e)
        I.notes.append("unknown function %s" % qn)
        return I.shaped(self.ty(e), qn.split("::")[-1], sum((I.flat(x, []) for x in a), []))

    def e_mcall(self, e):
        _, line, _, qn, ox, argx, m = e
        I = self.I
        o = self.ev(ox)
        f = I.p.funcs.get(m) if m else None
        if f is not None:
            ov = o
            while isinstance(ov, (Ref, Ptr)):
                ov = I.get(ov) if isinstance(ov, Ref) else ov.ref
            if isinstance(ov, Obj):
                a = self.args(argx)
                return self.callf(f, a, ov, e)
        if isinstance(o, Ptr):
            o = o.ref
        from . import builtins as B
        G.cur_loc[0] = _loc(self.file, line)
        if I.on_method is not None:
            r = I.on_method(self, qn, o, argx, e)
            if r is not NotImplemented:
                return r
        r = B.method(self, qn, o, argx, e)
        if r is not NotImplemented:
            return r
        a = self.args(argx)
        ov = o
        while isinstance(ov, Ref):
            ov = I.get(ov)
        if f is None and m in I.p.decls:
            return self.opaque_call(I.p.decls[m], a, ov if isinstance(ov, Obj) else None, e)
        fl = I.flat(ov, [])
        for x in a:
            I.flat(x, fl)
        I.notes.append("unknown method %s" % qn)
        rt = self.ty(e)
        if rt == "void":
            return None
        return I.shaped(rt, qn.split("::")[-1], fl)

    def e_ctor(self, e):
        _, line, _, cls, argx, m, iscopy = e
        I = self.I
        t = self.ty(e)
        f = I.p.funcs.get(m)
        if iscopy and len(argx) == 1:
            v = self.rv(argx[0])
            if isinstance(v, BlockRef) and not t.startswith("Eigen::Block"):
                v = I.tomat(v)
            if isinstance(v, BlockRef) or isinstance(v, Stream):
                return v
            return I_.copyv(v)
        if f is not None and not (f.d["defaulted"]):
            a = self.args(argx)
            if I.opaque(f):
                return self.opaque_ctor(f, a, e)
            return I.construct(f, a)
        if t in I.p.rec_by_type and not argx:
            return I.new_obj(I.p.rec_by_type[t], t)
        from . import builtins as B
        r = B.ctor(self, cls, t, argx, e)
        if r is not NotImplemented:
            return r
        a = self.args(argx)
        d = I.p.decls.get(m)
        if d is not None and t in I.p.rec_by_type:
            return self.opaque_ctor(d, a, e)
        return Opq(G.fn("ctor:" + cls, *sum((I.flat(x, []) for x in a), [])))

    def opaque_ctor(self, f, a, e):
        I = self.I
        fl = sum((I.flat(x, []) for x in a), [])
        I.calls.append((f.qn, a, tuple(I.cond), (self.file, e[1])))
        return I.shaped(self.ty(e), "new:" + f.d["cls"].split("::")[-1], fl)

    def e_opaque(self, e):
        I = self.I
        fl = []
        for x in e[4]:
            try:
                v = self.rv(x)
                I.flat(v, fl)
            except Unsupported:
                pass
        I.notes.append("opaque expr %s at %s:%s" % (e[3], self.file, e[1]))
        return I.shaped(self.ty(e), "opaque:" + e[3], fl) if self.ty(e) != "void" else None
