"""Models of the standard library and of the Eigen subset used by /repo."""
from fractions import Fraction
from . import graph as G
from .graph import N, tn
from . import interp as I_
from .interp import (Obj, Mat, Arr, MapV, Cell, Ref, BlockRef, Cx, Lam, FnPtr, Stream, Opq,
                     _MATRE, _ARRRE, _PERMRE, SCALARS, INTS, cx, isscalar, s_add, s_sub, s_mul, s_div, s_neg)

NI = NotImplemented
UN = {"cos", "sin", "tan", "acos", "asin", "atan", "log1p", "exp", "log10", "tgamma", "cosh", "sinh", "tanh", "expm1",
      "cbrt", "floor", "ceil", "round", "toupper", "li2c_"}


def val(F, x):
    v = x
    while isinstance(v, Ref):
        v = F.I.get(v)
    return v


def csqrt(v):
    if isinstance(v, Cx):
        if v.im is G.ZERO:
            pass
        return Cx(G.fn("csqrt.re", v.re, v.im), G.fn("csqrt.im", v.re, v.im))
    return G.sqrt(tn(v))


def call(F, qn, a, e):
    I = F.I
    base = qn.split("::")[-1]
    std = qn.startswith("std::") or "::" not in qn
    if qn.startswith("Eigen::"):
        return eigen_static(F, qn, base, a, e)
    if not std:
        return NI
    v = [val(F, x) for x in a]
    for x in v:
        if isinstance(x, N) and x.op == "throw":
            return x
    if "numeric_limits" in qn:
        if base == "epsilon":
            return G.const(Fraction(1, 2 ** 52))
        if base == "quiet_NaN":
            return G.var("K:nan")
        if base == "max":
            return G.const(Fraction(2) ** 1023) if F.ty(e) not in INTS else 2 ** 31 - 1
        if base in ("min", "denorm_min"):
            return G.const(Fraction(1, 2 ** 1022)) if F.ty(e) not in INTS else -2 ** 31
        if base == "lowest":
            return G.const(-Fraction(2) ** 1023)
        if base == "infinity":
            return G.var("K:inf")
        return NI
    if v and isinstance(v[0], (Mat, BlockRef)):
        m = I.tomat(v[0])
        if base in ("sqrt", "abs", "log", "cos", "sin", "exp"):
            g = {"sqrt": G.sqrt, "abs": G.abs_, "log": G.log}.get(base, lambda x: G.fn(base, tn(x)))
            return Mat(m.r, m.c, [g(tn(x)) for x in m.d])
    if base in ("sqrt", "sqrtf", "sqrtl"):
        return csqrt(v[0])
    if base in ("abs", "fabs", "labs"):
        if isinstance(v[0], Cx):
            z = v[0]
            if z.im is G.ZERO:
                return G.abs_(z.re)
            return G.sqrt(G.add(G.mul(z.re, z.re), G.mul(z.im, z.im)))
        if isinstance(v[0], (int, bool)):
            return abs(int(v[0]))
        if isinstance(v[0], Opq):
            return G.abs_(v[0].n)
        return G.abs_(v[0])
    if base in ("log",):
        if isinstance(v[0], Cx):
            z = v[0]
            return Cx(G.fn("clog.re", z.re, z.im), G.fn("clog.im", z.re, z.im))
        return G.log(tn(v[0]))
    if base == "log1p" and isscalar(v[0]):
        if I.keep_log1p:
            return G.fn("log1p", tn(v[0]))
        return G.log(G.add(G.ONE, tn(v[0])))
    if base == "exp" and isinstance(v[0], Cx):
        return Cx(G.fn("cexp.re", v[0].re, v[0].im), G.fn("cexp.im", v[0].re, v[0].im))
    if base == "pow":
        b, x = v
        if isinstance(x, N) and x.op == "c" and x.a[0].denominator == 1:
            x = int(x.a[0])
        if isinstance(b, Cx):
            if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 40:
                r = cx(1)
                for _ in range(abs(x)):
                    r = s_mul(r, b)
                return r if x >= 0 else s_div(cx(1), r)
            return Cx(G.fn("cpow.re", b.re, b.im, tn(x)), G.fn("cpow.im", b.re, b.im, tn(x)))
        if isinstance(x, int) and abs(x) < 60:
            return G.powi(tn(b), int(x))
        x = tn(x)
        if x.op == "c" and x.a[0].denominator == 2 and abs(x.a[0]) < 20:
            s = G.sqrt(tn(b))
            return G.powi(s, int(2 * x.a[0]))
        return G.fn("pow", tn(b), x)
    if base in UN and len(v) == 1 and isscalar(v[0]):
        x = tn(v[0])
        if x.op == "c" and x.a[0] == 0 and base in ("sin", "tan", "atan", "asin", "sinh", "tanh"):
            return G.ZERO
        if x.op == "c" and x.a[0] == 0 and base in ("cos", "exp", "cosh"):
            return G.ONE
        if base == "toupper":
            return v[0]
        return G.fn(base, x)
    if base in ("atan2", "fmod", "remainder") and len(v) == 2:
        return G.fn(base, tn(v[0]), tn(v[1]))
    if base == "hypot":
        return G.sqrt(G.add(G.mul(tn(v[0]), tn(v[0])), G.mul(tn(v[1]), tn(v[1]))))
    if base == "isnan":
        x = v[0]
        if isinstance(x, N):
            if x.op == "v" and x.a[0] == "K:nan":
                return True
            if x.op == "c":
                return False
            return G.fn("isnan", x)
        return False
    if base in ("isfinite", "isinf", "signbit"):
        return G.fn(base, tn(v[0]))
    if base in ("max", "min") and len(v) == 2 and isscalar(v[0]):
        if isinstance(v[0], int) and isinstance(v[1], int):
            return max(v) if base == "max" else min(v)
        return (G.fmax if base == "max" else G.fmin)(tn(v[0]), tn(v[1]))
    if base in ("max", "min") and len(v) == 1 and isinstance(v[0], Arr):
        r = tn(v[0].d[0])
        for x in v[0].d[1:]:
            r = (G.fmax if base == "max" else G.fmin)(r, tn(x))
        return r
    if base in ("fmax", "fmin"):
        return (G.fmax if base == "fmax" else G.fmin)(tn(v[0]), tn(v[1]))
    if base == "copysign":
        return G.fn("copysign", tn(v[0]), tn(v[1]))
    if base == "fma":
        return G.add(G.mul(tn(v[0]), tn(v[1])), tn(v[2]))
    if base == "swap":
        x, y = a
        if isinstance(x, BlockRef) or isinstance(v[0], BlockRef):
            bx = x if isinstance(x, BlockRef) else v[0]
            by = y if isinstance(y, BlockRef) else v[1]
            return block_swap(F, bx, by)
        if isinstance(x, Ref) and isinstance(y, Ref):
            vx, vy = I_.copyv(v[0]), I_.copyv(v[1])
            F.assign_ref("=", x, vy, e, None)
            F.assign_ref("=", y, vx, e, None)
        return None
    if base in ("move", "forward", "cref", "ref", "as_const", "addressof"):
        return a[0]
    if base == "real":
        return v[0].re if isinstance(v[0], Cx) else tn(v[0])
    if base == "imag":
        return v[0].im if isinstance(v[0], Cx) else G.ZERO
    if base == "conj":
        z = cx(v[0])
        return Cx(z.re, G.neg(z.im))
    if base == "norm":
        z = cx(v[0])
        return G.add(G.mul(z.re, z.re), G.mul(z.im, z.im))
    if base == "arg":
        z = cx(v[0])
        return G.fn("atan2", z.im, z.re)
    if base == "polar":
        r, t = tn(v[0]), tn(v[1]) if len(v) > 1 else G.ZERO
        return Cx(G.mul(r, G.fn("cos", t)), G.mul(r, G.fn("sin", t)))
    if base in ("make_tuple", "make_pair"):
        return Arr([I_.copyv(x) if not isinstance(x, BlockRef) else I.tomat(x) for x in v], "tuple")
    if base == "tie":
        return Arr([x if isinstance(x, (Ref, BlockRef)) else Ref(Cell(x), 0) for x in a], "tie")
    if base == "tuple_cat":
        out = []
        for x in v:
            for y in x.d:
                out.append(I_.copyv(val(F, y)))
        return Arr(out, "tuple")
    if base == "get":
        # std::get<I>: index from callee signature
        m = e[5] or ""
        i = None
        if "<" in m:
            t = m[m.rindex(")"):] if ")" in m else m
            if "<" in t:
                t0 = t[t.index("<") + 1:].split(",")[0].split(">")[0].strip().rstrip("UL").strip()
                if t0.isdigit():
                    i = int(t0)
        if i is None:
            return NI
        r = a[0]
        if isinstance(v[0], Arr):
            x = v[0].d[i]
            return x if isinstance(x, Ref) else Ref(v[0], i)
        if isinstance(v[0], Opq):
            return I.shaped(F.ty(e), "get%d" % i, [v[0].n])
        return NI
    if base == "to_string":
        return "?" if not isinstance(v[0], int) else str(v[0])
    if base in ("begin", "cbegin", "end", "cend", "rbegin", "rend") and v:
        x = v[0]
        if isinstance(x, (Arr, Mat)):
            return Obj("iter", {"c": Cell(x), "i": 0 if "begin" in base else len(x.d)})
    if base == "accumulate" and len(v) >= 3 and isinstance(v[0], Obj) and v[0].cls == "iter":
        x = v[0].f["c"].v
        s = v[2]
        for i in range(int(v[0].f["i"]), int(v[1].f["i"])):
            s = F.call_lambda(v[3], [s, x.d[i]]) if len(v) > 3 and isinstance(v[3], Lam) else s_add(s, x.d[i])
        return s
    if base == "fill" and len(v) == 3 and isinstance(v[0], Obj) and v[0].cls == "iter":
        x = v[0].f["c"].v
        for i in range(int(v[0].f["i"]), int(v[1].f["i"])):
            I.put(Ref(x, i), v[2])
        return None
    if base == "sort" and len(v) == 2 and isinstance(v[0], Obj) and v[0].cls == "iter":
        x = v[0].f["c"].v
        lo, hi = int(v[0].f["i"]), int(v[1].f["i"])
        d = list(x.d[lo:hi])
        for i in range(len(d)):
            for j in range(len(d) - 1 - i):
                p, q = d[j], d[j + 1]
                d[j], d[j + 1] = G.fmin(p, q), G.fmax(p, q)
        for i, y in enumerate(d):
            I.put(Ref(x, lo + i), y)
        return None
    if base in ("setprecision", "setw", "setfill", "left", "right", "fixed", "scientific"):
        return Opq(G.var("manip"))
    if base in ("endl", "flush"):
        return "\n"
    if base == "operator<<":
        return a[0]
    return NI


def block_swap(F, x, y):
    I = F.I
    vx = [x.m.d[i] for i in x.idx]
    vy = [y.m.d[i] for i in y.idx]
    for i, k in enumerate(x.idx):
        I.put(Ref(x.m, k), vy[i])
    for i, k in enumerate(y.idx):
        I.put(Ref(y.m, k), vx[i])
    return None


def eigen_static(F, qn, base, a, e):
    I = F.I
    import re
    m = _MATRE.search(qn[qn.index("<") + 1:]) if "<" in qn else None
    t = qn[qn.index("<") + 1:] if "<" in qn else ""
    m = _MATRE.match(t)
    if m:
        r, c = int(m.group(3)), int(m.group(4))
        if r > 0:
            cpx = m.group(2).startswith("std::complex")
            z = Cx(G.ZERO, G.ZERO) if cpx else G.ZERO
            o = Cx(G.ONE, G.ZERO) if cpx else G.ONE
            if base == "Zero":
                return Mat(r, c, [z] * (r * c))
            if base == "Ones":
                return Mat(r, c, [o] * (r * c))
            if base == "Identity":
                return Mat(r, c, [o if i == j else z for i in range(r) for j in range(c)])
            if base == "Constant":
                return Mat(r, c, [val(F, a[-1])] * (r * c))
    v = [val(F, x) for x in a]
    if v and isinstance(v[0], (Mat, BlockRef)) and base in ("sqrt", "abs", "log", "real", "imag"):
        mm = I.tomat(v[0])
        if base == "real":
            return Mat(mm.r, mm.c, [x.re if isinstance(x, Cx) else x for x in mm.d])
        g = {"sqrt": G.sqrt, "abs": G.abs_, "log": G.log}.get(base)
        if g:
            return Mat(mm.r, mm.c, [g(tn(x)) for x in mm.d])
    return NI


def ctor(F, cls, t, argx, e):
    I = F.I
    m = _MATRE.match(t)
    if m:
        r, c = int(m.group(3)), int(m.group(4))
        if not argx:
            return I.default(t, "Mat@%d" % e[1])
        if len(argx) == 1:
            v = F.rv(argx[0])
            if isinstance(v, BlockRef):
                v = I.tomat(v)
            if isinstance(v, (Mat, Opq)):
                return F.coerce(I_.copyv(v), t)
            return NI
        if r > 0 and len(argx) == r * c:
            return Mat(r, c, [F.coerce(F.rv(x), "double") for x in argx])
        return NI
    m = _PERMRE.match(t)
    if m:
        return I.default(t, "perm")
    if t.startswith("std::complex"):
        if not argx:
            return Cx(G.ZERO, G.ZERO)
        a = [F.rv(x) for x in argx]
        if len(a) == 1:
            return cx(a[0])
        return Cx(tn(a[0]), tn(a[1]))
    if cls in ("std::tuple", "std::pair"):
        a = [F.rv(x) for x in argx]
        if len(a) == 1 and isinstance(a[0], Arr):
            return I_.copyv(a[0])
        if not a:
            return I.default(t, "tuple")
        return Arr([I_.copyv(x) if not isinstance(x, BlockRef) else I.tomat(x) for x in a], "tuple")
    if cls in ("std::array",):
        if not argx:
            return I.default(t, "arr", False)
        return I_.copyv(F.rv(argx[0]))
    if cls == "std::vector":
        if not argx:
            return Arr([], "vector")
        a = [F.rv(x) for x in argx]
        if isinstance(a[0], Arr):
            return Arr([I_.copyv(x) for x in a[0].d], "vector")
        if isinstance(a[0], int) and a[0] < 100000:
            return Arr([I_.copyv(a[1]) if len(a) > 1 and not isinstance(a[1], Opq) else G.ZERO for _ in range(a[0])], "vector")
        return NI
    if cls in ("std::map", "std::unordered_map"):
        if not argx:
            return MapV({})
        a = F.rv(argx[0])
        if isinstance(a, Arr):
            d = {}
            for p in a.d:
                if isinstance(p, Arr) and len(p.d) == 2 and isinstance(p.d[0], (int, str)):
                    d[p.d[0]] = p.d[1]
            return MapV(d)
        return NI
    if "basic_string" in cls and "stream" not in cls:
        if not argx:
            return ""
        v = F.rv(argx[0])
        return v if isinstance(v, str) else Opq(G.fn("string", *I.flat(v, [])))
    if "stream" in cls:
        return Stream(cls)
    if cls in ("std::lock_guard", "std::unique_lock", "std::scoped_lock"):
        for x in argx:
            F.ev(x)
        return Opq(G.var("lock"))
    if cls.startswith("(lambda") or "lambda at" in cls:
        if argx:
            return F.rv(argx[0])
    if cls == "Eigen::CwiseUnaryOp" and argx:
        return F.rv(argx[0])
    if cls in ("std::allocator", "std::initializer_list") or "std::initializer_list" in cls:
        if argx:
            return F.rv(argx[0])
        return Opq(G.var("alloc"))
    return NI


def method(F, qn, o, argx, e):
    I = F.I
    base = qn.split("::")[-1]
    ov = o
    while isinstance(ov, Ref):
        ov = I.get(ov)
    if isinstance(ov, Obj) and ov.cls == "perm":
        if base == "indices":
            return Ref(ov, "idx")
        if base == "setIdentity":
            n = len(ov.f["idx"].d)
            I.put(Ref(ov, "idx"), Mat(n, 1, list(range(n))))
            return None
        if base == "transpose" or base == "inverse":
            return NI
    if isinstance(ov, Cx):
        if base == "real":
            return ov.re
        if base == "imag":
            return ov.im
    if isinstance(ov, (Mat, BlockRef)):
        return matmethod(F, base, o, ov, argx, e)
    if isinstance(ov, Arr):
        if base in ("at", "operator[]"):
            return F.index(ov, F.rv(argx[0]), e)
        if base == "fill":
            v = F.rv(argx[0])
            for i in range(len(ov.d)):
                I.put(Ref(ov, i), v)
            return None
        if base == "size":
            return len(ov.d)
        if base in ("front",):
            return Ref(ov, 0)
        if base in ("back",):
            return Ref(ov, len(ov.d) - 1)
        if base in ("begin", "end", "cbegin", "cend"):
            return Obj("iter", {"c": Cell(ov), "i": 0 if "begin" in base else len(ov.d)})
        if base in ("push_back", "emplace_back"):
            v = F.rv(argx[0])
            if isinstance(o, Ref):
                I.put(o, Arr(list(ov.d) + [I_.copyv(v)], ov.kind))
            return None
        if base == "empty":
            return len(ov.d) == 0
        if base == "data":
            return ov
    if isinstance(ov, MapV):
        if base in ("at", "operator[]"):
            return F.index(ov, F.rv(argx[0]), e)
        if base == "size":
            return len(ov.d)
    if isinstance(ov, Stream):
        for x in argx:
            F.ev(x)
        if base == "str":
            return "?"
        return Opq(G.var("stream"))
    if isinstance(ov, str) and base in ("empty",):
        return len(ov) == 0
    if isinstance(ov, str) and base in ("c_str", "data"):
        return ov
    if isinstance(ov, str) and base in ("size", "length"):
        return len(ov)
    return NI


def matmethod(F, base, o, ov, argx, e):
    I = F.I
    # block references on lvalues
    if base in ("row", "col", "segment", "block", "head", "tail", "diagonal", "topLeftCorner"):
        if isinstance(ov, BlockRef):
            m, idx, r, c = ov.m, ov.idx, ov.r, ov.c
        else:
            m, r, c = ov, ov.r, ov.c
            idx = list(range(r * c))
        a = [F.rv(x) for x in argx]
        a = [int(x.a[0]) if isinstance(x, N) and x.op == "c" else x for x in a]
        mt = _tmpl_ints(F.ty(e))
        if all(isinstance(x, int) for x in a):
            if base == "row":
                return BlockRef(m, [idx[a[0] * c + j] for j in range(c)], 1, c)
            if base == "col":
                return BlockRef(m, [idx[i * c + a[0]] for i in range(r)], r, 1)
            if base == "diagonal":
                n = min(r, c)
                return BlockRef(m, [idx[i * c + i] for i in range(n)], n, 1)
            if base in ("segment", "head", "tail"):
                n = len(idx)
                if base == "segment":
                    if len(a) == 2:
                        s, ln = a
                    else:
                        s = a[0]
                        ln = max([x for x in mt if x > 0] or [1])
                elif base == "head":
                    s, ln = 0, a[0] if a else max(mt)
                else:
                    ln = a[0] if a else max(mt)
                    s = n - ln
                if 0 <= s and s + ln <= n:
                    return BlockRef(m, idx[s:s + ln], ln if c == 1 else 1, 1 if c == 1 else ln)
            if base == "block" and len(a) == 4:
                i0, j0, rr, cc = a
                return BlockRef(m, [idx[(i0 + i) * c + j0 + j] for i in range(rr) for j in range(cc)], rr, cc)
        return NI
    m = I.tomat(ov)
    el = m.d
    if base in ("eval", "array", "matrix", "noalias", "derived", "lazyProduct", "nestedExpression"):
        return ov if base != "eval" else I_.copyv(m)
    if base in ("operator()", "coeff", "coeffRef"):
        return F.eindex(ov, [F.rv(x) for x in argx], e)
    if base == "transpose":
        if isinstance(o, (Ref, BlockRef)) or isinstance(ov, BlockRef):
            if isinstance(ov, BlockRef):
                b = ov
            else:
                b = BlockRef(ov, list(range(ov.r * ov.c)), ov.r, ov.c)
            return BlockRef(b.m, [b.idx[i * b.c + j] for j in range(b.c) for i in range(b.r)], b.c, b.r)
        return Mat(m.c, m.r, [m.at(i, j) for j in range(m.c) for i in range(m.r)])
    if base == "adjoint":
        def cj(x):
            return Cx(x.re, G.neg(x.im)) if isinstance(x, Cx) else x
        return Mat(m.c, m.r, [cj(m.at(i, j)) for j in range(m.c) for i in range(m.r)])
    if base == "conjugate":
        return Mat(m.r, m.c, [Cx(x.re, G.neg(x.im)) if isinstance(x, Cx) else x for x in el])
    if base == "real":
        return Mat(m.r, m.c, [x.re if isinstance(x, Cx) else x for x in el])
    if base == "imag":
        return Mat(m.r, m.c, [x.im if isinstance(x, Cx) else G.ZERO for x in el])
    if base == "cast":
        t = F.ty(e)
        if "complex" in t:
            return Mat(m.r, m.c, [cx(x) for x in el])
        return m
    if base in ("cwiseAbs", "abs"):
        return Mat(m.r, m.c, [call(F, "std::abs", [x], e) for x in el])
    if base in ("cwiseSqrt", "sqrt"):
        return Mat(m.r, m.c, [G.sqrt(tn(x)) for x in el])
    if base in ("cwiseProduct",):
        b = F.mv(argx[0])
        return Mat(m.r, m.c, [s_mul(x, y) for x, y in zip(el, b.d)])
    if base in ("square", "cwiseAbs2", "abs2"):
        return Mat(m.r, m.c, [s_mul(x, x) for x in el])
    if base == "unaryExpr":
        f = F.rv(argx[0])
        out = []
        for x in el:
            if isinstance(f, Lam):
                out.append(F.call_lambda(f, [x]))
            elif isinstance(f, Obj):
                fs = I.p.by_qn.get(f.cls + "::operator()", [])
                if len(fs) == 1:
                    out.append(I.call(fs[0], [x], f))
                else:
                    out.append(G.fn("unaryExpr", tn(x) if isscalar(x) else x.re))
            else:
                out.append(G.fn("unaryExpr", tn(x) if isscalar(x) else x.re))
        return Mat(m.r, m.c, out)
    if base == "asDiagonal":
        n = len(el)
        z = G.ZERO
        return Mat(n, n, [el[i] if i == j else z for i in range(n) for j in range(n)])
    if base == "sum":
        s = el[0]
        for x in el[1:]:
            s = s_add(s, x)
        return s
    if base == "prod":
        s = el[0]
        for x in el[1:]:
            s = s_mul(s, x)
        return s
    if base == "mean":
        s = el[0]
        for x in el[1:]:
            s = s_add(s, x)
        return G.div(tn(s), G.const(len(el)))
    if base == "trace":
        s = m.at(0, 0)
        for i in range(1, m.r):
            s = s_add(s, m.at(i, i))
        return s
    if base == "determinant" and m.r == 2:
        return s_sub(s_mul(m.at(0, 0), m.at(1, 1)), s_mul(m.at(0, 1), m.at(1, 0)))
    if base == "inverse" and m.r == 2:
        d = s_sub(s_mul(m.at(0, 0), m.at(1, 1)), s_mul(m.at(0, 1), m.at(1, 0)))
        return Mat(2, 2, [s_div(m.at(1, 1), d), s_div(s_neg(m.at(0, 1)), d), s_div(s_neg(m.at(1, 0)), d), s_div(m.at(0, 0), d)])
    if base == "dot":
        b = F.mv(argx[0])
        s = None
        for x, y in zip(el, b.d):
            p = s_mul(x, y)
            s = p if s is None else s_add(s, p)
        return s
    if base == "squaredNorm" or base == "norm":
        s = None
        for x in el:
            p = s_mul(x, x) if not isinstance(x, Cx) else G.add(G.mul(x.re, x.re), G.mul(x.im, x.im))
            s = p if s is None else s_add(s, p)
        return G.sqrt(s) if base == "norm" else s
    if base in ("minCoeff", "maxCoeff"):
        if argx:
            r = F.ev(argx[0])
            out = G.fn("arg" + base, *I.flat(m, []))
            if isinstance(r, I_.Ref):
                I.put(r, out)
            else:
                p = F.rv(argx[0])
                if hasattr(p, "ref"):
                    I.put(p.ref, out)
        g = G.fmin if base == "minCoeff" else G.fmax
        s = tn(el[0])
        for x in el[1:]:
            s = g(s, tn(x))
        return s
    if base in ("setZero", "fill", "setConstant", "setIdentity", "setOnes"):
        if base == "setIdentity":
            vals = [G.ONE if i == j else G.ZERO for i in range(m.r) for j in range(m.c)]
        else:
            x = G.ZERO if base == "setZero" else G.ONE if base == "setOnes" else F.coerce(F.rv(argx[-1]), "double")
            vals = [x] * len(el)
        setall(F, ov, vals)
        return o
    if base == "reverseInPlace":
        setall(F, ov, list(reversed(el)))
        return None
    if base == "transposeInPlace":
        setall(F, ov, [m.at(j, i) for i in range(m.r) for j in range(m.c)])
        return None
    if base == "reverse":
        return Mat(m.r, m.c, list(reversed(el)))
    if base == "swap":
        b = F.ev(argx[0])
        bv = b
        while isinstance(bv, Ref):
            bv = I.get(bv)
        x = ov if isinstance(ov, BlockRef) else BlockRef(ov, list(range(len(ov.d))), ov.r, ov.c)
        y = bv if isinstance(bv, BlockRef) else BlockRef(bv, list(range(len(bv.d))), bv.r, bv.c)
        return block_swap(F, x, y)
    if base == "size":
        return len(el)
    if base == "rows":
        return m.r
    if base == "cols":
        return m.c
    if base == "data":
        if isinstance(ov, Mat) and ov.c > 1 and ov.r > 1:
            # column major storage
            return BlockRef(ov, [i * ov.c + j for j in range(ov.c) for i in range(ov.r)], ov.r * ov.c, 1)
        return ov
    if base == "isApprox" or base == "hasNaN" or base == "allFinite":
        return G.fn(base, *I.flat(m, []))
    if base == "any" or base == "all":
        return G.fn(base, *I.flat(m, []))
    return NI


def setall(F, ov, vals):
    I = F.I
    for i, x in enumerate(vals):
        if isinstance(ov, BlockRef):
            I.put(Ref(ov.m, ov.idx[i]), x)
        else:
            I.put(Ref(ov, i), x)


def _tmpl_ints(t):
    import re
    return [int(x) for x in re.findall(r"(?<=[ ,<])(\d+)(?=[,>])", t)]
