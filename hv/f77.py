"""Fixed-form FORTRAN 77 front end: the subprograms of a source file as value graphs.

The subset is the one DSZHiggs.f is written in: scalar variables passed by reference, assignments, block IF,
CALL, function references, COMMON blocks, PARAMETER constants.  Anything else raises Unsupported.
"""
import re
from fractions import Fraction as Fr
from . import graph as G


class Unsupported(Exception):
    pass


class Box:
    __slots__ = ("v", "name", "sub")

    def __init__(self, v=None, name="", sub=""):
        self.v, self.name, self.sub = v, name, sub


class C:
    """complex value"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im


class Unit:
    def __init__(self, kind, name, args, line):
        self.kind, self.name, self.args, self.line = kind, name, args, line
        self.bind = None
        self.types = {}
        self.params = {}
        self.commons = []
        self.body = []
        self.implicit = []


TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[de][+-]?\d+)?(?![a-z])|\.\d+(?:[de][+-]?\d+)?)|(\.(?:eq|ne|lt|le|gt|ge|and|or|not|true|false)\.)|(\*\*|//|==|/=|<=|>=|[-+*/(),=<>:%])|([a-z_]\w*)|('[^']*'|\"[^\"]*\"))", re.I)


def tokens(s, line):
    # a digit sequence followed by .eq. must not swallow the dot
    s = re.sub(r"(\d)\.(eq|ne|lt|le|gt|ge|and|or)\.", r"\1 .\2.", s, flags=re.I)
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("line %d: %r" % (line, s[i:i + 30]))
        k = m.lastindex
        out.append(("num op2 op id str".split()[k - 1] if k != 2 else "dot", m.group(k).lower() if k != 5 else m.group(k)))
        i = m.end()
    return out


def logical_lines(text):
    """statements of a fixed-form source: (line, label, statement)"""
    cur, out = None, []
    for k, raw in enumerate(text.split("\n"), 1):
        l = raw.expandtabs(8)
        if not l.strip() or l[0] in "cC*!dD":
            continue
        l = l[:72]
        # inline comments (no character constants with '!' in this subset)
        m = re.search(r"!", l)
        if m and m.start() != 5 and "'" not in l[:m.start()].replace("''", ""):
            l = l[:m.start()]
        if not l.strip():
            continue
        if l[:5].strip() == "" and len(l) > 5 and l[5] not in " 0":
            if cur is None:
                raise Unsupported("line %d: continuation without a statement" % k)
            cur[2] += l[6:]
            continue
        if cur:
            out.append(tuple(cur))
        cur = [k, l[:5].strip(), l[6:]]
    if cur:
        out.append(tuple(cur))
    # blanks are insignificant in the fixed form
    return [(k, lab, re.sub(r"\s+", "", s).lower()) for k, lab, s in out]


# ---------------------------------------------------------------- expressions
class Parser:
    def __init__(self, toks, line):
        self.t, self.i, self.line = toks, 0, line

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise Unsupported("line %d: expected %r, got %r" % (self.line, v, self.peek()))

    def expr(self):
        return self.lor()

    def lor(self):
        a = self.land()
        while self.acc(".or."):
            a = ("or", a, self.land())
        return a

    def land(self):
        a = self.lnot()
        while self.acc(".and."):
            a = ("and", a, self.lnot())
        return a

    def lnot(self):
        if self.acc(".not."):
            return ("not", self.lnot())
        return self.rel()

    def rel(self):
        a = self.arith()
        ops = {"==": "==", "/=": "!=", "<": "<", ">": ">", "<=": "<=", ">=": ">=", ".eq.": "==", ".ne.": "!=", ".lt.": "<", ".le.": "<=", ".gt.": ">", ".ge.": ">="}
        if self.peek()[1] in ops:
            o = ops[self.next()[1]]
            return ("rel", o, a, self.arith())
        return a

    def arith(self):
        if self.acc("-"):
            a = ("neg", self.term())
        else:
            self.acc("+")
            a = self.term()
        while self.peek()[1] in ("+", "-") and self.peek()[0] == "op":
            o = self.next()[1]
            b = self.term()
            a = ("bin", o, a, b)
        return a

    def term(self):
        a = self.power()
        while self.peek()[1] in ("*", "/") and self.peek()[0] == "op":
            o = self.next()[1]
            if self.peek()[1] in ("-", "+"):        # gfortran extension: unary operator after * or /
                s = self.next()[1]
                b = self.power()
                b = ("neg", b) if s == "-" else b
            else:
                b = self.power()
            a = ("bin", o, a, b)
        return a

    def power(self):
        a = self.prim()
        if self.acc("**"):
            if self.acc("-"):
                return ("bin", "**", a, ("neg", self.power()))
            return ("bin", "**", a, self.power())
        return a

    def prim(self):
        k, v = self.next()
        if k == "num":
            isint = bool(re.fullmatch(r"\d+", v))
            if isint:
                return ("int", int(v))
            dbl = "d" in v
            x = v.replace("d", "e")
            return ("real", Fr(x), dbl, v)
        if k == "dot" and v in (".true.", ".false."):
            return ("int", 1 if v == ".true." else 0)
        if k == "id":
            if self.acc("("):
                args = []
                if not self.acc(")"):
                    args.append(self.expr())
                    while self.acc(","):
                        args.append(self.expr())
                    self.exp(")")
                return ("call", v, args)
            return ("var", v)
        if v == "(":
            e = self.expr()
            if self.acc(","):
                f = self.expr()
                self.exp(")")
                return ("cplx", e, f)
            self.exp(")")
            return e
        raise Unsupported("line %d: unexpected %r" % (self.line, v))


TYPES = [("double precision", "d"), ("complex*16", "z"), ("double complex", "z"), ("integer", "i"), ("real*8", "d"), ("real", "r"), ("logical", "l"), ("character", "c")]


class File:
    def __init__(self, path):
        self.path = path
        self.units = {}
        self.exports = {}
        st = logical_lines(open(path).read())
        i = 0
        while i < len(st):
            i = self.unit(st, i)

    def unit(self, st, i):
        line, lab, s = st[i]
        low = s
        ty = None
        for nm, t in TYPES:
            nm = nm.replace(" ", "")
            if low.startswith(nm + "function"):
                ty, low = t, low[len(nm):]
        m = re.match(r"(subroutine|function)(\w+)(\((.*?)\))?(.*)$", low)
        if not m:
            raise Unsupported("line %d: expected a program unit, got %r" % (line, s.strip()))
        u = Unit(m.group(1), m.group(2), [x.strip() for x in (m.group(4) or "").split(",") if x.strip()], line)
        rest = m.group(5)
        if rest:
            b = re.fullmatch(r"bind\s*\(\s*c\s*(?:,\s*name\s*=\s*[\"'](\w+)[\"']\s*)?\)", rest)
            if not b:
                raise Unsupported("line %d: %r" % (line, rest))
            u.bind = b.group(1) or u.name
        if u.kind == "function":
            u.types[u.name] = ty or "?"
        i += 1
        stack = [u.body]
        blocks = []
        while True:
            if i >= len(st):
                raise Unsupported("unit %s has no end" % u.name)
            line, lab, s = st[i]
            i += 1
            if lab:
                raise Unsupported("line %d: statement label" % line)
            low = w = s
            if w in ("end", "end" + u.kind, "end" + u.kind + u.name):
                break
            if w in ("endif",):
                blocks.pop()
                stack.pop()
                continue
            if w == "else":
                blk = blocks[-1]
                blk[2].append((None, line, []))
                stack[-1] = blk[2][-1][2]
                continue
            m = re.match(r"else\s*if\s*\(", low)
            if m:
                cond = self.cond(low[m.end() - 1:], line)
                blk = blocks[-1]
                blk[2].append((cond, line, []))
                stack[-1] = blk[2][-1][2]
                continue
            m = re.match(r"if\s*\(", low)
            if m and not re.match(r"if\s*\(.*\)\s*=", w):
                e, rest = self.split_paren(low[m.end() - 1:], line)
                c = self.parse(e, line)
                if rest.strip() == "then":
                    blk = ["if", line, [(c, line, [])]]
                    stack[-1].append(blk)
                    blocks.append(blk)
                    stack.append(blk[2][0][2])
                else:
                    stack[-1].append(["if", line, [(c, line, [self.simple(rest.strip(), line)])]])
                continue
            if self.decl(u, low, line):
                continue
            stack[-1].append(self.simple(low, line))
        if u.name in self.units:
            raise Unsupported("duplicate unit " + u.name)
        self.units[u.name] = u
        if u.bind:
            self.exports[u.bind] = u
        return i

    def split_paren(self, s, line):
        d = 0
        for k, c in enumerate(s):
            d += (c == "(") - (c == ")")
            if d == 0:
                return s[1:k], s[k + 1:]
        raise Unsupported("line %d: parentheses" % line)

    def cond(self, s, line):
        e, rest = self.split_paren(s, line)
        if rest.strip() != "then":
            raise Unsupported("line %d: %r" % (line, rest))
        return self.parse(e, line)

    def parse(self, s, line):
        p = Parser(tokens(s, line), line)
        e = p.expr()
        if p.peek()[0] is not None:
            raise Unsupported("line %d: trailing %r" % (line, p.peek()))
        return e

    def simple(self, s, line):
        w = re.sub(r"\s+", "", s)
        if w in ("return", "continue"):
            return [w, line]
        m = re.match(r"call(\w+)(\(.*\))?$", s)
        if m:
            a = self.parse(m.group(1) + (m.group(2) or "()"), line)
            return ["call", line, a[1], a[2]]
        m = re.match(r"([a-z_]\w*)\s*=(?!=)(.*)$", s)
        if m:
            return ["assign", line, m.group(1), self.parse(m.group(2), line)]
        raise Unsupported("line %d: statement %r" % (line, s))

    def decl(self, u, low, line):
        if re.match(r"[a-z_]\w*=(?!=)", low):
            return False
        if low.startswith("implicit"):
            u.implicit.append(low)
            return True
        if low.startswith("external") or low.startswith("intrinsic"):
            return True
        m = re.match(r"common\s*/\s*(\w+)\s*/\s*(.*)$", low)
        if m:
            u.commons.append((m.group(1), [x.strip() for x in m.group(2).split(",")]))
            return True
        for nm, t in TYPES:
            m = re.match(nm.replace(" ", "").replace("*", r"\*") + r"(.*)$", low)
            if not m:
                continue
            rest = m.group(1)
            par = False
            if "::" in rest:
                attr, rest = rest.split("::")
                at = [a.strip() for a in attr.split(",") if a.strip()]
                if at not in ([], ["parameter"]):
                    raise Unsupported("line %d: attributes %r" % (line, at))
                par = at == ["parameter"]
            if par:
                for it in self.items(rest):
                    n, e = it.split("=", 1)
                    u.types[n.strip()] = t
                    u.params[n.strip()] = self.parse(e, line)
            else:
                for it in self.items(rest):
                    it = it.strip()
                    if not re.fullmatch(r"[a-z_]\w*", it):
                        raise Unsupported("line %d: declaration %r" % (line, it))
                    u.types[it] = t
            return True
        m = re.match(r"parameter\s*\((.*)\)$", low)
        if m:
            for it in self.items(m.group(1)):
                n, e = it.split("=", 1)
                u.params[n.strip()] = self.parse(e, line)
            return True
        return False

    @staticmethod
    def items(s):
        out, d, cur = [], 0, ""
        for c in s:
            d += (c == "(") - (c == ")")
            if c == "," and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += c
        return out + [cur]


# ---------------------------------------------------------------- evaluation
class Return(Exception):
    pass


class Machine:
    """evaluates units to value graphs; decide(cond node) may resolve a condition to True or False"""

    def __init__(self, file, decide=None, on_call=None, params=None):
        self.F = file
        self.decide = decide
        self.on_call = on_call
        self.over = params or {}
        self.commons = {}
        self.log = None
        self.small = 0              # named constants smaller than this count as zero
        self.zero = None            # list: factors of products with zero
        self.used = set()
        self.undef = []
        self.lines = 0

    def set(self, box, v):
        if self.log is not None:
            self.log.append((box, box.v))
        box.v = v

    def call(self, name, boxes):
        u = self.F.units.get(name) or self.F.exports.get(name)
        if u is None:
            raise Unsupported("call of unknown procedure " + name)
        self.used.add(u.name)
        if len(boxes) != len(u.args):
            raise Unsupported("%s called with %d arguments instead of %d" % (name, len(boxes), len(u.args)))
        env = dict(zip(u.args, boxes))
        for blk, names in u.commons:
            cb = self.commons.setdefault(blk, [])
            while len(cb) < len(names):
                cb.append(Box(None, "common %s" % blk, u.name))
            for n, b in zip(names, cb):
                env[n] = b
        for n, e in u.params.items():
            v = self.over.get((u.name, n), self.over.get(n))
            b = Box(None, n, u.name)
            b.v = v if v is not None else self.ev(u, {}, e, u.line)
            if self.small and b.v.op == "c" and 0 < abs(b.v.a[0]) < self.small:
                b.v = G.ZERO
            env[n] = b
        if u.kind == "function":
            env[u.name] = Box(None, u.name, u.name)
        try:
            self.block(u, env, u.body)
        except Return:
            pass
        return env[u.name].v if u.kind == "function" else None

    def box(self, u, env, n):
        b = env.get(n)
        if b is None:
            if n not in u.types and not u.implicit:
                raise Unsupported("%s: undeclared %s" % (u.name, n))
            b = env[n] = Box(None, n, u.name)
        return b

    def block(self, u, env, body):
        for st in body:
            k, line = st[0], st[1]
            self.lines += 1
            G.cur_loc[0] = (self.F.path, line)
            if k == "return":
                raise Return()
            if k == "continue":
                continue
            if k == "assign":
                v = self.ev(u, env, st[3], line)
                t = u.types.get(st[2]) or "d"
                if t == "z" and not isinstance(v, C):
                    v = C(v, G.ZERO)
                if t in ("d", "i") and isinstance(v, C):
                    v = v.re
                if t == "i" and not (G.is_c(v) and v.a[0].denominator == 1):
                    raise Unsupported("%s line %d: integer assignment" % (u.name, line))
                self.set(self.box(u, env, st[2]), v)
            elif k == "call":
                self.invoke(u, env, st[2], st[3], line)
            elif k == "if":
                self.branch(u, env, st[2], line)

    def branch(self, u, env, arms, line):
        if not arms:
            return
        c, ln, body = arms[0]
        if c is None:
            return self.block(u, env, body)
        cv = self.ev(u, env, c, ln)
        d = self.truth(cv)
        if d is True:
            return self.block(u, env, body)
        if d is False:
            return self.branch(u, env, arms[1:], line)
        # both arms, merged by a gate
        names = set(env)
        outer, self.log = self.log, []
        z0 = len(self.zero or ())
        self.block(u, env, body)
        z1 = len(self.zero or ())
        l1, v1 = self.log, {}
        for b, old in l1:
            v1[id(b)] = (b, b.v)
        for b, old in reversed(l1):
            b.v = old
        self.log = []
        self.branch(u, env, arms[1:], line)
        for i in range(z0, len(self.zero or ())):
            self.zero[i] = G.ite(cv, self.zero[i], G.ZERO) if i < z1 else G.ite(cv, G.ZERO, self.zero[i])
        l2, v2 = self.log, {}
        for b, old in l2:
            v2[id(b)] = (b, b.v)
        for b, old in reversed(l2):
            b.v = old
        self.log = outer
        for k in list(v1) + [x for x in v2 if x not in v1]:
            b = (v1.get(k) or v2.get(k))[0]
            a1 = v1[k][1] if k in v1 else b.v
            a2 = v2[k][1] if k in v2 else b.v
            self.set(b, self.merge(cv, a1, a2, b))

    def merge(self, c, a, b, box):
        if isinstance(a, C) or isinstance(b, C):
            a = a if isinstance(a, C) else C(a, G.ZERO if a is not None else None)
            b = b if isinstance(b, C) else C(b, G.ZERO if b is not None else None)
            return C(self.merge(c, a.re, b.re, box), self.merge(c, a.im, b.im, box))
        und = lambda x: G.mk("throw", "undefined %s in %s" % (box.name, box.sub)) if x is None else x
        return G.ite(c, und(a), und(b))

    def truth(self, c):
        if G.is_c(c):
            return c.a[0] != 0
        if self.decide is not None:
            return self.decide(c)
        return None

    def invoke(self, u, env, name, args, line):
        boxes = []
        for a in args:
            if a[0] == "var":
                boxes.append(self.box(u, env, a[1]))
            else:
                b = Box(None, "expression", u.name)
                b.v = self.ev(u, env, a, line)
                boxes.append(b)
        if self.on_call is not None:
            r = self.on_call(self, name, boxes)
            if r is not NotImplemented:
                return r
        t = self.F.units.get(name)
        if t is None:
            raise Unsupported("%s line %d: unknown procedure %s" % (u.name, line, name))
        return self.call(name, boxes)

    def ev(self, u, env, e, line):
        k = e[0]
        if k == "int":
            return G.const(e[1])
        if k == "real":
            return G.const(e[1]) if e[2] else self.single(e[1])
        if k == "var":
            b = env.get(e[1])
            if b is None or b.v is None:
                raise Unsupported("%s line %d: %s is used before it is set" % (u.name, line, e[1]))
            return b.v
        if k == "neg":
            return self.un(lambda x: G.neg(x), self.ev(u, env, e[1], line))
        if k == "bin":
            a, b = self.ev(u, env, e[2], line), self.ev(u, env, e[3], line)
            return self.bin(e[1], a, b, line, self.isint(u, e[2]) and self.isint(u, e[3]))
        if k == "rel":
            a, b = self.ev(u, env, e[2], line), self.ev(u, env, e[3], line)
            return G.cmp(e[1], a, b)
        if k == "and":
            return G.land(self.ev(u, env, e[1], line), self.ev(u, env, e[2], line))
        if k == "or":
            return G.lor(self.ev(u, env, e[1], line), self.ev(u, env, e[2], line))
        if k == "not":
            return G.lnot(self.ev(u, env, e[1], line))
        if k == "cplx":
            return C(self.ev(u, env, e[1], line), self.ev(u, env, e[2], line))
        if k == "call":
            return self.func(u, env, e[1], e[2], line)
        raise Unsupported("line %d: %r" % (line, k))

    @staticmethod
    def isint(u, e):
        if e[0] == "int":
            return True
        if e[0] == "var":
            return u.types.get(e[1]) == "i"
        if e[0] == "neg":
            return Machine.isint(u, e[1])
        if e[0] == "bin":
            return Machine.isint(u, e[2]) and Machine.isint(u, e[3])
        return False

    @staticmethod
    def single(x):
        import struct
        return G.const(Fr(struct.unpack("f", struct.pack("f", float(x)))[0]))

    @staticmethod
    def un(f, a):
        return C(f(a.re), f(a.im)) if isinstance(a, C) else f(a)

    def bin(self, o, a, b, line, ints):
        if isinstance(a, C) or isinstance(b, C):
            a = a if isinstance(a, C) else C(a, G.ZERO)
            b = b if isinstance(b, C) else C(b, G.ZERO)
            if o in "+-":
                f = G.add if o == "+" else G.sub
                return C(f(a.re, b.re), f(a.im, b.im))
            if o == "*":
                return C(G.sub(G.mul(a.re, b.re), G.mul(a.im, b.im)), G.add(G.mul(a.re, b.im), G.mul(a.im, b.re)))
            if o == "/":
                n = G.add(G.mul(b.re, b.re), G.mul(b.im, b.im))
                return C(G.div(G.add(G.mul(a.re, b.re), G.mul(a.im, b.im)), n), G.div(G.sub(G.mul(a.im, b.re), G.mul(a.re, b.im)), n))
            raise Unsupported("line %d: complex %s" % (line, o))
        if o == "+":
            return G.add(a, b)
        if o == "-":
            return G.sub(a, b)
        if o == "*":
            if self.zero is not None and (a is G.ZERO or b is G.ZERO):      # 0*x folds to 0, but not if x is no number
                x = b if a is G.ZERO else a
                if x.op != "c":
                    self.zero.append(x)
            return G.mul(a, b)
        if o == "/":
            if ints:
                if not (G.is_c(a) and G.is_c(b)):
                    raise Unsupported("line %d: integer division" % line)
                q = abs(a.a[0]) // abs(b.a[0])
                return G.const(q if (a.a[0] < 0) == (b.a[0] < 0) else -q)
            return G.div(a, b)
        if o == "**":
            if G.is_c(b) and b.a[0].denominator == 1:
                return G.powi(a, int(b.a[0]))
            if G.is_c(b) and b.a[0].denominator == 2:
                return G.powi(G.sqrt(a), int(b.a[0] * 2))
            return G.fn("pow", a, b)
        raise Unsupported(o)

    REAL1 = {"sqrt": G.sqrt, "dsqrt": G.sqrt, "log": G.log, "dlog": G.log, "abs": G.abs_, "dabs": G.abs_}
    TRIG = {"sin": "sin", "dsin": "sin", "cos": "cos", "dcos": "cos", "atan": "atan", "datan": "atan", "exp": "exp", "dexp": "exp", "tan": "tan", "dtan": "tan"}

    def func(self, u, env, name, args, line):
        if name in self.F.units or (self.on_call is not None and name not in self.REAL1 and name not in self.TRIG and name not in ("dcmplx", "dreal", "dble", "dimag", "max", "min", "dmax1", "dmin1")):
            return self.invoke(u, env, name, args, line)
        v = [self.ev(u, env, a, line) for a in args]
        if name in self.REAL1 and len(v) == 1 and not isinstance(v[0], C):
            return self.REAL1[name](v[0])
        if name in self.TRIG and len(v) == 1 and not isinstance(v[0], C):
            return G.fn(self.TRIG[name], v[0])
        if name == "dcmplx" and len(v) == 2:
            return C(*v)
        if name in ("dreal", "dble", "real") and len(v) == 1:
            return v[0].re if isinstance(v[0], C) else v[0]
        if name == "dimag" and len(v) == 1:
            return v[0].im
        if name in ("max", "dmax1") and len(v) == 2:
            return G.fmax(*v)
        if name in ("min", "dmin1") and len(v) == 2:
            return G.fmin(*v)
        raise Unsupported("%s line %d: function %s" % (u.name, line, name))
