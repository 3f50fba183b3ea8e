"""Reader and evaluator for the subset of the Wolfram language used by the Mathematica interface (options, lists, rules, definitions by patterns)."""
import itertools
import re
from fractions import Fraction

from .program import AnalysisBroken

TOK = re.compile(r"""\s+|(?P<num>\d+\.?\d*(?:`\d*)?|\.\d+)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<id>[A-Za-z$`][A-Za-z0-9$`]*(?:::[A-Za-z]\w*)?)
                     |(?P<op>\[\[|:>|:=|->|/;|//@|@@@|@@|/@|//|\^=|==|!=|<=|>=|&&|\|\||<>|___|__|_|\^|[\[\]{}(),;@|?:=+\-*/!<>&\#.])""", re.X)


class Sym(str):
    """a symbol of the language; strings of the language are class Str"""


class Str(str):
    pass


class E:
    __slots__ = ("h", "a")

    def __init__(self, h, *a):
        self.h, self.a = h, list(a)

    def __repr__(self):
        return "%s[%s]" % (self.h, ", ".join(map(repr, self.a)))

    def __eq__(self, o):
        return isinstance(o, E) and self.h == o.h and self.a == o.a

    __hash__ = None


def strip(s):
    """comments out (nested), strings kept"""
    out, i, d = [], 0, 0
    while i < len(s):
        if d == 0 and s[i] == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s.startswith("(*", i):
            d += 1
            i += 2
        elif d and s.startswith("*)", i):
            d -= 1
            i += 2
        else:
            if d == 0:
                out.append(s[i])
            i += 1
    return "".join(out)


class Parser:
    # binding powers: (left, right)
    BIN = {";": (1, 2), "=": (6, 5), ":=": (6, 5), "//": (8, 9), "/;": (10, 11), "->": (13, 12), ":>": (13, 12), ":": (14, 15), "|": (18, 19), "||": (20, 21), "&&": (22, 23),
           "==": (26, 27), "!=": (26, 27), "<": (26, 27), ">": (26, 27), "<=": (26, 27), ">=": (26, 27), "+": (30, 31), "-": (30, 31), "*": (34, 35), "/": (34, 35), "^": (41, 40), "<>": (44, 45),
           "@@": (49, 48), "/@": (49, 48), "@": (51, 50), "?": (60, 61)}
    NAME = {"=": "Set", ":=": "SetDelayed", "->": "Rule", ":>": "RuleDelayed", "|": "Alternatives", "@@": "Apply", "/@": "Map", "?": "PatternTest", "+": "Plus", "*": "Times", "^": "Power", ":": "Pattern",
            "/;": "Condition", "<>": "StringJoin", "||": "Or", "&&": "And", "==": "Equal", "!=": "Unequal", "<": "Less", ">": "Greater", "<=": "LessEqual", ">=": "GreaterEqual", ";": "CompoundExpression"}

    def __init__(self, text):
        self.t, i = [], 0
        text = strip(text)
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise AnalysisBroken("Mathematica interface: cannot read %r" % text[i:i + 30])
            if m.lastgroup:
                self.t.append((m.lastgroup, m.group(), i > 0 and text[i - 1].isspace()))
            i = m.end()
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, s):
        if self.peek() != s:
            raise AnalysisBroken("Mathematica interface: %r expected, %r found" % (s, self.peek()))
        self.i += 1

    def program(self):
        """top-level statements; like the language, an expression also ends where a new line starts after a complete expression"""
        out = []
        while self.i < len(self.t):
            if self.peek() == ";":
                self.i += 1
                continue
            out.append(self.expr(2))
        return out

    def seq(self, end):
        r = []
        if self.peek() == end:
            self.i += 1
            return r
        while True:
            r.append(self.expr(0))
            if self.peek() == ",":
                self.i += 1
                continue
            self.eat(end)
            return r

    def blank(self, name):
        b = self.next()[1]
        h = []
        if self.kind() == "id" and not self.t[self.i][2]:
            h = [Sym(self.next()[1])]
        x = E({"_": "Blank", "__": "BlankSequence", "___": "BlankNullSequence"}[b], *h)
        return E("Pattern", name, x) if name is not None else x

    def atom(self):
        k, s, _ = self.next()
        if k == "num":
            return Fraction(s.rstrip("`"))
        if k == "str":
            return Str(s[1:-1])
        if k == "id":
            x = Sym(s)
            if self.peek() in ("_", "__", "___") and not self.t[self.i][2]:
                return self.blank(x)
            return x
        if s in ("_", "__", "___"):
            self.i -= 1
            return self.blank(None)
        if s == "{":
            return E("List", *self.seq("}"))
        if s == "(":
            x = self.expr(0)
            self.eat(")")
            return x
        if s == "-":
            return E("Times", Fraction(-1), self.expr(36))
        if s == "+":
            return self.expr(36)
        if s == "!":
            return E("Not", self.expr(24))
        if s == "#":
            if self.kind() == "num":
                return E("Slot", Fraction(self.next()[1]))
            return E("Slot", Fraction(1))
        raise AnalysisBroken("Mathematica interface: unexpected %r" % s)

    def expr(self, bp):
        x = self.atom()
        while self.i < len(self.t):
            s = self.peek()
            if s == "[":
                self.i += 1
                x = E(x, *self.seq("]"))
                continue
            if s == "[[":
                self.i += 1
                a = self.seq("]")
                self.eat("]")
                x = E("Part", x, *a)
                continue
            if s == "&":
                if 4 < bp:
                    break
                self.i += 1
                x = E("Function", x)
                continue
            if s in self.BIN:
                l, r = self.BIN[s]
                if l < bp:
                    break
                self.i += 1
                if s == ";" and (self.peek() in (None, ")", "]", "}", ",")):
                    x = E("CompoundExpression", x, Sym("Null"))
                    continue
                y = self.expr(r)
                if s == "//" or s == "@":
                    x = E(y, x) if s == "//" else E(x, y)
                elif s == "-":
                    x = E("Plus", x, E("Times", Fraction(-1), y))
                elif s == "/":
                    x = E("Times", x, E("Power", y, Fraction(-1)))
                else:
                    x = E(self.NAME[s], x, y)
                continue
            if self.kind() in ("num", "id", "str") and bp <= 34 and x is not None and bp > 2 and not isinstance(x, Str):
                x = E("Times", x, self.expr(35))
                continue
            break
        return x


def parse(text):
    return Parser(text).program()


class Eval:
    """definitions by name; evaluation by pattern matching in the order of the definitions"""

    def __init__(self, stmts):
        self.defs, self.vals, self.opts = {}, {}, {}
        self.top = []
        self.lib = {}
        for s in stmts:
            self.define(s)

    def define(self, s):
        if isinstance(s, E) and s.h == "CompoundExpression":
            for x in s.a:
                self.define(x)
            return
        if isinstance(s, E) and s.h in ("Set", "SetDelayed"):
            l, r = s.a
            if isinstance(l, E) and l.h == "Options":
                self.opts[l.a[0]] = (r, s.h)
            elif isinstance(l, E) and isinstance(l.h, Sym):
                self.defs.setdefault(l.h, []).append((l, r))
            elif isinstance(l, Sym):
                self.vals[l] = r
            self.top.append(s)
            return
        self.top.append(s)

    # ------------------------------------------------------------ matching
    def match(self, pats, args, b):
        """all bindings of a sequence of patterns"""
        if not pats:
            if not args:
                yield b
            return
        p, rest = pats[0], pats[1:]
        name, q = None, p
        if isinstance(q, E) and q.h == "Pattern":
            name, q = q.a
        if isinstance(q, E) and q.h in ("BlankNullSequence", "BlankSequence", "OptionsPattern") or isinstance(q, E) and q.h == Sym("OptionsPattern"):
            lo = 1 if q.h == "BlankSequence" else 0
            rng = range(lo, len(args) + 1)
            for n in rng:
                part = args[:n]
                if q.h == "OptionsPattern" and not all(isinstance(x, E) and x.h == "Rule" for x in part):
                    continue
                nb = dict(b)
                if name is not None:
                    nb[name] = E("Sequence", *part)
                if q.h == "OptionsPattern":
                    nb["%opts"] = list(part)
                yield from self.match(rest, args[n:], nb)
            return
        if not args:
            return
        for nb in self.match1(p, args[0], b):
            yield from self.match(rest, args[1:], nb)

    def match1(self, p, x, b):
        if isinstance(p, E):
            if p.h == "Pattern":
                for nb in self.match1(p.a[1], x, b):
                    if p.a[0] in nb and nb[p.a[0]] != x:
                        continue
                    nb = dict(nb)
                    nb[p.a[0]] = x
                    yield nb
                return
            if p.h == "Blank":
                if not p.a or head(x) == p.a[0]:
                    yield b
                return
            if p.h == "PatternTest":
                yield from (nb for nb in self.match1(p.a[0], x, b) if p.a[1] != "NumericQ" or numeric(x))
                return
            if p.h == "Alternatives":
                for y in p.a:
                    r = list(self.match1(y, x, b))
                    if r:
                        yield from r
                        return
                return
            if isinstance(x, E) and x.h == p.h:
                yield from self.match(p.a, x.a, b)
            return
        if p == x and type(p) is type(x):
            yield b

    # ------------------------------------------------------------ evaluation
    def subst(self, t, b):
        if isinstance(t, Sym):
            return b.get(t, t)
        if isinstance(t, E):
            return E(self.subst(t.h, b) if not isinstance(t.h, str) or isinstance(t.h, Sym) else t.h, *[self.subst(x, b) for x in t.a])
        return t

    def ev(self, t, opts=None, depth=0):
        if depth > 400:
            raise AnalysisBroken("Mathematica interface: evaluation does not end")
        d = depth + 1
        if isinstance(t, Sym):
            if t in self.vals:
                return self.ev(self.vals[t], opts, d)
            return t
        if not isinstance(t, E):
            return t
        h = t.h
        if isinstance(h, E):
            h = self.ev(h, opts, d)
            if isinstance(h, E) and h.h == "Function":
                if len(h.a) == 1:
                    return self.ev(slots(h.a[0], [self.ev(x, opts, d) for x in t.a]), opts, d)
                ps = h.a[0].a if isinstance(h.a[0], E) else [h.a[0]]
                return self.ev(self.subst(h.a[1], dict(zip(ps, [self.ev(x, opts, d) for x in t.a]))), opts, d)
        if h == "Function":
            return t
        if h in ("With", "Module", "Block"):
            b = {}
            for s in t.a[0].a:
                if isinstance(s, E):
                    b[s.a[0]] = self.ev(s.a[1], opts, d)
            return self.ev(self.subst(t.a[1], b), opts, d)
        if h == "Table":
            its = t.a[1:]
            def rec(body, its):
                if not its:
                    return self.ev(body, opts, d)
                it = its[0].a
                v, r = it[0], [self.ev(x, opts, d) for x in it[1:]]
                if len(r) == 1 and isinstance(r[0], E):
                    vals = r[0].a
                else:
                    lo, hi = (Fraction(1), r[0]) if len(r) == 1 else (r[0], r[1])
                    vals = [Fraction(k) for k in range(int(lo), int(hi) + 1)]
                return E("List", *splice([rec(self.subst(body, {v: k}), [self.subst(q, {v: k}) for q in its[1:]]) for k in vals]))
            return rec(t.a[0], its)
        if h == "If":
            c = self.ev(t.a[0], opts, d)
            if c in ("True", "False"):
                return self.ev(t.a[1] if c == "True" else t.a[2], opts, d)
            return E("If", c, self.ev(t.a[1], opts, d), self.ev(t.a[2], opts, d))
        if h == "CompoundExpression":
            r = Sym("Null")
            for x in t.a:
                r = self.ev(x, opts, d)
            return r
        if h in ("OptionValue",):
            nm = self.ev(t.a[-1], opts, d)
            if opts is None:
                raise AnalysisBroken("OptionValue outside of a definition with options")
            for r in opts:
                if r.a[0] == nm:
                    return r.a[1]
            raise AnalysisBroken("no option %s" % nm)
        a = splice([self.ev(x, opts, d) for x in t.a])
        if h == "List":
            return E("List", *a)
        if h == "Map":
            f, l = a
            if isinstance(l, E) and l.h == "List":
                return E("List", *splice([self.ev(E(f, x), opts, d) for x in l.a]))
            return E("Map", *a)
        if h == "Apply":
            f, l = a
            if isinstance(l, E):
                return self.ev(E(f, *l.a), opts, d)
            return E("Apply", *a)
        if h == "Part":
            x = a[0]
            for k in a[1:]:
                if not (isinstance(x, E) and x.h == "List"):
                    return E("Part", *a)
                if k == "All":
                    return E("List", *[self.ev(E("Part", y, *a[2:]), opts, d) if len(a) > 2 else y for y in x.a])
                n = int(k)
                if not 1 <= abs(n) <= len(x.a):
                    raise AnalysisBroken("Part %d of a list of length %d" % (n, len(x.a)))
                x = x.a[n - 1] if n > 0 else x.a[n]
            return x
        if h == "Flatten":
            def fl(x):
                return sum((fl(y) for y in x.a), []) if isinstance(x, E) and x.h == "List" else [x]
            return E("List", *fl(a[0])) if len(a) == 1 else E("Flatten", *a)
        if h == "Join":
            return E("List", *sum((x.a for x in a), []))
        if h == "Transpose" and isinstance(a[0], E):
            return E("List", *[E("List", *c) for c in zip(*[r.a for r in a[0].a])])
        if h == "Boole":
            return Fraction(1) if a[0] == "True" else Fraction(0) if a[0] == "False" else E("Boole", *a)
        if h == "N":
            return a[0]
        if h == "Times" and all(isinstance(x, Fraction) for x in a):
            r = Fraction(1)
            for x in a:
                r *= x
            return r
        if h == "Plus" and all(isinstance(x, Fraction) for x in a):
            return sum(a)
        if isinstance(h, Sym) and h in self.defs:
            for l, r in self.defs[h]:
                for b in self.match(l.a, a, {}):
                    o = b.pop("%opts", None)
                    if o is not None:
                        o = o + self.options(h)
                    return self.ev(self.subst(r, b), o if o is not None else opts, d)
        return E(h, *a)

    def options(self, f):
        if f not in self.opts:
            return []
        return list(self.ev(self.opts[f][0]).a)


def splice(a):
    r = []
    for x in a:
        if isinstance(x, E) and x.h == "Sequence":
            r += splice(x.a)
        else:
            r.append(x)
    return r


def slots(t, a):
    if isinstance(t, E):
        if t.h == "Slot":
            return a[int(t.a[0]) - 1]
        if t.h == "Function":
            return t
        return E(slots(t.h, a) if isinstance(t.h, E) else t.h, *[slots(x, a) for x in t.a])
    return t


def head(x):
    if isinstance(x, E):
        return Sym(x.h) if isinstance(x.h, str) else x.h
    return Sym("Symbol" if isinstance(x, Sym) else "String" if isinstance(x, Str) else "Integer")


def numeric(x):
    return not (isinstance(x, E) and x.h == "List") and not isinstance(x, Str)
