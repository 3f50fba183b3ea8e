"""P01: calculations on different objects can run concurrently: static lockset analysis of all shared state."""
import os, re
from hv import program, irx

LEVEL = "static"
RULE = ("every C++ translation unit is compiled to LLVM IR and every Fortran file to assembler.  Shared state = every writable object of static storage duration (C++ globals, static members and locals, thread_local included; Fortran COMMON blocks, SAVE and initialised variables).  It has to be const (initialised once), a synchronisation object or "
        "atomic, never written after initialisation, or protected: a must-hold lockset dataflow over the control flow graphs (lock_guard, unique_lock, scoped_lock, lock/unlock, own RAII wrappers through procedure summaries), propagated from each access (for Fortran: each call from C++ of a procedure that reaches the storage) to the entry points of the library, has to "
        "leave one common mutex on all paths to all accesses.  No mutex is acquired while it is held (self-deadlock), the acquisition order is acyclic, no lock is left behind at a return, no function of the C library with hidden shared state is called, and no const member function modifies its object")
ASSUMPTIONS = ["Eigen, the C++ and the Fortran run-time libraries are thread-safe", "distinct threads use distinct HierarchyCalculator / Parameters objects, or share them only through const member functions"]
UNSAFE = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48", "strtok", "localtime", "gmtime", "ctime", "asctime", "setlocale", "strerror", "tmpnam", "lgamma", "lgammaf", "lgammal", "gamma", "ecvt", "fcvt", "setenv", "putenv", "unsetenv", "signal", "system", "chdir", "umask",
          "_gfortran_rand", "_gfortran_irand", "_gfortran_srand", "_gfortran_random_seed_i4"}
CALL = re.compile(r'\b(?:call|invoke)\b(?:[^@%"]|%"[^"]*"(?=\s+@)|%[\w.$]+(?=\s+@))*?@("[^"]+"|[\w.$]+)\((.*)')
RESULT = re.compile(r"(%[\w.$]+) = ")
NAME = re.compile(r'@("[^"]+"|[\w.$]+)')


def call_of(i):
    if "call " not in i and "invoke " not in i:
        return None
    m = CALL.search(i)
    return (m.group(1).strip('"'), m.group(2)) if m else None


def operands(args):
    """the %x / @g operands of an argument list, in order"""
    d, cur, out = 0, "", []
    for c in args:
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            if d == 0:
                break
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [re.findall(r'[%@](?:"[^"]+"|[\w.$]+)', o)[-1].replace('"', "") if re.search(r"[%@]", o) else "" for o in out]


def lock_op(n):
    """(kind, mutex argument, guard argument) of a locking function of the standard library; the kinds end in "shared" for shared ownership"""
    m = re.match(r"_ZNSt1[01](lock_guard|unique_lock|scoped_lock|shared_lock)I.*E(C[12]E(.*)|D[0-2]Ev|4lockEv|6unlockEv|7releaseEv)$", n)
    if m:
        k, sh = m.group(2), " shared" if m.group(1) == "shared_lock" else ""
        if k[0] == "C":
            a = m.group(3)
            if "defer_lock" in a or "try_to_lock" in a:
                return ("bind" + sh, 1, 0)
            if "adopt_lock" in a:
                return ("adopt" + sh, 1, 0)
            if a.startswith("OS"):
                return ("move", 1, 0)
            return ("acquire" + sh, 1, 0) if a.startswith("R") else None
        if k[0] == "D":
            return ("release", None, 0)
        return ("acquire" + sh, None, 0) if k == "4lockEv" else ("release", None, 0)
    m = re.match(r"_ZNSt\d+(mutex|recursive_mutex|timed_mutex|shared_mutex|shared_timed_mutex|recursive_timed_mutex)(4lock|6unlock|11lock_shared|13unlock_shared)Ev$", n)
    if m:
        return ("release" if "un" in m.group(2) else "acquire shared" if "shared" in m.group(2) else "acquire", 0, None)
    if n in ("pthread_mutex_lock", "pthread_mutex_unlock"):
        return ("acquire" if n.endswith("_lock") else "release", 0, None)
    return None


class Flow:
    def __init__(self, L, ir, asm):
        self.L, self.ir, self.asm = L, ir, asm
        self.acq, self.rel, self.any = {}, {}, {}
        self.calls, self.callers = {}, {}
        self.inst = {}
        for k, f in ir.funs.items():
            cs = []
            for b in f.blocks.values():
                for i in b:
                    c = call_of(i)
                    if c:
                        cs.append(c[0])
            self.calls[k] = cs
        self.fortran = {n: asm.resources(n)[0] for n in asm.refs}
        self.state = {k: g for k, g in ir.globals.items() if self.ours(k) and not g["const"] and not g["ok"]}
        for k, cs in self.calls.items():
            for c in cs:
                self.callers.setdefault(self.resolve(k, c), set()).add(k)
        self.access = {}           # function -> {(resource, lockset): (written, where)}
        self.order = {}
        # functions that matter: those with accesses, lock operations, and everything that calls them
        base = set()
        for k, f in ir.funs.items():
            hit = any(lock_op(c) or c in self.fortran and self.fortran[c] for c in self.calls[k])
            if not hit and self.state:
                names = {self.plain(s) for s in self.state}
                hit = any(n in i for b in f.blocks.values() for i in b for n in names)
            if hit:
                base.add(k)
        st = list(base)
        while st:
            for c in self.callers.get(st.pop(), ()):
                if c not in base:
                    base.add(c)
                    st.append(c)
        self.rel_funs = base
        self.solve()

    def ours(self, k):
        n = k[1] if isinstance(k, tuple) else k
        if n.startswith(("llvm.", "_ZGV", "_ZTV", "_ZTI", "_ZTS", "__dso", ".str", "_ZStL8__ioinit")):
            return False
        return not re.match(r"_ZZ?N?K?(L?\d+|)?(5Eigen|St|9__gnu_cxx)", n) and "N5Eigen" not in n[:12]

    @staticmethod
    def plain(k):
        return k[1] if isinstance(k, tuple) else k

    def resolve(self, k, callee):
        f = self.ir.funs[k]
        return (f.src, callee) if (f.src, callee) in self.ir.funs else callee

    def global_of(self, f, n):
        return (f.src, n) if (f.src, n) in self.state else n if n in self.state else None

    def solve(self):
        for rnd in range(60):
            old = (dict(self.acq), dict(self.rel), {k: frozenset(v) for k, v in self.access.items()}, dict(self.any))
            for k in self.rel_funs:
                self.function(k)
            if old == (dict(self.acq), dict(self.rel), {k: frozenset(v) for k, v in self.access.items()}, dict(self.any)):
                return
        raise program.AnalysisBroken("lockset analysis does not converge")

    def function(self, k):
        f = self.ir.funs[k]
        f.bound = {}
        self.index(f)
        if k not in self.inst:
            self.inst[k] = self.prepare(f)
        succ, defs, ptr = self.inst[k]
        state = {f.order[0]: frozenset()}
        work = [f.order[0]]
        rel, acc, anyl = set(), {}, set()
        outs = []
        self.leaks = getattr(self, "leaks", {})
        self.dead = getattr(self, "dead", {})
        for _ in range(20000):
            if not work:
                break
            b = work.pop()
            h = state[b]
            for i in f.blocks[b]:
                h = self.step(k, f, i, h, defs, ptr, rel, acc, anyl)
            t = f.blocks[b][-1] if f.blocks[b] else ""
            if t.startswith("ret") or t.startswith("resume"):
                outs.append((t[:3], h))
            for s in succ[b]:
                n = h if s not in state else state[s] & h
                if s not in state or n != state[s]:
                    state[s] = n
                    work.append(s)
        # second pass with the fixed states: accesses with their definite locksets
        acc.clear()
        outs = []
        for b in state:
            h = state[b]
            for i in f.blocks[b]:
                h = self.step(k, f, i, h, defs, ptr, rel, acc, anyl)
            t = f.blocks[b][-1] if f.blocks[b] else ""
            if t.startswith("ret"):
                outs.append(h)
        held = [frozenset((m, g) for m, g in h if g != "init" and (g is None or g.startswith("arg:"))) for h in outs]
        self.acq[k] = frozenset.intersection(*held) if held else frozenset()
        self.leaks[k] = bool(held) and any(x != held[0] for x in held)
        self.rel[k] = frozenset(rel)
        self.any[k] = frozenset(anyl)
        self.access[k] = acc

    def prepare(self, f):
        succ, defs, ptr = {}, {}, {}
        for b, ins in f.blocks.items():
            t = ins[-1] if ins else ""
            succ[b] = [x.strip('"') for x in re.findall(r'label %("[^"]+"|[\w.$]+)', t) if x.strip('"') in f.blocks]
            for i in ins:
                m = RESULT.match(i)
                if m:
                    defs[m.group(1)] = i
                    if re.search(r"= (getelementptr|bitcast|addrspacecast)", i):
                        ops = re.findall(r'[%@](?:"[^"]+"|[\w.$]+)', i.split("=", 1)[1])
                        for o in ops:
                            o = o.replace('"', "")
                            g = self.global_of(f, o[1:]) if o[0] == "@" else ptr.get(o)
                            if g is not None:
                                ptr[m.group(1)] = g
                                break
        return succ, defs, ptr

    def root(self, f, op, defs, depth=0):
        """the object an address operand points to: a global, a local variable, a parameter or the result of a function"""
        if depth > 12 or not op:
            return None
        if op.startswith("@"):
            g = self.ir.globals.get((f.src, op[1:])) or self.ir.globals.get(op[1:])
            if g is None or g["tls"]:
                return None
            return "@%s:%s" % (f.src, op[1:]) if (f.src, op[1:]) in self.ir.globals else op
        if op in f.params:
            return "arg:%d" % f.params.index(op)
        d = defs.get(op, "")
        if "= alloca" in d:
            return op
        if re.search(r"= (getelementptr|bitcast|addrspacecast)", d):
            o = re.findall(r'ptr ([%@](?:"[^"]+"|[\w.$]+))', d.split("=", 1)[1])
            return self.root(f, o[0].replace('"', ""), defs, depth + 1) if o else None
        if "= load " in d:
            o = re.findall(r'ptr ([%@](?:"[^"]+"|[\w.$]+))', d.split("=", 1)[1])
            st = f.stores.get(o[-1].replace('"', ""), []) if o else []
            return self.root(f, st[0], defs, depth + 1) if len(st) == 1 else None
        c = call_of(d)
        if c:
            return self.result((f.src, c[0]) if (f.src, c[0]) in self.ir.funs else c[0], operands(c[1]), f, defs, depth)
        return None

    def result(self, k, ops, f, defs, depth):
        g = self.ir.funs.get(k)
        if g is None:
            return None
        self.index(g)
        gd = {RESULT.match(i).group(1): i for b in g.blocks.values() for i in b if RESULT.match(i)}
        out = {self.root(g, m.group(1).replace('"', ""), gd, depth + 1) for b in g.blocks.values() for i in b for m in [re.match(r'ret ptr ([%@](?:"[^"]+"|[\w.$]+))', i)] if m}
        if len(out) != 1:
            return None
        r = out.pop()
        if r and r.startswith("arg:"):
            n = int(r[4:])
            return self.root(f, ops[n], defs, depth + 1) if n < len(ops) else None
        return r if r and r.startswith("@") else None

    @staticmethod
    def index(f):
        """the addresses that are stored into each local variable"""
        if hasattr(f, "stores"):
            return
        f.stores = {}
        for b in f.blocks.values():
            for i in b:
                m = re.match(r'store ptr ([%@](?:"[^"]+"|[\w.$]+)|null), ptr (%(?:"[^"]+"|[\w.$]+))', i)
                if m:
                    f.stores.setdefault(m.group(2).replace('"', ""), []).append(m.group(1).replace('"', ""))

    @staticmethod
    def subst(x, roots):
        """a lock or guard of a called procedure in terms of the caller"""
        if x and x.split(" ")[0].startswith("arg:"):
            n = int(x.split(" ")[0][4:])
            r = roots[n] if n < len(roots) else None
            return r and r + x[len(x.split(" ")[0]):]
        return x

    def take(self, k, h, m, guard, where, anyl, recursive=False):
        if m:
            base = m.split(" ")[0]
            anyl.add(m)
            held = {x.split(" ")[0] for x, g in h}
            if base in held and not recursive and "recursive" not in self.type_of(base):
                self.dead[k, base] = where
            for o in held - {base}:
                if not o.startswith("arg:") and not base.startswith("arg:"):
                    self.order.setdefault((o, base), where)
            return h | {(m, guard)}
        return h

    def step(self, k, f, i, h, defs, ptr, rel, acc, anyl):
        c = call_of(i)
        where = lambda: "%s:%d" % (f.src, self.line(f, i))                 # noqa
        locks = lambda: frozenset(m for m, g in h)                          # noqa
        if c:
            n, args = c
            op = lock_op(n)
            ops = operands(args)
            if op:
                kind, mi, gi = op
                sh = " shared" if kind.endswith("shared") else ""
                kind = kind.split(" ")[0]
                guard = self.root(f, ops[gi], defs) if gi is not None else None
                if kind == "move":
                    src = self.root(f, ops[1], defs)
                    f.bound[guard] = f.bound.get(src)
                    return frozenset((m, guard if g == src else g) for m, g in h)
                m = self.root(f, ops[mi], defs) if mi is not None else None
                m = m and m + sh
                if guard is not None and m:
                    f.bound[guard] = m
                if kind == "bind":
                    return h
                if kind == "adopt":
                    return frozenset((x, guard if x == m and g is None else g) for x, g in h)
                if kind == "acquire":
                    return self.take(k, h, m or f.bound.get(guard), guard, where(), anyl, "recursive" in n)
                if guard is not None:
                    if guard.startswith("arg:"):
                        rel.add(("guard", guard))
                    return frozenset(x for x in h if x[1] != guard)
                if m and m not in locks():
                    rel.add(("lock", m))
                return frozenset(x for x in h if x[0].split(" ")[0] != m)
            if n == "__cxa_guard_acquire":
                return h | {("initialisation of " + ops[0][5:], "init")}
            if n in ("__cxa_guard_release", "__cxa_guard_abort"):
                return frozenset(x for x in h if x[0] != "initialisation of " + ops[0][5:])
            if n in self.fortran:
                for r, w in self.fortran[n].items():
                    self.put(acc, ("Fortran " + r, locks()), w, where() + " (%s)" % n)
            t = self.resolve(k, n)
            if t in self.rel_funs:
                rs = [self.root(f, o, defs) for o in ops]
                for (r, ls), (w, wh) in list(self.access.get(t, {}).items()):
                    self.put(acc, (r, frozenset(x for x in (self.subst(l, rs) for l in ls) if x) | locks()), w, wh)
                for m in self.any.get(t, ()):
                    m = self.subst(m, rs)
                    if m:
                        self.take(k, h, m, None, where(), anyl, "recursive" in self.type_of(m))
                for kind, x in self.rel.get(t, ()):
                    y = self.subst(x, rs)
                    if y is None:
                        continue
                    if kind == "guard" and y.startswith("arg:") or kind == "lock" and y not in locks():
                        rel.add((kind, y))
                    h = frozenset(z for z in h if (z[1] != y if kind == "guard" else z[0].split(" ")[0] != y))
                for m, g in self.acq.get(t, ()):
                    m, g = self.subst(m, rs), self.subst(g, rs)
                    if m:
                        h |= {(m, g)}
                        if g:
                            f.bound[g] = m
        if self.state and ("@" in i or ptr):
            for o in set(re.findall(r'[%@](?:"[^"]+"|[\w.$]+)', i)):
                o = o.replace('"', "")
                g = self.global_of(f, o[1:]) if o[0] == "@" else ptr.get(o)
                if g is None or re.match(re.escape(o) + r" = ", i) or RESULT.match(i) and RESULT.match(i).group(1) in ptr:
                    continue
                if c and c[0].startswith("__cxa_guard"):
                    continue
                if any(m == "initialisation of " + self.plain(g)[2:] or m.startswith("initialisation of") for m, x in h if x == "init"):
                    continue
                read = re.search(r"= load ", i) is not None
                self.put(acc, (g, locks()), not read, where())
        return h

    def type_of(self, m):
        m = m.split(" ")[0][1:]
        g = self.ir.globals.get(tuple(m.split(":"))) or self.ir.globals.get(m)
        return str(g.get("type", "")) if g else ""

    @staticmethod
    def put(acc, key, w, where):
        o = acc.get(key)
        acc[key] = ((o[0] if o else False) or w, o[1] if o else where)

    def line(self, f, i):
        m = re.search(r"!dbg (!\d+)", i)
        return f.lines.get(m.group(1), f.line) if m else f.line


def run(L):
    repo = program.REPO
    ir = irx.IR(repo)
    asm = irx.Asm(repo)
    for e in ir.errors + asm.errors:
        L.need(False, "compilation of " + e)
    L.need(ir.files >= 10, "C++ translation units")
    F = Flow(L, ir, asm)
    public = set()
    for d, _, fs in os.walk(repo + "/include"):
        for x in fs:
            public |= set(re.findall(r"\b(?:class|struct)\s+(\w+)", open(os.path.join(d, x)).read()))
    names = irx.demangle({F.plain(k) for k in F.rel_funs} | {F.plain(k) for k in ir.globals})
    fname = lambda k: names.get(F.plain(k), F.plain(k)).split("(anonymous namespace)::")[-1].split("(")[0]           # noqa
    taken = set()
    for k, f in ir.funs.items():
        for b in f.blocks.values():
            for i in b:
                c = call_of(i)
                for n in NAME.findall(i):
                    n = n.strip('"')
                    t = F.resolve(k, n)
                    if t in F.rel_funs and not (c and c[0] == n):
                        taken.add(t)
    init = lambda k: F.plain(k).startswith(("__cxx_global_var_init", "_GLOBAL__"))              # noqa
    roots = [k for k in F.rel_funs if not init(k) and (not F.callers.get(k) or k in taken or set(names.get(F.plain(k), "").split("(")[0].split("::")) & public)]
    total = {}
    for k in roots:
        for (r, ls), (w, wh) in F.access.get(k, {}).items():
            total.setdefault(r, []).append((ls, w, wh, k))
    # every writable object with static storage duration
    n = 0
    for k, g in sorted(ir.globals.items(), key=str):
        if not F.ours(k):
            continue
        nm = names.get(F.plain(k), F.plain(k))
        where = "%s:%d" % (g["src"], g["line"])
        n += 1
        if g["const"] or g["ok"]:
            L.ob("state", "%s is %s" % (nm, "const" if g["const"] else "a synchronisation object or atomic"), True, where)
            continue
        a = total.get(k, [])
        if g["tls"]:
            L.ob("state", "%s is thread_local" % nm, True, where)
            continue
        check(L, nm, a, where, fname, roots)
    ext = {c for k in ir.funs for c in F.calls[k] if c in asm.refs}
    L.need(not asm.files or ext, "calls of Fortran procedures from C++")
    res = {}
    for c in ext:
        for r, w in F.fortran[c].items():
            res.setdefault(r, set()).add(c)
    for r in sorted({r for v in asm.refs.values() for r in v} | set(res)):
        a = total.get("Fortran " + r, [])
        if r in res:
            check(L, "Fortran storage %s (used by %s)" % (r, ", ".join(sorted(res[r]))), a, "source/himalaya/mh2l", fname, roots)
        else:
            L.ob("state", "Fortran storage %s is not reachable from C++" % r, True, "source/himalaya/mh2l")
    for c in sorted(ext):
        L.ob("procedure", "%s: static storage %s" % (c, ", ".join(sorted(F.fortran[c])) or "none"), True, "source/himalaya/mh2l")
    for k in sorted(F.rel_funs, key=str):
        if any(lock_op(c) for c in F.calls[k]) and not init(k):
            d = [w for (x, m), w in F.dead.items() if x == k]
            L.ob("deadlock", "%s: no mutex is acquired that is already held" % fname(k), not d, ir.funs[k].src, "acquired again at %s" % ", ".join(d))
            L.ob("leak", "%s: the same mutexes are held at every return" % fname(k), not F.leaks.get(k), ir.funs[k].src, "a return leaves a mutex locked")
    for (x, m), w in sorted(F.dead.items(), key=str):
        L.ob("deadlock", "%s: %s" % (fname(x), names.get(m[1:].split(":")[-1], m)), False, w, "a mutex is acquired that is already held")
    cyc = [(a, b) for a, b in F.order if (b, a) in F.order and a < b]
    L.ob("deadlock", "order of acquisition", not cyc, "", str(cyc))
    constness(L, ir, F)
    bad = {}
    for k, f in ir.funs.items():
        for c in F.calls[k]:
            if c in UNSAFE:
                bad.setdefault(c, []).append(names.get(F.plain(k), F.plain(k)))
    for k in asm.calls:
        for c in asm.calls[k]:
            if c in UNSAFE:
                bad.setdefault(c, []).append(k)
    L.ob("library", "no call of a C library function with hidden shared state", not bad, "", str(bad))
    L.need(n + len(ext) > 0, "anything to analyse")
    L.funcs |= {fname(k) for k in F.rel_funs if "himalaya" in F.plain(k)} | set(ext)
    L.notes.append("%d translation units, %d functions, %d writable objects, %d Fortran procedures called from C++, %d entry points reach shared state" % (ir.files, len(ir.funs), n, len(ext), len(roots)))
    L.assumptions += ASSUMPTIONS


def check(L, nm, a, where, fname, roots):
    w = [x for x in a if x[1]]
    base = {y.split(" ")[0] for x in a for y in x[0]}
    common = [m for m in base if all(m in x[0] or not x[1] and m + " shared" in x[0] for x in a)]
    # one write and everything else reads needs a lock as well; without any write none is needed
    bad = w and not common
    d = ""
    if bad:
        x = min(a, key=lambda x: (len(x[0]), not x[1], x[2]))
        d = "%s at %s without a common lock (entry point %s); written at %s" % ("written" if x[1] else "read", x[2], fname(x[3]), ", ".join(sorted({y[2] for y in w})[:4]))
    L.ob("lockset", "%s: %s" % (nm, "never written after initialisation" if not w else "protected"), not bad, where, d)


def constness(L, ir, F):
    # objects that are shared through const member functions only
    for k, f in sorted(ir.funs.items(), key=str):
        if not F.plain(k).startswith("_ZNK8himalaya") or "%this" not in f.params:
            continue
        F.index(f)
        me = "arg:%d" % f.params.index("%this")
        defs = {RESULT.match(i).group(1): i for b in f.blocks.values() for i in b if RESULT.match(i)}
        bad = []
        for b in f.blocks.values():
            for i in b:
                m = re.match(r'store .*, ptr ([%@](?:"[^"]+"|[\w.$]+))', i)
                if m and F.root(f, m.group(1).replace('"', ""), defs) == me:
                    bad.append("%s:%d" % (f.src, F.line(f, i)))
                c = call_of(i)
                g = ir.funs.get(F.resolve(k, c[0])) if c else None
                if g is None or lock_op(c[0]) or "%this" not in g.params or not c[0].startswith("_ZN") or c[0].startswith("_ZNK"):
                    continue
                o = operands(c[1])
                n = g.params.index("%this")
                if n < len(o) and F.root(f, o[n], defs) == me:
                    bad.append("%s:%d" % (f.src, F.line(f, i)))
        L.ob("const", "%s does not modify its object" % (irx.demangle({F.plain(k)}).get(F.plain(k), F.plain(k))), not bad, "%s:%d" % (f.src, f.line), "written at " + ", ".join(sorted(set(bad))))
