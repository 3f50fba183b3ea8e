"""P03: errors reach the caller as exceptions: nothing in the library ends the process, and the Mathematica entry point lets no exception out."""
import os, re, tempfile, shutil
from hv import program, irx

LEVEL = "static"
RULE = ("exception-effect analysis of the LLVM IR of all C++ files (the Mathematica interface included) and of the assembler of the Fortran files: the set of exception types that can leave each function is the least fixed point over the call graph (throw expressions, throwing functions of the standard library, landing pads with their catch clauses and "
        "rethrows).  Every landing pad that ends in std::terminate (noexcept functions, destructors, clean-up during unwinding) must be unreachable for all exceptions of the calls it guards; every exception type that leaves a function is derived from std::exception; the set of the Mathematica entry point is empty; no function calls exit, abort, terminate or "
        "their relatives, no Fortran procedure reaches STOP or a run-time error")
ASSUMPTIONS = ["exhaustion of memory (std::bad_alloc, std::length_error) is outside the property", "calls through function pointers raise what any function whose address is taken raises", "assertions inside Eigen are not violated"]

THROWERS = {"__throw_out_of_range": "St12out_of_range", "__throw_out_of_range_fmt": "St12out_of_range", "__throw_invalid_argument": "St16invalid_argument", "__throw_runtime_error": "St13runtime_error", "__throw_range_error": "St11range_error", "__throw_overflow_error": "St14overflow_error",
            "__throw_underflow_error": "St15underflow_error", "__throw_domain_error": "St12domain_error", "__throw_logic_error": "St11logic_error", "__throw_bad_function_call": "St17bad_function_call", "__throw_bad_cast": "St8bad_cast", "__throw_bad_optional_access": "St19bad_optional_access",
            "__throw_system_error": "St12system_error", "__throw_regex_error": "St11regex_error", "__throw_future_error": "St12future_error", "__cxa_bad_cast": "St8bad_cast", "__cxa_bad_typeid": "St10bad_typeid"}
STRING = re.compile(r"^_ZNK?(?:St7__cxx1112basic_string|Ss|St17basic_string_view).*?(2at|6substr|7replace|6insert|5erase|7compare|6assign)")
RUNTIME = {"St13runtime_error", "St11range_error", "St14overflow_error", "St15underflow_error", "St12system_error", "St11regex_error", "St8ios_base7failure"}
LOGIC = {"St11logic_error", "St12out_of_range", "St16invalid_argument", "St12domain_error", "St12length_error", "St12future_error"}
MEMORY = {"St9bad_alloc", "St20bad_array_new_length", "St12length_error"}
ENDS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "raise", "kill", "_ZSt9terminatev", "__assert_fail", "__assert", "longjmp", "_longjmp", "siglongjmp", "__cxa_pure_virtual"}
FENDS = re.compile(r"^(_gfortran_(stop|error_stop|runtime_error|os_error|abort|exit|generate_error)\w*|exit|_exit|abort|raise|kill)$")
CALL = re.compile(r'\b(call|invoke)\b(?:[^@%"(]|"[^"]*"|%"[^"]*"|\([^@%]*?\))*?([@%](?:"[^"]+"|[\w.$]+))\(')


def std(t, ir):
    """derived from std::exception"""
    return t.startswith("St") or t in ir.derived


def matches(t, c, ir):
    if t == c:
        return True
    if c == "St9exception":
        return std(t, ir)
    if c == "St13runtime_error":
        return t in RUNTIME
    if c == "St11logic_error":
        return t in LOGIC
    return False


class Effects:
    def __init__(self, ir):
        self.ir = ir
        self.T = {k: {} for k in ir.funs}       # function -> {type: where}
        self.sites = {k: self.scan(k, f) for k, f in ir.funs.items()}
        self.taken = self.address_taken()
        work = True
        while work:
            work = False
            for k in ir.funs:
                for types, out in self.flow(k):
                    for t, w in out.items():
                        if t not in self.T[k]:
                            self.T[k][t] = w
                            work = True

    def resolve(self, k, n):
        n = n.strip('"')
        src = k[0] if isinstance(k, tuple) else self.ir.funs[k].src
        return (src, n) if (src, n) in self.ir.funs else n if n in self.ir.funs else None

    def scan(self, k, f):
        """calls of a function: (callee, instruction, pad) with pad = (terminates, catch types, has null) or None"""
        pads = {}
        for lab, b in f.blocks.items():
            for i in b:
                if "landingpad" in i:
                    c = [x.strip('"')[4:] if x != "null" else None for x in re.findall(r"catch ptr (?:@)?(\"[^\"]+\"|[\w.$]+)", i)]
                    term = any("@__clang_call_terminate" in x or "@_ZSt9terminatev" in x for x in b)
                    filt = "filter [0 x ptr]" in i
                    pads[lab] = (term or filt, [x for x in c if x], None in c)
        r = []
        for lab, b in f.blocks.items():
            for i in b:
                if "call " not in i and "invoke " not in i:
                    continue
                m = CALL.search(i)
                if not m or "@llvm." in m.group(2):
                    continue
                u = re.search(r'unwind label %("[^"]+"|[\w.$-]+)', i)
                r.append((m.group(2), i, pads.get(u.group(1).strip('"')) if u else None, u is not None, lab))
        return r

    def address_taken(self):
        r = set()
        for k, f in self.ir.funs.items():
            for b in f.blocks.values():
                for i in b:
                    for m in re.finditer(r'ptr (?:noundef |nonnull |align \d+ |dereferenceable\(\d+\) )*@("[^"]+"|[\w.$]+)(?=[,)])', i):
                        g = self.resolve(k, m.group(1))
                        if g is not None:
                            r.add(g)
        return r

    def raised(self, k, callee, ins):
        """{type: where} raised by one call"""
        f = self.ir.funs[k]
        if callee[0] == "%":
            o = {}
            for g in self.taken:
                o.update(self.T[g])
            return o
        n = callee[1:].strip('"')
        w = "%s:%d" % (f.src, self.line(f, ins))
        if n == "__cxa_throw":
            m = re.search(r'@_ZTI([\w.$]+)', ins)
            t = m.group(1) if m else "?"
            return {} if t in MEMORY else {t: w}
        if n == "__cxa_rethrow":
            return {t: w for _, types in self.caught(k) for t in types}
        m = re.match(r"_ZSt\d+(__throw_\w+?)(PKcz?|v|i|jPKc|NSt.*)?$", n)
        if m or n in THROWERS:
            for p, t in THROWERS.items():
                if n == p or m and re.match(r"_ZSt%d%s(?![a-z_])" % (len(p), p), n):
                    return {t: w}
            return {}
        g = self.resolve(k, n)
        if g is not None:
            return self.T[g]
        if STRING.match(n):
            return {"St12out_of_range": w} if "assign" not in n and "compareEPKc" not in n and not re.search(r"7compareERK|7compareEPK", n) else {}
        return {}

    def caught(self, k):
        for callee, i, pad, inv, lab in self.sites[k]:
            if pad and not pad[0] and callee.strip('@"') != "__cxa_rethrow":
                yield i, {t for t in self.raised(k, callee, i) if pad[2] or any(matches(t, c, self.ir) for c in pad[1])}

    def flow(self, k):
        for callee, i, pad, inv, lab in self.sites[k]:
            R = self.raised(k, callee, i)
            if not R:
                continue
            if not pad:
                yield R, R
            elif pad[0] or pad[2]:
                yield R, {}
            else:
                yield R, {t: w for t, w in R.items() if not any(matches(t, c, self.ir) for c in pad[1])}

    @staticmethod
    def line(f, i):
        m = re.search(r"!dbg (!\d+)", i)
        return f.lines.get(m.group(1), 0) if m else 0


def own(f, k, names):
    """defined by Himalaya (not a template of the standard library or of Eigen)"""
    n = names[k[1] if isinstance(k, tuple) else k]
    return not re.match(r"(void |bool |double |int |unsigned long |decltype\(.*\) |\w[\w:<>, *&()]* )?(std::|Eigen::|__gnu_cxx::|__)", n)


def run(L):
    repo = program.REPO
    ir = irx.IR(repo)
    asm = irx.Asm(repo)
    tmp = tempfile.mkdtemp(prefix="hvp03")
    try:
        for d, _, fs in os.walk(repo + "/source/himalaya/LibraryLink"):
            for s in sorted(x for x in fs if x.endswith(".cpp")):
                p = os.path.join(d, s)
                _, rc, err = irx.compile_ir((p, tmp + "/l.ll", repo, os.path.join(program.VERIF, "stubs")))
                if rc:
                    ir.errors.append("%s: %s" % (p, err))
                else:
                    ir.read(tmp + "/l.ll", p[len(repo) + 1:])
    finally:
        shutil.rmtree(tmp)
    L.need(not ir.errors and not asm.errors, "compilation failed: " + "; ".join((ir.errors + asm.errors)[:2]))
    ir.derived = derived_types(repo)
    E = Effects(ir)
    plain = lambda k: k[1] if isinstance(k, tuple) else k
    names = irx.demangle({plain(k) for k in ir.funs})
    short = lambda k: re.sub(r"\(anonymous namespace\)::", "", names[plain(k)])[:110]
    npad = 0
    for k, f in sorted(ir.funs.items(), key=str):
        mine = own(f, plain(k), names)
        sites = E.sites[k]
        term = [(c, i) for c, i, pad, inv, lab in sites if pad and pad[0]]
        bad = []
        for c, i in term:
            npad += 1
            R = E.raised(k, c, i)
            if R:
                t, w = sorted(R.items())[0]
                bad.append("the call at line %d can raise %s (thrown at %s)" % (E.line(f, i), tname(t), w))
        if term or mine:
            L.ob("terminate", "%s: no exception meets a terminating landing pad" % short(k), not bad, "%s:%d" % (f.src, f.line), "; ".join(sorted(set(bad))[:2]))
        if mine:
            L.funcs.add(short(k))
            ends = ["%s at line %d" % (c.strip('@"'), E.line(f, i)) for c, i, pad, inv, lab in sites if c[1:].strip('"') in ENDS and "terminate" not in lab and not in_pad(f, lab)]
            L.ob("process end", "%s does not end the process" % short(k), not ends, "%s:%d" % (f.src, f.line), "; ".join(ends[:2]))
            nonstd = [(t, w) for t, w in E.T[k].items() if not std(t, ir)]
            L.ob("exception type", "%s: exceptions are derived from std::exception" % short(k), not nonstd, "%s:%d" % (f.src, f.line), "; ".join("%s thrown at %s" % (tname(t), w) for t, w in nonstd[:2]))
    entry = [k for k, f in ir.funs.items() if "LibraryLink" in f.src and isinstance(k, str) and re.match(r"(Himalaya|WolframLibrary)\w*$", k)]
    L.need(entry, "no entry point of the Mathematica interface found")
    for k in sorted(entry):
        out = E.T[k]
        L.ob("interface", "%s lets no exception out" % k, not out, "%s:%d" % (ir.funs[k].src, ir.funs[k].line), "; ".join("%s thrown at %s" % (tname(t), w) for t, w in sorted(out.items())[:3]))
    for g, cs in sorted(asm.calls.items()):
        bad = sorted(c for c in cs if FENDS.match(c))
        L.ob("Fortran", "%s does not end the process" % g, not bad, "source/himalaya/mh2l", "calls " + ", ".join(bad))
    nthrow = sum(1 for k in ir.funs for c, *_ in E.sites[k] if c == "@__cxa_throw")
    L.need(nthrow > 10, "throw expressions not found in the IR")
    L.extra["terminating landing pads"] = npad
    L.extra["throw expressions"] = nthrow
    L.extra["functions that raise"] = sum(1 for k in E.T if E.T[k])


def in_pad(f, lab):
    """blocks of terminating landing pads (entered by unwinding only; judged by the calls they guard)"""
    return any("landingpad" in i for i in f.blocks[lab]) or lab.startswith(("terminate", "__clang_call_terminate")) or f.name == "__clang_call_terminate"


def tname(t):
    return irx.demangle({"_ZTS" + t}).get("_ZTS" + t, t).replace("typeinfo name for ", "")


def derived_types(repo):
    """mangled names of own classes derived (transitively) from std::exception"""
    base = {}
    for d, _, fs in os.walk(repo + "/source"):
        for s in fs:
            if s.endswith((".cpp", ".hpp", ".h")):
                for m in re.finditer(r"\b(?:class|struct)\s+(\w+)\s*(?:final\s*)?:\s*(?:public\s+|virtual\s+)*([\w:]+)", open(os.path.join(d, s), errors="replace").read()):
                    base[m.group(1)] = m.group(2)
    r = set()
    for c in base:
        b, n = c, 0
        while b in base and n < 10:
            b, n = base[b].replace("himalaya::", ""), n + 1
        if b.startswith("std::"):
            r.add(c)

    class D:
        def __contains__(self, t):
            return any("%d%s" % (len(c), c) in t for c in r)
    return D()
