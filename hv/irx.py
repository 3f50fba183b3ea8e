"""Shared state and locks: reads the LLVM IR of the C++ and the assembler of the Fortran sources."""
import os, re, subprocess, tempfile, shutil, concurrent.futures as cf
from hv import program

OKTYPES = re.compile(r"(^|::)(atomic|mutex|recursive_mutex|timed_mutex|shared_mutex|shared_timed_mutex|once_flag|condition_variable|atomic_flag|atomic_bool|atomic_int|__atomic_base)\b")
LOCKCLS = ("lock_guard", "unique_lock", "scoped_lock", "shared_lock")


def demangle(names):
    names = sorted(names)
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return dict(zip(names, r))


def compile_ir(args):
    src, out, repo, stubs = args
    cmd = ["/usr/bin/clang++-18", "-std=c++14", "-O0", "-g", "-S", "-emit-llvm", "-fno-discard-value-names", "-w", "-I" + repo + "/include", "-I" + repo + "/source", "-I" + repo + "/source/himalaya", "-I/usr/include/eigen3", "-I" + stubs, src, "-o", out]
    cmd += ["-DHimalaya_VERSION_%s=0" % v for v in ("MAJOR", "MINOR", "RELEASE")]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return src, r.returncode, r.stderr[-500:]


class Fun:
    def __init__(self, name, line):
        self.name, self.line = name, line
        self.blocks = {}            # label -> list of instructions
        self.order = []
        self.internal = False


class IR:
    def __init__(self, repo):
        self.repo = repo
        self.funs, self.globals = {}, {}
        self.errors = []
        tmp = tempfile.mkdtemp(prefix="hvir")
        try:
            src = []
            for d, _, fs in os.walk(repo + "/source/himalaya"):
                if "LibraryLink" not in d:
                    src += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
            jobs = [(s, "%s/%d.ll" % (tmp, i), repo, os.path.join(program.VERIF, "stubs")) for i, s in enumerate(sorted(src))]
            with cf.ThreadPoolExecutor(8) as ex:
                for j, (s, rc, err) in zip(jobs, ex.map(compile_ir, jobs)):
                    if rc:
                        self.errors.append("%s: %s" % (s, err))
                    else:
                        self.read(j[1], s[len(repo) + 1:])
        finally:
            shutil.rmtree(tmp)
        self.files = len(src)

    def read(self, path, src):
        md, fun, lab = {}, None, None
        gl = {}
        for ln in open(path, errors="replace"):
            if fun is not None:
                if ln[0] == "}":
                    fun = None
                elif ln[0] in " \t":
                    if "call void @llvm.dbg" in ln or ln.isspace():
                        continue
                    # continuation lines of switch, invoke and landingpad
                    s = ln.strip()
                    b = fun.blocks[lab]
                    if b and (s.startswith(("to label", "catch ", "cleanup", "filter ")) or b[-1].startswith("switch") and not b[-1].rstrip().endswith("]") and "!dbg" not in b[-1]):
                        b[-1] += " " + s
                    else:
                        b.append(s)
                else:
                    m = re.match(r'("[^"]+"|[\w.$-]+):', ln)
                    if m:
                        lab = m.group(1).strip('"')
                        fun.blocks.setdefault(lab, [])
                        fun.order.append(lab)
                continue
            if ln.startswith("define "):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', ln)
                n = m.group(1).strip('"')
                f = Fun(n, "")
                f.internal = " internal " in ln[:40]
                d, cur = 0, ""
                f.params = []
                for c in ln[m.end():]:
                    if c == ")" and d == 0 or c == "," and d == 0:
                        o = re.findall(r'%(?:"[^"]+"|[\w.$-]+)\s*$', cur)
                        f.params.append(o[0].strip().replace('"', "") if o else "")
                        cur = ""
                        if c == ")":
                            break
                        continue
                    d += (c in "([{<") - (c in ")]}>")
                    cur += c
                key = (src, n) if f.internal else n
                f.src = src
                d = re.search(r"!dbg (!\d+)", ln)
                f.dbg = d.group(1) if d else None
                # first block label is the number of arguments
                f.blocks = {"entry": []}
                f.order = ["entry"]
                lab = "entry"
                fun = f
                if key in self.funs:
                    f.dup = True
                else:
                    self.funs[key] = f
            elif ln[0] == "@":
                m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)', ln)
                n, rest = m.group(1).strip('"'), m.group(2)
                pre = re.split(r"\b(global|constant|alias)\b", rest, maxsplit=1)
                if len(pre) > 1 and pre[1] == "global" and " external " not in " " + pre[0]:
                    d = re.search(r"!dbg (!\d+)", rest)
                    gl[n] = dict(src=src, internal="internal" in pre[0], tls="thread_local" in pre[0], dbg=d.group(1) if d else None)
            elif ln[0] == "!":
                m = re.match(r"(!\d+) = (?:distinct )?(.*)", ln)
                if m:
                    md[m.group(1)] = m.group(2)
        for n, g in gl.items():
            g["const"], g["ok"], g["line"], g["type"] = self.gtype(md, g["dbg"])
            self.globals[(src, n) if g["internal"] else n] = g
        for k, f in self.funs.items():
            if f.src == src:
                f.lines = {}
                used = set()
                for b in f.blocks.values():
                    for i in b:
                        m = re.search(r"!dbg (!\d+)", i)
                        if m:
                            used.add(m.group(1))
                for u in used:
                    m = re.search(r"line: (\d+)", md.get(u, ""))
                    f.lines[u] = int(m.group(1)) if m else 0
                m = re.search(r"line: (\d+)", md.get(f.dbg, "") or "")
                f.line = int(m.group(1)) if m else 0

    @staticmethod
    def gtype(md, ref):
        """(declared const, synchronisation type, line)"""
        d = md.get(ref, "")
        if d.startswith("!DIGlobalVariableExpression"):
            d = md.get(re.search(r"var: (!\d+)", d).group(1), "")
        line = re.search(r"line: (\d+)", d)
        line = int(line.group(1)) if line else 0
        t = re.search(r"type: (!\d+)", d)
        const = ok = False
        names = []
        seen = 0
        while t and seen < 10:
            seen += 1
            x = md.get(t.group(1), "")
            if "DW_TAG_const_type" in x:
                const = True
            nm = re.search(r'name: "([^"]*)"', x)
            if nm:
                names.append(nm.group(1))
            if nm and OKTYPES.search(nm.group(1)):
                ok = True
            if "DW_TAG_array_type" in x or "DW_TAG_const_type" in x or "DW_TAG_typedef" in x or "DW_TAG_volatile" in x:
                t = re.search(r"baseType: (!\d+)", x)
            else:
                break
        return const, ok, line, " ".join(names)


class Asm:
    """references of Fortran procedures to writable static storage"""

    def __init__(self, repo):
        self.repo = repo
        self.refs, self.calls, self.errors, self.files = {}, {}, [], 0
        tmp = tempfile.mkdtemp(prefix="hvas")
        try:
            src = []
            for d, _, fs in os.walk(repo + "/source"):
                src += [os.path.join(d, f) for f in fs if f.lower().endswith((".f", ".f90", ".f95", ".f03", ".f77", ".for"))]
            for i, s in enumerate(sorted(src)):
                out = "%s/%d.s" % (tmp, i)
                r = subprocess.run(["gfortran", "-S", "-O0", "-fno-asynchronous-unwind-tables", "-J" + tmp, s, "-o", out], capture_output=True, text=True)
                if r.returncode:
                    self.errors.append(s + ": " + r.stderr[-500:])
                    continue
                self.files += 1
                self.read(out, s[len(repo) + 1:])
        finally:
            shutil.rmtree(tmp)

    def read(self, path, src):
        lines = open(path).read().split("\n")
        sec, writable = "", set()
        funs = set()
        for ln in lines:
            s = ln.strip()
            if s.startswith((".text", ".data", ".bss", ".section")):
                sec = s
            elif s.startswith((".comm", ".lcomm")):
                writable.add(re.match(r"\.l?comm\s+([\w.$]+)", s).group(1))
            elif s.startswith(".type") and "@function" in s:
                funs.add(re.match(r"\.type\s+([\w.$]+)", s).group(1))
            elif re.match(r"[\w.$]+:", ln) and (sec.startswith((".data", ".bss")) or sec.startswith(".section") and (".data" in sec or ".bss" in sec or "tdata" in sec) and "rodata" not in sec and ".data.rel.ro" not in sec):
                writable.add(ln.split(":")[0])
        cur = None
        for ln in lines:
            m = re.match(r"([\w.$]+):", ln)
            if m and m.group(1) in funs:
                cur = m.group(1)
                self.refs.setdefault(cur, {})
                self.calls.setdefault(cur, set())
                continue
            s = ln.strip()
            if cur is None or not s or s[0] == ".":
                continue
            m = re.match(r"(call|jmp)q?\s+\*?([\w.$]+)", s)
            if m and m.group(1) == "call" or m and m.group(2) in funs:
                self.calls[cur].add(m.group(2).split("@")[0])
            for w in re.findall(r"([\w.$]+)(?:[+-]\d+)?\(%rip\)|\$([\w.$]+)", s):
                n = w[0] or w[1]
                if n in writable:
                    op = s.split()[0]
                    last = s.split(",")[-1]
                    wr = op.startswith(("lea",)) or "$" + n in s or n in last and not op.startswith(("cmp", "ucomis", "comis", "test", "fld", "call", "jmp"))
                    # named blocks (common) keep their name, compiler labels get the file
                    k = n
                    self.refs[cur][k] = self.refs[cur].get(k, False) or wr

    def resources(self, f):
        """writable static storage touched by f or anything it calls: name -> written"""
        seen, st, r = set(), [f], {}
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for k, w in self.refs.get(x, {}).items():
                r[k] = r.get(k, False) or w
            st += self.calls.get(x, ())
        return r, seen
