"""Shared machinery: build the analyser, lower /repo's sources to LLVM IR, load the dump, report results."""
import glob, hashlib, json, os, subprocess, sys, time, fcntl, collections, re, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JASS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CLANG = shutil.which("clang++-18") or shutil.which("clang++") or "clang++"
LINK = shutil.which("llvm-link-18") or shutil.which("llvm-link") or "/usr/lib/llvm-18/bin/llvm-link"
CONFIG = shutil.which("llvm-config-18") or shutil.which("llvm-config") or "/usr/lib/llvm-18/bin/llvm-config"

BASE_FLAGS = ["-std=gnu++17", "-fPIC", "-D_GLIBCXX_USE_CXX11_ABI=1", "-DNDEBUG", "-Wno-everything", "-g", "-O0",
              "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-ftemplate-depth=2000"]
ARCH = ["-march=x86-64-v4", "-mbmi", "-mavx2"]          # AVX-512 code path
ARCH_V3 = ["-march=x86-64-v3", "-mbmi", "-mavx2"]       # AVX2 code path


class AnalysisError(Exception):
    """The analysis could not be carried out (vanished anchor, compile failure): never a pass, never a violation."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r.returncode, r.stdout, r.stderr


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, "." + name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def build_tool(name):
    src = os.path.join(VERIF, "tool", name + ".cpp")
    exe = os.path.join(BUILD, name + "-" + digest(read(src)))
    with lock(name):
        if not os.path.exists(exe):
            inc = sh([CONFIG, "--includedir"])[1].strip()
            lib = sh([CONFIG, "--libdir"])[1].strip()
            tmp = exe + ".tmp"
            rc, o, e = sh([CLANG, "-std=c++17", "-O2" if name == "absint" else "-O1", "-fno-rtti", "-fexceptions", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
                           "-D__STDC_LIMIT_MACROS", "-I" + inc, src, "-o", tmp, "-L" + lib, "-lLLVM-18"])
            if rc:
                raise AnalysisError("cannot build the analyser: " + e[-2000:])
            os.rename(tmp, exe)
    return exe


def irtool():
    return build_tool("irtool")


_tree = None


def tree_digest():
    """A digest of every source file of the repository that a translation unit can include."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for top in ("source", "anytime", "tools", "external", "examples"):
            for d, sub, files in os.walk(os.path.join(REPO, top)):
                sub.sort()
                for f in sorted(files):
                    if f.endswith((".h", ".cpp", ".c", ".hpp", ".cc")):
                        p = os.path.join(d, f)
                        h.update(p.encode() + b"\0" + hashlib.sha256(read(p)).digest())
        _tree = h.hexdigest()[:24]
    return _tree


def compile_tu(path, flags):
    """One translation unit of the working tree to bitcode (cached by the content of the whole tree)."""
    src = path if path.startswith("/") else os.path.join(REPO, path)
    if not os.path.exists(src):
        raise AnalysisError("source file has vanished: " + src)
    key = digest(tree_digest(), src, read(src), *[read(p) for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*" if src.startswith(VERIF) else "verif_std.h")))], *flags)
    out = os.path.join(BUILD, "bc", key + ".bc")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    cmd = [CLANG] + flags + ["-I" + os.path.join(REPO, "source"), "-I" + os.path.join(REPO, "anytime"), "-I" + os.path.join(REPO, "tools"), "-I" + os.path.join(VERIF, "harness"),
                             "-c", "-emit-llvm", src, "-o", tmp]
    rc, o, e = sh(cmd)
    if rc:
        raise AnalysisError("does not compile: %s\n%s" % (src, e[-3000:]))
    os.rename(tmp, out)
    return out


def bitcode(paths, flags=None):
    flags = BASE_FLAGS + ARCH if flags is None else flags
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda p: compile_tu(p, flags), paths))
    if len(bcs) == 1:
        return bcs[0]
    out = os.path.join(BUILD, "bc", digest("link", *bcs) + ".bc")
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        rc, o, e = sh([LINK, "-o", tmp] + bcs)
        if rc:
            raise AnalysisError("llvm-link failed: " + e[-2000:])
        os.rename(tmp, out)
    return out


def dump(paths, flags=None, **opt):
    """Dump linked, normalised IR.  opt: funcs, flatten, keep, passes, flat_passes, globals, limit"""
    bc = bitcode(paths, flags)
    tool = irtool()
    args = []
    for k in sorted(opt):
        args += ["--" + k.replace("_", "-"), str(opt[k])]
    out = os.path.join(BUILD, "dump", digest(bc, tool, *args) + ".json")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        rc, o, e = sh([tool, bc, tmp] + args)
        if rc:
            raise AnalysisError("irtool failed: " + e[-2000:])
        os.rename(tmp, out)
    with open(out) as f:
        return Module(json.load(f))


def rel(path):
    p = os.path.normpath(path)
    if p.startswith(REPO + "/"):
        return p[len(REPO) + 1:]
    return p


class Inst:
    __slots__ = ("i", "op", "ty", "o", "d", "block", "pos", "fn")

    def __init__(self, d, block, pos, fn):
        self.d = d
        self.i = d["i"]
        self.op = d["op"]
        self.ty = d["ty"]
        self.o = d.get("o", [])
        self.block = block
        self.pos = pos
        self.fn = fn

    def __getattr__(self, name):
        return self.d.get(name)

    @property
    def line(self):
        l = self.d.get("l")
        return l[0] if l else 0

    @property
    def file(self):
        l = self.d.get("l")
        return rel(l[1]) if l else ""

    def where(self):
        return "%s:%d" % (self.file or self.fn.file, self.line)

    def __repr__(self):
        return "<%%%d %s %s @%s>" % (self.i, self.op, self.d.get("callee", ""), self.where())


class Function:
    def __init__(self, d, mod):
        self.mod = mod
        self.name = d["name"]
        self.dem = d["dem"]
        self.short = short_name(self.dem)
        self.flat = self.name.endswith(".flat")
        self.file = rel(d.get("file", ""))
        self.dline = d.get("line", 0)
        self.scope = d.get("scope", "")
        self.sname = d.get("sname", "")
        self.dity = d.get("dity", [])
        self.ret = d["ret"]
        self.args = d["args"]
        self.inlined = d.get("inlined", [])
        self.nargs = len(self.args)
        self.blocks = []
        self.vals = {}
        for b, insts in enumerate(d["blocks"]):
            row = []
            for n, x in enumerate(insts):
                ins = Inst(x, b, n, self)
                row.append(ins)
                self.vals[ins.i] = ins
            self.blocks.append(row)
        self._succ = None
        self._pred = None
        self._dom = None
        self._users = None

    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def val(self, o):
        """The instruction an operand refers to, or None (argument or constant)."""
        return self.vals.get(o) if isinstance(o, int) else None

    def is_arg(self, o):
        return isinstance(o, int) and 0 <= o < self.nargs

    @property
    def succ(self):
        if self._succ is None:
            self._succ = [list(dict.fromkeys(b[-1].d.get("succ", []))) if b else [] for b in self.blocks]
        return self._succ

    @property
    def pred(self):
        if self._pred is None:
            self._pred = [[] for _ in self.blocks]
            for b, ss in enumerate(self.succ):
                for s in ss:
                    self._pred[s].append(b)
        return self._pred

    def rpo(self):
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        return order[::-1]

    @property
    def idom(self):
        if self._dom is None:
            order = self.rpo()
            num = {b: n for n, b in enumerate(order)}
            idom = {0: 0}
            change = True
            while change:
                change = False
                for b in order[1:]:
                    new = None
                    for p in self.pred[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while num[a] > num[c]:
                                        a = idom[a]
                                    while num[c] > num[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        change = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        """Does instruction a dominate instruction b?"""
        if a.block == b.block:
            return a.pos < b.pos
        return self.block_dominates(a.block, b.block)

    def block_dominates(self, a, b):
        idom = self.idom
        if b not in idom or a not in idom:
            return True             # unreachable code
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    @property
    def users(self):
        if self._users is None:
            u = collections.defaultdict(list)
            for i in self.insts():
                for o in flat_operands(i):
                    if isinstance(o, int):
                        u[o].append(i)
            self._users = u
        return self._users

    def reachable(self, start, stop=frozenset()):
        seen, work = set(), [start]
        while work:
            b = work.pop()
            if b in seen or b in stop:
                continue
            seen.add(b)
            work.extend(self.succ[b])
        return seen

    def __repr__(self):
        return "<fn %s>" % self.dem


def flat_operands(i):
    for o in i.o:
        yield o
    if i.op == "getelementptr":
        for v in i.d.get("var", []):
            yield v[0]
        for v in i.d.get("idx", []):
            yield v
    if "fp" in i.d:
        yield i.d["fp"]


class Module:
    def __init__(self, d):
        self.functions = {}
        for f in d["functions"]:
            fn = Function(f, self)
            self.functions[fn.name] = fn
        self.globals = d["globals"]
        self.structs = d["structs"]
        self.types = {t["n"]: t for t in d["types"]}
        self.type_ids = {t["id"]: t for t in d["types"] if t["id"]}
        self.decls = {n: (dem, decl, rel(file), nounwind) for n, dem, decl, file, nounwind in d["decls"]}

    def find(self, regex, flat=False, need=1):
        r = re.compile(regex)
        out = [f for f in self.functions.values() if f.flat == flat and r.search(f.dem)]
        if len(out) < need:
            raise AnalysisError("anchor not found in the current tree: /%s/ (%d of %d)" % (regex, len(out), need))
        return out

    def demangle(self, name):
        if name in self.decls:
            return self.decls[name][0]
        return name


def short_name(dem):
    """JASS::x::f<...>(args) -> JASS::x::f   (template arguments dropped)"""
    depth = 0
    out = []
    s = dem
    s = s.replace("operator<<", "operator@SHL").replace("operator<", "operator@LT").replace("operator>>", "operator@SHR").replace("operator->", "operator@AR").replace("operator>", "operator@GT").replace("operator()", "operator@CALL")
    for ch in s:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "(" and depth == 0 and not "".join(out).endswith("(anonymous namespace") and "(anonymous" not in "".join(out)[-1:]:
            break
        elif depth == 0:
            out.append(ch)
    r = "".join(out)
    r = r.replace("operator@SHL", "operator<<").replace("operator@LT", "operator<").replace("operator@SHR", "operator>>").replace("operator@AR", "operator->").replace("operator@GT", "operator>").replace("operator@CALL", "operator()")
    r = r.strip().split(" ")[-1] if " " in r and "operator" not in r else r.strip()
    return r


def cint(o):
    """Constant integer operand -> unsigned python int, else None."""
    if isinstance(o, dict) and o.get("k") == "c":
        return int(o["v"])
    return None


def csint(o):
    if isinstance(o, dict) and o.get("k") == "c":
        v = int(o["v"])
        w = o["w"]
        return v - (1 << w) if v >> (w - 1) & 1 else v
    return None


# ---------------------------------------------------------------------------------------------- reporting

class Report:
    def __init__(self, prop, level, tier):
        self.prop = prop
        self.level = level
        self.tier = tier
        self.t0 = time.time()
        self.violations = []
        self.cover = {}
        self.obligations = 0
        self.discharged = 0
        self.details = []

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def note(self, text):
        self.details.append(text)

    def violate(self, key, where, message):
        """key identifies the construct independently of line numbers"""
        self.obligations += 1
        for v in self.violations:
            if v["key"] == key:
                v["also"] = v.get("also", []) + [where]
                return
        self.violations.append({"key": key, "where": where, "message": message})

    def need(self, what, got, least):
        """Zero-instance guard: a rule that found nothing to judge is an error, not a pass."""
        if got < least:
            raise AnalysisError("%s: only %d instance(s) of %s found, at least %d expected: the rule has lost its subject" % (self.prop, got, what, least))


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def finish(rep):
    known = known_findings(rep.prop)
    new = []
    for v in rep.violations:
        k = v["key"].replace(" ", "_")
        if k in known:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (rep.prop, known[k], k, v["where"]))
            v["known"] = True
        else:
            new.append(v)
    os.makedirs(EVID, exist_ok=True)
    cov = dict(rep.cover)
    cov["obligations"] = rep.obligations
    cov["discharged"] = rep.discharged
    ev = {"property": rep.prop, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": rep.level,
          "coverage": cov, "wall_s": round(time.time() - rep.t0, 2)}
    if rep.details:
        cov["details"] = rep.details[:400]
    if rep.violations:
        cov["findings"] = [{k: v[k] for k in v} for v in rep.violations][:200]
    with open(os.path.join(EVID, rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d finding(s) (%d known), %.1fs" % (rep.prop, rep.obligations, rep.discharged, len(rep.violations), len(rep.violations) - len(new), time.time() - rep.t0))
    if new:
        path = os.path.join(EVID, rep.prop + ".violation.json")
        with open(path, "w") as f:
            json.dump(new, f, indent=1)
        for v in new:
            print("  %s: %s  [key=%s]" % (v["where"], v["message"], v["key"].replace(" ", "_")))
        print("VIOLATION property=%s replay=%s" % (rep.prop, path))
        return 1
    return 0
