"""Resolved program: the LLVM IR of /repo's current working tree, loaded from irx's JSON.

Modules are compiled with clang from the sources the CMake files list, linked into one
whole-program module, and dumped by irx (see irx.cpp).  Nothing is executed.
"""
import json, os, subprocess, sys, tempfile, hashlib, re, functools

REPO = os.environ.get("CGMF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(os.path.dirname(HERE), ".build")
IRX = os.path.join(BUILD, "irx")
LLVM = "/usr/lib/llvm-18/bin"


class AnalysisBroken(Exception):
    """An anchor vanished or a rule matched nothing: neither a pass nor a violation."""


# ---------------------------------------------------------------- building
def ensure_irx():
    src = os.path.join(HERE, "irx.cpp")
    if os.path.exists(IRX) and os.path.getmtime(IRX) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = IRX + ".%d" % os.getpid()
    subprocess.check_call(["clang++", "-O1", "-std=c++17", src, "-o", tmp] + flags +
                          ["-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(tmp, IRX)


def library_sources():
    cm = os.path.join(REPO, "libcgmf/src/CMakeLists.txt")
    txt = open(cm).read()
    names = re.findall(r"([\w.+-]+\.(?:cpp|cc|cxx|c))\b", txt)
    out = []
    for n in names:
        p = os.path.join(REPO, "libcgmf/src", n)
        if os.path.exists(p) and p not in out:
            out.append(p)
    if len(out) < 10:
        raise AnalysisBroken("libcgmf/src/CMakeLists.txt lists only %d sources" % len(out))
    return out


def driver_source():
    return os.path.join(REPO, "utils/cgmf/cgmf.cpp")


def build_bitcode(work, extra_defs=(), driver=True, sources=None):
    """Compile the tree's sources to one linked bitcode file. Returns (path, units)."""
    from concurrent.futures import ThreadPoolExecutor
    ensure_irx()
    with open(os.path.join(work, "cgmf_config.h"), "w") as f:
        f.write('#ifndef __CGMF_CONFIG_H__\n#define __CGMF_CONFIG_H__\n'
                '#define INSTALL_DATADIR "/nonexistent/install"\n'
                '#define BUILD_DATADIR "/nonexistent/build"\n#endif\n')
    srcs = list(sources) if sources is not None else library_sources()
    if driver and sources is None:
        srcs.append(driver_source())
    tag = hashlib.md5(" ".join(extra_defs).encode()).hexdigest()[:6]

    def cc(s):
        o = os.path.join(work, os.path.basename(s) + "." + tag + ".bc")
        cmd = ["clang++", "-std=c++14", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-gno-column-info", "-w",
               "-I", work, "-I", os.path.join(REPO, "libcgmf/include"), "-emit-llvm", "-c", s, "-o", o] + list(extra_defs)
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise AnalysisBroken("cannot compile %s:\n%s" % (s, p.stderr[-2000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, srcs))
    out = os.path.join(work, "all.%s.bc" % tag)
    p = subprocess.run([LLVM + "/llvm-link"] + objs + ["-o", out], capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisBroken("llvm-link: " + p.stderr[-2000:])
    return out, srcs


def dump(bc, work, keep=None, only=None, name="m", unroll=True):
    out = os.path.join(work, name + ".json")
    cmd = [IRX, bc, out, "--repo", os.path.realpath(REPO)]
    if keep is not None:
        kf = os.path.join(work, name + ".keep")
        open(kf, "w").write("\n".join(sorted(keep)) + "\n")
        cmd += ["--keep", kf]
    if not unroll:
        cmd.append("--no-unroll")
    if only is not None:
        of = os.path.join(work, name + ".only")
        open(of, "w").write("\n".join(sorted(only)) + "\n")
        cmd += ["--only", of]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisBroken("irx: " + p.stderr[-2000:])
    return Module(json.load(open(out)))


# ---------------------------------------------------------------- model
class Inst:
    __slots__ = ("id", "op", "ty", "ops", "line", "file", "d", "bb", "fn")

    def __init__(self, d, bb, fn):
        self.d = d
        self.id = d["id"]; self.op = d["op"]; self.ty = d["ty"]
        self.ops = d.get("ops", ())
        self.line = d.get("line"); self.file = d.get("file")
        self.bb = bb; self.fn = fn

    @property
    def callee(self):
        return self.d.get("callee")

    @property
    def loc(self):
        return "%s:%s" % (self.file or self.fn.file, self.line or "?")


class Block:
    __slots__ = ("id", "insts", "succs", "preds", "fn")

    def __init__(self, d, fn):
        self.id = d["id"]; self.fn = fn
        self.insts = [Inst(i, self, fn) for i in d["insts"]]
        self.succs = []; self.preds = []


class Loop:
    __slots__ = ("header", "blocks", "latches", "exits", "parent", "id")


class Fn:
    def __init__(self, d, mod):
        self.d = d; self.mod = mod
        self.name = d["name"]; self.dem = d["dem"]; self.short = d.get("short") or d["dem"].split("(")[0]
        self.file = d.get("file", ""); self.line = d.get("line")
        self.decl = d["decl"]; self.repo = d["repo"]
        self.noreturn = d["noreturn"]
        self.has_body = "blocks" in d
        self.args = d.get("args", [])
        self.argtypes = d.get("argtypes", [])
        self.vars = {int(k): v for k, v in d.get("vars", {}).items()}
        self.blocks = {}
        self.order = []
        self._cfg = False
        if self.has_body:
            for b in d["blocks"]:
                bl = Block(b, self)
                self.blocks[bl.id] = bl
                self.order.append(bl)
            self.insts = {i.id: i for b in self.order for i in b.insts}

    def all_insts(self):
        for b in self.order:
            yield from b.insts

    def calls(self):
        for b in self.order:
            for i in b.insts:
                if i.op in ("call", "invoke"):
                    yield i

    # -- CFG; noreturn: set of function names that never return
    def build_cfg(self, noreturn=frozenset()):
        for b in self.order:
            b.succs = []; b.preds = []
        for b in self.order:
            cut = None
            for k, i in enumerate(b.insts):
                if i.op in ("call", "invoke") and (i.d.get("noreturn") or i.callee in noreturn):
                    cut = k
                    break
            if cut is not None:
                continue
            t = b.insts[-1]
            if t.op == "br":
                for o in t.ops:
                    if o[0] == "b" and o[1] not in b.succs:
                        b.succs.append(o[1])
            elif t.op == "switch":
                s = [t.d["default"]] + [c[1] for c in t.d["cases"]]
                for x in s:
                    if x not in b.succs:
                        b.succs.append(x)
            elif t.op == "invoke":
                for o in t.ops:
                    if o[0] == "b":
                        b.succs.append(o[1])
        for b in self.order:
            for s in b.succs:
                self.blocks[s].preds.append(b.id)
        self._analyse()

    def _analyse(self):
        entry = self.order[0].id
        # reachable, RPO
        seen = set(); post = []
        stack = [(entry, iter(self.blocks[entry].succs))]
        seen.add(entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                post.append(n); stack.pop()
        self.rpo = post[::-1]
        self.rpoidx = {b: k for k, b in enumerate(self.rpo)}
        for b in self.order:
            b.preds = [p for p in b.preds if p in seen]
        # dominators
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.blocks[b].preds:
                    if p in idom:
                        new = p if new is None else self._isect(new, p, idom, self.rpoidx)
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        self.idom = idom
        # postdominators with virtual exit -1
        rsucc = {b: list(self.blocks[b].succs) for b in self.rpo}
        exits = [b for b in self.rpo if not rsucc[b]]
        rp = {-1: exits}
        for b in self.rpo:
            rp[b] = list(self.blocks[b].preds)
        seen2 = {-1}; post2 = []
        stack = [(-1, iter(rp[-1]))]
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen2:
                    seen2.add(s); stack.append((s, iter(rp[s]))); break
            else:
                post2.append(n); stack.pop()
        order2 = post2[::-1]; idx2 = {b: k for k, b in enumerate(order2)}
        ip = {-1: -1}
        ch = True
        while ch:
            ch = False
            for b in order2[1:]:
                new = None
                ss = rsucc.get(b) or [-1]
                for s in ss:
                    if s in ip:
                        new = s if new is None else self._isect(new, s, ip, idx2)
                if new is not None and ip.get(b) != new:
                    ip[b] = new; ch = True
        self.ipdom = ip
        # loops
        self.loops = {}
        for b in self.rpo:
            for s in self.blocks[b].succs:
                if s in self.rpoidx and self.dominates(s, b):
                    L = self.loops.get(s)
                    if L is None:
                        L = Loop(); L.header = s; L.blocks = {s}; L.latches = []; L.id = s; L.parent = None; L.exits = []
                        self.loops[s] = L
                    L.latches.append(b)
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in L.blocks:
                            L.blocks.add(x)
                            work.extend(self.blocks[x].preds)
        for L in self.loops.values():
            for x in L.blocks:
                for s in self.blocks[x].succs:
                    if s not in L.blocks:
                        L.exits.append((x, s))
            cands = [M for M in self.loops.values() if M is not L and L.header in M.blocks]
            if cands:
                L.parent = min(cands, key=lambda M: len(M.blocks))
        self.loop_of = {}
        for b in self.rpo:
            cands = [M for M in self.loops.values() if b in M.blocks]
            self.loop_of[b] = min(cands, key=lambda M: len(M.blocks)) if cands else None

    @staticmethod
    def _isect(a, b, dom, idx):
        while a != b:
            while idx[a] > idx[b]:
                a = dom[a]
            while idx[b] > idx[a]:
                b = dom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def loop_nest(self, b):
        out = []
        L = self.loop_of.get(b)
        while L is not None:
            out.append(L)
            L = L.parent
        return out[::-1]


class Module:
    def __init__(self, d):
        self.d = d
        self.records = d["records"]
        self.structs = d["structs"]
        self.globals = d["globals"]
        self.fns = {f["name"]: Fn(f, self) for f in d["functions"]}
        self.by_short = {}
        for f in self.fns.values():
            self.by_short.setdefault(f.short, []).append(f)
        self.noreturn = self._noreturn()
        for f in self.fns.values():
            if f.has_body:
                f.build_cfg(self.noreturn)

    def _noreturn(self):
        nr = {f.name for f in self.fns.values() if f.noreturn}
        nr |= {n for n in ("exit", "abort", "_exit", "_Exit", "quick_exit", "__assert_fail") if n in self.fns}
        ch = True
        while ch:
            ch = False
            for f in self.fns.values():
                if not f.has_body or f.name in nr:
                    continue
                # reach a ret?
                seen = set(); work = [f.order[0].id]; ret = False
                while work and not ret:
                    b = work.pop()
                    if b in seen:
                        continue
                    seen.add(b)
                    bl = f.blocks[b]
                    stop = False
                    for i in bl.insts:
                        if i.op in ("call", "invoke") and (i.d.get("noreturn") or i.callee in nr):
                            stop = True
                            break
                    if stop:
                        continue
                    t = bl.insts[-1]
                    if t.op == "ret":
                        ret = True
                    elif t.op == "br" or t.op == "invoke":
                        work += [o[1] for o in t.ops if o[0] == "b"]
                    elif t.op == "switch":
                        work += [t.d["default"]] + [c[1] for c in t.d["cases"]]
                if not ret:
                    # only if some path ends in a noreturn call (not an infinite loop artefact)
                    nr.add(f.name); ch = True
        return nr

    def find(self, short, cls=None, nargs=None, required=True):
        c = [f for f in self.by_short.get(short, []) if f.has_body and
             (cls is None or f.dem.startswith(cls + "::"))]
        if nargs is not None:
            c = [f for f in c if len(f.args) == nargs]
        if not c:
            if required:
                raise AnalysisBroken("function %s%s not found" % (cls + "::" if cls else "", short))
            return None
        return c[0] if len(c) == 1 else sorted(c, key=lambda f: f.name)[0]

    def findall(self, short, cls=None):
        return sorted([f for f in self.by_short.get(short, []) if f.has_body and
                       (cls is None or f.dem.startswith(cls + "::"))], key=lambda f: f.name)

    def cstr(self, o):
        """C string constant an operand points to, or None."""
        off = 0
        if o[0] == "cg":
            off = o[2]; o = o[1]
        if o[0] == "g":
            g = self.globals.get(o[1])
            if g and isinstance(g.get("init"), dict):
                return g["init"]["s"][off:]
            if g and g.get("const") and g.get("init") == ["z"]:
                return ""
        return None
