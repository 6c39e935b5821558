"""Static places (which object/member an address denotes) and interprocedural MOD/REF summaries.

Flow-insensitive, type-resolved: an address is described by the root it is derived from
(argument, local, global, loaded pointer, call result) and its debug-info member path.
Patterns used in summaries:
  ('G', g)            contents of global g with no record path
  ('GF', g, R, f)     member f of record R inside global g
  ('F', R, f)         member f of record R of an object reached through a pointer
  ('A', k)            raw memory reached through pointer argument k
  ('H', X)            raw memory reached through the pointer stored at pattern X
  ('L', id)           local
"""
from . import term as T
from .term import P, Poly, ZERO
from .ditypes import Types

LIBM = {"sqrt", "exp", "log", "pow", "sin", "cos", "tan", "atan", "atan2", "acos", "asin", "fabs", "floor", "ceil", "log10",
        "tgamma", "lgamma", "erf", "sinh", "cosh", "tanh", "fmod", "abs", "exp2", "log2", "round", "cbrt", "fmax", "fmin",
        "hypot", "trunc", "rint", "expf", "sqrtf", "powf", "logf"}
RO_EXT = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "strlen", "strcmp", "strncmp", "atoi", "atof", "exit",
          "fflush", "fclose", "fopen", "perror", "getenv", "free", "malloc", "calloc", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv",
          "_ZdlPvm", "_ZdaPvm", "__cxa_atexit", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "stat", "vfprintf",
          "__cxa_allocate_exception", "__cxa_throw", "abort", "strchr", "strstr", "strdup", "getopt", "strtod", "strtol", "memcmp"}


def libm(name):
    if not name:
        return None
    if name.startswith("llvm."):
        n = name.split(".")[1]
        n = {"fabs": "fabs", "pow": "pow", "powi": "pow", "sqrt": "sqrt", "exp": "exp", "log": "log", "sin": "sin", "cos": "cos",
             "floor": "floor", "ceil": "ceil", "maxnum": "fmax", "minnum": "fmin", "smax": "imax", "smin": "imin", "abs": "iabs",
             "round": "round", "trunc": "trunc", "rint": "rint", "exp2": "exp2", "log10": "log10", "log2": "log2",
             "umin": "imin", "umax": "imax"}.get(n)
        return n
    if name in LIBM:
        return {"expf": "exp", "sqrtf": "sqrt", "powf": "pow", "logf": "log"}.get(name, name)
    return None


class SPlace:
    __slots__ = ("root", "comps", "ty")

    def __init__(self, root, comps, ty):
        self.root = root; self.comps = comps; self.ty = ty

    def pattern(self):
        f = None
        for c in self.comps:
            if c[0] == "f":
                f = c
        r = self.root
        if r[0] == "g":
            return ("GF", r[1], f[1], f[2]) if f else ("G", r[1])
        if r[0] == "al":
            return ("L", r[1])
        if f:
            return ("F", f[1], f[2])
        if r[0] == "arg":
            return ("A", r[1])
        if r[0] == "ld":
            return ("H", r[1])
        return ("?",)


class Summ:
    def __init__(self, mod):
        self.mod = mod
        self.types = Types(mod)
        self._pl = {}
        self._live = {}
        self._sw = None
        self.mod_ = {}
        self.ref_ = {}
        self._solve()

    # ------------------------------------------------------------ types of roots
    def argtype(self, fn, k):
        at = fn.argtypes
        shift = len(fn.args) - (len(at) - 1)
        j = k + 1 - shift
        if shift == 1 and k == 0:
            return (at[0] + "*") if at else None      # sret
        if 0 < j < len(at):
            return at[j]
        return None

    def argname(self, fn, k):
        v = fn.vars.get(k)
        return v[0] if v else "a%d" % k

    def allocatype(self, fn, inst):
        v = fn.vars.get(inst.id)
        return v[1] if v else None

    def globaltype(self, g):
        d = self.mod.globals.get(g)
        return d.get("ditype") if d else None

    def heaptype(self, fn, inst):
        """element type of memory returned by an allocation call"""
        v = fn.vars.get(inst.id)
        if v:
            t = self.types.pointee(v[1])
            if t and t != "void":
                return t
        work = [inst.id]; seen = set()
        best = None
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            for x in fn.all_insts():
                if x.op == "store" and x.ops[0] == ["v", i]:
                    for pl in self.places(fn, x.ops[1]):
                        t = self.types.pointee(pl.ty) if pl.ty else None
                        if t:
                            return t
                elif x.op in ("call", "invoke") and x.ops and x.ops[0] == ["v", i]:
                    g = self.mod.fns.get(x.callee)
                    if g is not None and g.has_body:
                        t = self.argtype(g, 0)
                        if t and self.types.pointee(t) and self.types.pointee(t) != "void":
                            best = self.types.pointee(t)
                elif x.op == "getelementptr" and x.d.get("base") == ["v", i]:
                    work.append(x.id)
                elif x.op == "phi" and any(o[0] == ["v", i] for o in x.ops):
                    work.append(x.id)
        return best

    def rettype(self, callee):
        g = self.mod.fns.get(callee)
        if g is not None and g.argtypes:
            return g.argtypes[0]
        return None

    # ------------------------------------------------------------ places
    def places(self, fn, o, depth=0):
        key = (fn.name, str(o))
        if key in self._pl:
            return self._pl[key]
        self._pl[key] = []
        r = self._places(fn, o, depth)
        self._pl[key] = r
        return r

    def _roots(self, fn, o, seen):
        """[(root, root pointee type, indexed, offset Poly)]"""
        if o[0] == "g":
            return [(("g", o[1]), self.globaltype(o[1]), False, ZERO)]
        if o[0] == "cg":
            return [(r, t, x, f + P(o[2])) for r, t, x, f in self._roots(fn, o[1], seen)]
        if o[0] == "v":
            i = o[1]
            if i in seen:
                return []
            seen = seen | {i}
            if i < len(fn.args):
                t = self.argtype(fn, i)
                return [(("arg", i), self.types.pointee(t) if t else None, True, ZERO)]
            x = fn.insts.get(i)
            if x is None:
                return []
            if x.op == "alloca":
                return [(("al", i), self.allocatype(fn, x), False, ZERO)]
            if x.op == "getelementptr" and "base" in x.d:
                off = P(x.d["off"])
                for tv, sc in x.d["terms"]:
                    if tv[0] == "i":
                        off = off + P(int(tv[1]) * sc)
                    else:
                        off = off + T.var("sx", fn.name, str(tv)) * P(sc)
                return [(r, t, xx, f + off) for r, t, xx, f in self._roots(fn, x.d["base"], seen)]
            if x.op in ("bitcast", "addrspacecast", "freeze"):
                return self._roots(fn, x.ops[0], seen)
            if x.op == "phi":
                out = []
                for v, b in x.ops:
                    for q in self._roots(fn, v, seen):
                        if not any(q[0] == z[0] for z in out):
                            out.append(q)
                return out
            if x.op == "select":
                return self._roots(fn, x.ops[1], seen) + self._roots(fn, x.ops[2], seen)
            if x.op == "load":
                out = []
                for pl in self.places(fn, x.ops[0]):
                    t = self.types.pointee(pl.ty) if pl.ty else None
                    out.append((("ld", pl.pattern()), t, True, ZERO))
                return out or [(("?",), None, True, ZERO)]
            if x.op in ("call", "invoke"):
                c = x.callee or "?"
                if c in ("_Znwm", "_Znam", "malloc", "calloc"):
                    return [(("heap", i), self.heaptype(fn, x), True, ZERO)]
                g = self.mod.fns.get(c)
                if g is None or not g.has_body:
                    return []
                t = self.rettype(c)
                return [(("call", c, i), self.types.pointee(t) if t else None, True, ZERO)]
        return []

    def _places(self, fn, o, depth):
        out = []
        for root, ty, indexed, off in self._roots(fn, o, frozenset()):
            comps, leaf = self.types.path(ty, off, None, indexed)
            out.append(SPlace(root, comps, leaf))
        return out

    # ------------------------------------------------------------ external effects
    def ext_mods(self, x):
        """argument positions an external call may write through"""
        c = x.callee
        n = len(x.ops)
        if c is None:
            return []
        if c.startswith("llvm."):
            if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c.startswith("llvm.memset"):
                return [0]
            return []
        if c in ("memcpy", "memset", "memmove", "strcpy", "strncpy", "sprintf", "snprintf", "strcat", "fgets"):
            return [0]
        if c in ("sscanf", "fscanf", "__isoc99_sscanf", "__isoc99_fscanf"):
            return list(range(2, n))
        if c.startswith("MPI_"):
            return {"MPI_Reduce": [1], "MPI_Allreduce": [1], "MPI_Comm_rank": [1], "MPI_Comm_size": [1], "MPI_Init": [0, 1],
                    "MPI_Bcast": [0], "MPI_Recv": [0, 6], "MPI_Gather": [3]}.get(c, [])
        if c in RO_EXT or libm(c):
            return []
        f = self.mod.fns.get(c)
        dem = f.dem if f else c
        if "(" not in dem:
            return list(range(n))
        return self._sig_mods(dem, n)

    def _sig_mods(self, dem, n):
        # parse top-level parameter list
        depth = 0; end = len(dem)
        const_this = dem.rstrip().endswith(" const")
        i = dem.rfind(")")
        j = i; depth = 0
        while j >= 0:
            if dem[j] == ")":
                depth += 1
            elif dem[j] == "(":
                depth -= 1
                if depth == 0:
                    break
            j -= 1
        plist = dem[j + 1:i]
        params = []; d = 0; cur = ""
        for ch in plist:
            if ch in "<(":
                d += 1
            if ch in ">)":
                d -= 1
            if ch == "," and d == 0:
                params.append(cur.strip()); cur = ""
            else:
                cur += ch
        if cur.strip():
            params.append(cur.strip())
        shift = n - len(params)
        out = []
        if shift >= 1 and not const_this:
            out.append(0)
        if shift >= 2:
            out.append(1)
        for k, p in enumerate(params):
            if (p.endswith("&") or p.endswith("*")) and "const" not in p:
                out.append(k + max(shift, 0))
        return out

    # ------------------------------------------------------------ MOD / REF
    def direct(self, fn):
        """(mods, refs): lists of (pattern, inst)"""
        mods = []; refs = []
        for x in fn.all_insts():
            if x.op == "store":
                for pl in self.places(fn, x.ops[1]):
                    mods.append((pl.pattern(), x))
            elif x.op == "load":
                for pl in self.places(fn, x.ops[0]):
                    refs.append((pl.pattern(), x))
            elif x.op in ("call", "invoke"):
                g = self.mod.fns.get(x.callee) if x.callee else None
                if g is not None and g.has_body:
                    continue
                md = self.ext_mods(x)
                for k, o in enumerate(x.ops):
                    if o[0] not in ("v", "g", "cg"):
                        continue
                    for pl in self.places(fn, o):
                        if not self._isptr(fn, o):
                            continue
                        ps = self.allpats(pl)
                        for p in ps:
                            if k in md:
                                mods.append((p, x))
                            refs.append((p, x))
        return mods, refs

    def _isptr(self, fn, o):
        if o[0] in ("g", "cg"):
            return True
        i = o[1]
        if i < len(fn.args):
            return fn.args[i]["ty"] == "ptr"
        return fn.insts[i].ty == "ptr"

    def allpats(self, pl):
        """patterns covered by a whole-object effect at this place"""
        out = [pl.pattern()]
        t = pl.ty
        # an aggregate place: descend into its record
        base_ty = self._aggtype(pl)
        if base_ty and base_ty in self.types.rec:
            st = [base_ty]; seen = set()
            while st:
                r = st.pop()
                if r in seen:
                    continue
                seen.add(r)
                for m in self.types.members(r):
                    mt = m["type"]
                    if pl.root[0] == "g":
                        out.append(("GF", pl.root[1], r, m["name"]))
                    elif pl.root[0] == "al":
                        pass
                    else:
                        out.append(("F", r, m["name"]))
                    k = self.types.split(mt)
                    while k[0] == "arr":
                        k = self.types.split(k[2])
                    if k[0] == "leaf" and k[1] in self.types.rec:
                        st.append(k[1])
        return out

    def _aggtype(self, pl):
        # first member of a record place resolves to the member: recover the record
        for c in pl.comps:
            if c[0] == "f":
                return None if not self._firstmember(pl) else c[1]
        return None

    def _firstmember(self, pl):
        fs = [c for c in pl.comps if c[0] == "f"]
        if not fs:
            return False
        m = self.types.members(fs[-1][1])
        return len(fs) == 1 and m and (m[0]["name"] == fs[0][2] or m[0]["name"] == "<base>")

    def bind(self, fn, call, pats):
        """callee patterns -> caller patterns at this call site"""
        out = set()
        for p in pats:
            out |= self._bind1(fn, call, p)
        return out

    def _bind1(self, fn, call, p):
        if p[0] == "A":
            k = p[1]
            if k >= len(call.ops):
                return set()
            o = call.ops[k]
            if o[0] not in ("v", "g", "cg"):
                return set()
            return {pl.pattern() for pl in self.places(fn, o)}
        if p[0] == "H":
            return {("H", q) for q in self._bind1(fn, call, p[1])}
        if p[0] == "L":
            return set()
        return {p}

    def _local(self, p):
        while p[0] == "H":
            p = p[1]
        return p[0] == "L"

    def _solve(self):
        fns = [f for f in self.mod.fns.values() if f.has_body]
        d = {}
        calls = {}
        for f in fns:
            m, r = self.direct(f)
            self.mod_[f.name] = {p for p, _ in m if not self._local(p)}
            self.ref_[f.name] = {p for p, _ in r if not self._local(p)}
            calls[f.name] = [x for x in f.calls() if x.callee in self.mod.fns and self.mod.fns[x.callee].has_body
                             and x.callee not in self.mod.noreturn and x.bb.id in f.rpoidx]
        ch = True
        it = 0
        while ch and it < 40:
            it += 1
            ch = False
            for f in fns:
                for tab in (self.mod_, self.ref_):
                    cur = tab[f.name]
                    n0 = len(cur)
                    for x in calls[f.name]:
                        for p in tab[x.callee]:
                            for q in self._bind1(f, x, p):
                                if not self._local(q):
                                    cur.add(q)
                    if len(cur) != n0:
                        ch = True
        self.calls = calls
        # does a function (transitively, on paths that can return) perform I/O or call through a pointer
        imp = {}
        for f in fns:
            e = set()
            live = self.liveblocks(f)
            for x in f.calls():
                if x.bb.id not in live:
                    continue
                c = x.callee
                if c is None:
                    e.add("indirect")
                elif c in self.mod.fns and self.mod.fns[c].has_body:
                    pass
                elif c.startswith("llvm.") or libm(c) or c in ("_Znwm", "_Znam", "malloc", "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "strlen", "strcmp"):
                    pass
                else:
                    e.add("ext")
            imp[f.name] = e
        ch = True
        while ch:
            ch = False
            for f in fns:
                live = self.liveblocks(f)
                for x in calls[f.name]:
                    if x.bb.id not in live:
                        continue
                    n = imp[x.callee] - imp[f.name]
                    if n:
                        imp[f.name] |= n
                        ch = True
        self.impure = imp
        everywritten = set()
        for f in fns:
            everywritten |= self.mod_[f.name]
        self.everywritten = everywritten

    def liveblocks(self, f):
        """blocks from which a return is reachable"""
        r = self._live.get(f.name)
        if r is None:
            r = set()
            work = [b for b in f.rpo if f.blocks[b].insts[-1].op == "ret" and not f.blocks[b].succs and
                    not any(i.op in ("call", "invoke") and (i.d.get("noreturn") or i.callee in self.mod.noreturn) for i in f.blocks[b].insts)]
            while work:
                b = work.pop()
                if b in r:
                    continue
                r.add(b)
                work.extend(f.blocks[b].preds)
            self._live[f.name] = r
        return r

    def is_pure(self, name):
        """reads memory at most; result determined by arguments and memory"""
        f = self.mod.fns.get(name)
        return f is not None and f.has_body and not {p for p in self.mod_.get(name, ()) if p[0] != "?"} and not self.impure.get(name)

    def is_fn_of_args(self, name):
        """pure, and reads nothing that steady-state code writes (constant tables at most)"""
        if not self.is_pure(name):
            return False
        return not any(p in self.steady_written for p in self.ref_[name])

    @property
    def steady_written(self):
        if self._sw is None:
            self._sw = self.everywritten
        return self._sw
