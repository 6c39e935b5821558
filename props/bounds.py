"""Index ranges: interval analysis of integer globals, members, parameters and results over the whole program, relational
within a function (linear literals of the path condition, loop ranges), and the array accesses it decides."""
import math
from props.lib import *
from props.reach import reachable, entries

INTS = ("i32", "i64", "i8", "i16")
SIZES = {"i8": 1, "i1": 1, "i16": 2, "i32": 4, "float": 4, "i64": 8, "double": 8, "ptr": 8}
TOP = (None, None)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    return (lo, hi)


def settle(l):
    """literals with the case distinctions inside them resolved by the other literals; None if they contradict"""
    pol = dict(l)
    for _ in range(6):
        ch = False
        out = []
        for c, p in l:
            if c[0] in ("lt", "eq"):
                v = c[1]
                for a in T.deep_atoms(v):
                    t = T.atom_of(a)
                    if t[0] == "ite":
                        cv = T.bdd_top(t[1].n)[0]
                        q = T.cond_of(cv)
                        if q in pol and q != c:
                            v = lin.restrict(v, cv, pol[q])
                if v != c[1]:
                    ch = True
                    n = T.eq0(v) if c[0] == "eq" else (T.ilt0(v) if len(c) > 2 else T.lt0(v))
                    if not p:
                        n = T.bdd_not(n)
                    if n == T.FALSE:
                        return None
                    if n != T.TRUE:
                        out += T.implied_literals(n)
                    continue
            out.append((c, p))
        l = out
        if not ch:
            break
    return l


class Bounds:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.S = ctx.summ(m)
        self.types = self.S.types
        self.R = reachable(m)
        self.fns = [f for f in sorted(m.fns.values(), key=lambda f: f.name) if f.repo and f.has_body and f.name in self.R]
        self.F = {}
        self.failed = []
        for f in self.fns:
            try:
                self.F[f.name] = ctx.sym(m, f)
            except Exception as e:                        # a function the engine cannot summarise: its effects are top
                self.failed.append((f.dem, str(e)))
        self.I = {}
        self.top = set()
        self.wid = {}
        self.strict = False
        self._jobs()
        self._solve()
        self._heap()

    # ------------------------------------------------------------ keys
    def key(self, loc):
        fs = [c for c in loc.comps if c[0] == "f"]
        if any(c[0] == "o" for c in loc.comps):
            return None
        if fs:
            return ("f", fs[-1][1], fs[-1][2])
        if loc.base[0] == "g":
            return ("g", loc.base[1])
        return None

    def akey(self, F, a):
        t = T.atom_of(a)
        if t[0] == "ld":
            fs = [c for c in t[2] if c[0] == "f"]
            if any(c[0] == "o" for c in t[2]):
                return None
            if fs:
                return ("f", fs[-1][1], fs[-1][2])
            if t[1][0] == "g":
                g = t[1][1]
                if g in self.scalars and not t[2]:
                    v = t[3]
                    if v == 0 or v == ("entry",):
                        return ("gin", F.fn.name, g)
                    if isinstance(v, tuple) and v and v[0] == "call":
                        return ("gout", v[1], g) if self._known(v[1]) else ("g", g)
                    if isinstance(v, tuple) and v and v[0] in ("loop", "loopx") and v[1] in F.li:
                        return ("gl%s" % v[1], F.fn.name, g)
                    return ("gany", F.fn.name, g)
                return ("g", g)
            return None
        if t[0] == "arg":
            return ("arg", F.fn.name, t[1])
        if t[0] == "call":
            return ("ret", t[1])
        return None

    def _known(self, n):
        f = self.m.fns.get(n)
        return f is not None and f.has_body and n in self.F

    # ------------------------------------------------------------ facts
    def exitof(self, F, h, l):
        """the exit edge of loop h the literals say was taken"""
        i = F.li.get(h)
        live = getattr(i, "exit_live", None) or []
        if len(live) == 1:
            return live[0]
        pols = {c[3]: p for c, p in l if c[0] == "exit" and len(c) == 4 and c[1] == F.fn.name and c[2] == h}
        for k, p in pols.items():
            if p and k < len(live):
                return live[k]
        if live and all(pols.get(k) is False for k in range(len(live) - 1)):
            return live[-1]
        return None

    def facts(self, F, polys, l=(), depth=0):
        """literals about the atoms of the polys (closure over loop facts)"""
        out = []
        todo = set()
        for p in polys:
            todo |= set(p.atoms())
        done = set()
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            t = T.atom_of(a)
            x = Poly({((a, 1),): Fraction(1)})
            k = self.akey(F, a)
            r = None
            if k is not None:
                r = self.I.get(k, TOP if (k in self.top or k[0] == "ret") else "bot")
                if self.strict and r != "bot" and not self.exact(k):
                    r = TOP
                if r == "bot":
                    return None
            elif t[0] == "iv":
                r = (0, None)
                i = F.li.get(t[2])
                if i is not None and i.trip is not None and i.kind in ("header", "latch"):
                    c = i.trip.const()
                    if c is not None:
                        r = (0, max(0, c if i.kind == "header" else c - 1))
            elif t[0] == "ivx":
                r = (0, None)
                i = F.li.get(t[2])
                if i is not None and i.trip is not None and depth < 2:
                    tr = self.range(F, i.trip, T.TRUE, depth + 1)
                    if tr is None or tr[0] is None or tr[0] < 0:
                        if tr is not None and tr[1] is not None:
                            r = (0, max(0, tr[1]))
                        i = None
                if i is not None and i.trip is not None and depth < 2:
                    e = self.exitof(F, t[2], l)
                    inside = e is not None and e[0] != t[2] and i.kind == "partial"
                    out.append(("le", x - i.trip + (ONE if inside else ZERO)))
                    todo |= set(i.trip.atoms())
            elif t[0] == "sum":
                br = self.body(F, t) if depth < 2 else None
                st = self._state(F, t)
                if st is not None:                        # the terms depend on the counter itself: its own range
                    br, r = None, st
                if br is not None:
                    tr = self.range(F, t[1], T.TRUE, depth + 1)
                    if tr is not None:
                        th = None if tr[1] is None else max(0, tr[1])
                        r = (0 if br[0] is not None and br[0] >= 0 else (None if br[0] is None or th is None else br[0] * th),
                             0 if br[1] is not None and br[1] <= 0 else (None if br[1] is None or th is None else br[1] * th))
            elif t[0] == "phi":
                i = F.li.get(t[2])
                d = i.deltas.get(a) if i is not None else None
                if d is not None:
                    dr = self.range(F, d[1], T.TRUE, depth + 1) if depth < 2 else TOP
                    dr = dr or TOP
                    ivp = Poly({((i.iv, 1),): Fraction(1)})
                    if dr[0] is not None:
                        out.append(("le", d[0] + P(dr[0]) * ivp - x))
                    if dr[1] is not None:
                        out.append(("le", x - d[0] - P(dr[1]) * ivp))
                    todo |= set(d[0].atoms()) | {i.iv}
            elif t[0] == "fn" and t[1] in ("toint", "idiv") and len(t[2]) and False:
                pass
            if r is not None:
                if r[0] is not None:
                    out.append(("le", P(r[0]) - x))
                if r[1] is not None:
                    out.append(("le", x - P(r[1])))
        return out

    def _state(self, F, t):
        for a in T.deep_atoms(t[2]):
            q = T.atom_of(a)
            if q[0] == "phi":
                return TOP
            if q[0] == "ld" and isinstance(q[3], tuple) and q[3] and q[3][0] == "loop":
                k = self.akey(F, a)
                if k is None or not k[0].startswith("gl"):
                    return TOP
                ini = F.load(F.li[q[3][1]].mem_in, self.scalars[k[2]], "i32")
                c = ini.const() if isinstance(ini, Poly) else None
                r = self.I.get(k)
                if c is None or r is None:
                    return TOP
                return (None if r[0] is None else r[0] - c, None if r[1] is None else r[1] - c)
        return None

    def body(self, F, t):
        """range of the terms of a sum"""
        r = None
        work = [t[2]]
        n = 0
        while work:
            v = work.pop()
            n += 1
            if n > 60:
                return None
            c = v.const()
            if c is not None:
                r = join(r, (c, c))
                continue
            it = [x for x in v.atoms() if T.atom_of(x)[0] == "ite"]
            if not it:
                return None
            q = T.atom_of(it[0])
            work += [T.subst(v, {it[0]: q[2]}), T.subst(v, {it[0]: q[3]})]
        return r

    def lits(self, fs):
        out = []
        for _, p in fs:
            n = T.bdd_not(T.ilt0(-p))                     # p <= 0
            if n == T.FALSE:
                return None
            if n != T.TRUE:
                out += T.implied_literals(n)
        return out

    def cases(self, F, v, pc):
        """[(literals, leaf)] of v under pc; loop ranges included"""
        cs = lin.cases([v], (), 200, conds=[pc])
        if cs is None:
            il = T.implied_literals(pc)
            cs = lin.cases([v], [], 200, conds=[])
            if cs is None:
                return None
            return [(il + l, x[0]) for l, x, _ in cs]
        return [(l, x[0]) for l, x, c in cs if not c or c[0] != T.FALSE]

    def range(self, F, v, pc, depth=0):
        """(lo, hi) or None when unreachable so far"""
        if not isinstance(v, Poly):
            return TOP
        c = v.const()
        if c is not None:
            return (c, c)
        cs = self.cases(F, v, pc)
        if cs is None:
            return TOP
        r = None
        for l, x in cs:
            if any(c[0] == "arg" and p not in self.bools.get((F.fn.name, c[1]), (True, False)) for c, p in l):
                continue
            l = settle(l)
            if l is None:
                continue
            ps = [q[1] for q, _ in l if q[0] in ("lt", "eq")] + [x]
            f = self.facts(F, ps, l, depth)
            if f is None:
                continue
            fl = self.lits(f)
            if fl is None or not lin.feasible(l + fl):
                continue
            b = lin.bounds_of(x, l + fl)
            b = (None if b[0] is None else math.ceil(b[0]), None if b[1] is None else math.floor(b[1]))
            r = join(r, b)
            if r == TOP:
                break
        return r

    def attained(self, F, v, pc):
        """the range as far as it comes from loops, conditions and counters: values that do occur, not only bounds"""
        self.strict = True
        try:
            return self.range(F, v, pc)
        finally:
            self.strict = False

    def exact(self, k, seen=None):
        """every value assigned to k is a constant, a loop index or another exact quantity, plus a constant"""
        if k in self._ex:
            return self._ex[k]
        if k[0] == "g" and k[1] in self.once:
            return True
        seen = seen if seen is not None else set()
        if k in seen:
            return True
        seen.add(k)
        ok = k not in self.top and k in self.by
        for n in self.by.get(k, ()):
            _, F, v, pc = self.jobs[n]
            if F is None:
                ok = ok and self.exact(v, seen)
                continue
            if not ok:
                break
            cs = self.cases(F, v, pc)
            if cs is None:
                ok = False
                break
            for l, x in cs:
                for a in x.atoms():
                    t = T.atom_of(a)
                    if t[0] == "iv" or t[0] == "ivx" and t[2] in F.li and F.li[t[2]].trip is not None:
                        continue
                    q = self.akey(F, a)
                    if q is None or (k[0] == "f" and q != k) or not self.exact(q, seen):
                        ok = False
        if len(seen) == 1 or not ok:
            self._ex[k] = ok
        return ok

    # ------------------------------------------------------------ contributions
    def _jobs(self):
        self.jobs = []
        self.scalars = {}
        for n, d in self.m.globals.items():
            if d.get("ditype") in ("int", "unsigned int") and not d.get("const"):
                self.scalars[n] = Ptr(("g", n), ZERO, d["ditype"])
        self.bools = {}
        self.once = {}
        self.ginit = {}
        direct = {}
        for F in self.F.values():
            for e in F.effects:
                if e.kind == "store" and e.loc.base[0] == "g" and not e.loc.comps and e.loc.base[1] in self.scalars:
                    direct.setdefault(e.loc.base[1], set()).add(e.val.const() if isinstance(e.val, Poly) else None)
        for g, vs in direct.items():
            if len(vs) == 1 and None not in vs and self.m.globals[g].get("init") in (["i", "0", 32], ["z"]) and not any(
                    ("G", g) in self.S.direct(f)[0] for f in self.fns if f.name not in self.F):
                self.once[g] = next(iter(vs))              # set to one value; read as set before it is used
                del self.scalars[g]
                self.I[("g", g)] = (self.once[g],) * 2
        ent = {f.name for f in entries(self.m)}
        for f in self.fns:
            if f.name in ent or f.name not in self.F:
                for k, a in enumerate(f.args):
                    self.top.add(("arg", f.name, k))
                    self.bools[(f.name, k)] = {True, False}
        for f in self.fns:
            F = self.F.get(f.name)
            if F is None:
                mods, _ = self.S.direct(f)
                for p in mods:
                    if p[0] == "G":
                        self.top.add(("g", p[1]))
                    elif p[0] in ("GF", "F"):
                        self.top.add(("f",) + tuple(p[-2:]))
                continue
            for e in F.effects:
                if e.pc == T.FALSE:
                    continue
                if e.kind == "store" and e.size in INTS:
                    k = self.key(e.loc)
                    if k is None:
                        continue
                    if k[0] == "g" and k[1] in self.once:
                        continue
                    if k[0] == "g" and k[1] in self.scalars and not e.loc.comps:
                        for q in ["gany"] + ["gl%s" % h for h in e.loops]:
                            self.jobs.append(((q, f.name, k[1]), F, e.val, e.pc))
                    else:
                        self.jobs.append((k, F, e.val, self._published(F, e, k)))
                elif e.kind == "call":
                    g = self.m.fns.get(e.callee) if e.callee else None
                    if g is None:
                        continue
                    if not g.has_body or not g.repo:
                        self._external(F, e)
                        if not g.has_body:
                            continue
                    if e.callee in self.m.noreturn:
                        continue
                    for k, v in enumerate(e.args):
                        if isinstance(v, Bd):
                            self.bools.setdefault((g.name, k), set()).update((True,) if v.n == T.TRUE else (False,) if v.n == T.FALSE else (True, False))
                        if isinstance(v, Poly) and k < len(g.args) and g.args[k]["ty"] in INTS:
                            self.jobs.append((("arg", g.name, k), F, v, e.pc))
                    for q in self.scalars:
                        if self._sees(e.callee, q):
                            self._gjob(("gin", g.name, q), F, e.mem, e.pc, q)
                            if ("G", q) in self.S.mod_.get(e.callee, ()):
                                for z in ["gany"] + ["gl%s" % h for h in e.loops]:
                                    self.jobs.append(((z, f.name, q), None, ("gout", g.name, q), None))
                elif e.kind == "ret":
                    if isinstance(e.val, Poly) and f.d.get("ret", "i32") in INTS:
                        self.jobs.append((("ret", f.name), F, e.val, e.pc))
                    for q in self.scalars:
                        if ("G", q) in self.S.mod_.get(f.name, ()):
                            self._gjob(("gout", f.name, q), F, e.mem, e.pc, q)
            for q in self.scalars:
                if ("G", q) in self.S.mod_.get(f.name, ()):
                    for h, i in F.li.items():
                        self._gjob(("gl%s" % h, f.name, q), F, i.mem_in, i.hpc, q)
                if self._sees(f.name, q):
                    self.jobs.append((("gany", f.name, q), None, ("gin", f.name, q), None))
                    self.jobs.append((("g", q), None, ("gany", f.name, q), None))
                    if ("G", q) in self.S.mod_.get(f.name, ()):
                        self.jobs.append((("g", q), None, ("gout", f.name, q), None))
                    if f.name in ent:
                        self.jobs.append((("gin", f.name, q), None, ("g", q), None))
        for n, d in self.m.globals.items():
            if n in self.scalars:
                v = d.get("init")
                c = 0
                if isinstance(v, list) and v and v[0] == "i":
                    c = int(v[1])
                self.I[("g", n)] = (c, c)
                self.ginit[n] = c

    def _published(self, F, e, k):
        """condition under which somebody else sees the value stored: when no call that may read it follows, the function must return"""
        n = F.effects.index(e)
        pat = k[1:] if k[0] == "f" else None
        if pat is None:
            return e.pc
        rets = [x.pc for x in F.effects if x.kind == "ret"]
        if len(rets) != 1:
            return e.pc
        for x in F.effects[n + 1:]:
            if x.kind == "call" and x.pc != T.FALSE:
                g = self.m.fns.get(x.callee) if x.callee else None
                if g is None:
                    return e.pc
                if g.has_body and x.callee not in self.m.noreturn and any(tuple(p[-2:]) == tuple(pat) for p in self.S.ref_.get(x.callee, ())):
                    return e.pc
        return T.bdd_and(e.pc, rets[0])

    def _gjob(self, k, F, mem, pc, g):
        try:
            v = F.load(mem, self.scalars[g], "i32")
        except Exception:
            v = None
        if isinstance(v, Poly):
            self.jobs.append((k, F, v, pc))
        else:
            self.jobs.append((k, None, ("g", g), None)); self.top.add(("g", g))

    def _used(self):
        out = set()
        for F in self.F.values():
            at = set()
            for v in F.vals.values():
                if isinstance(v, Poly):
                    at |= set(v.atoms())
            for b in F.rc.values():
                for c in T.bdd_support(b):
                    q = T.cond_of(c)
                    if q[0] in ("lt", "eq"):
                        at |= set(q[1].atoms())
            for a in at:
                k = self.akey(F, a)
                if k:
                    out.add(k)
        return out

    def _sees(self, callee, g):
        f = self.m.fns.get(callee) if callee else None
        if f is None or not f.has_body or callee in self.m.noreturn:
            return False
        return ("G", g) in self.S.mod_.get(callee, ()) or ("G", g) in self.S.ref_.get(callee, ())

    def _external(self, F, e):
        for k in self.S.ext_mods(e.inst):
            if k < len(e.args) and isinstance(e.args[k], Ptr):
                p = e.args[k]
                try:
                    kk = self.key(F.loc(p, 4))
                except Exception:
                    kk = None
                if kk is not None:
                    self.top.add(kk)

    def _solve(self):
        have = {}
        for k, F, v, pc in self.jobs:
            have.setdefault(k, []).append(v)
        for k in self.top:
            self.I[k] = TOP
        for k in self._used():
            if k not in have and k not in self.I:
                self.I[k] = TOP
        self.th = {}
        for F in self.F.values():
            for c in {c for b in F.rc.values() for c in T.bdd_support(b)}:
                q = T.cond_of(c)
                if q[0] in ("lt", "eq") and len(q[1].t) <= 2:
                    at = list(q[1].atoms())
                    if len(at) == 1 and q[1].t.get(((at[0], 1),)):
                        kk = self.akey(F, at[0])
                        if kk:
                            if kk[0][0] == "g" and len(kk) == 3:
                                kk = ("g", kk[2])
                            v = -q[1].c0() / q[1].t[((at[0], 1),)]
                            self.th.setdefault(kk, set()).update((math.floor(v) - 1, math.floor(v), math.floor(v) + 1))
        dep = {}
        for n, (k, F, v, pc) in enumerate(self.jobs):
            if F is None:
                dep[n] = {v}
                continue
            ks = set()
            at = T.deep_atoms(v) if isinstance(v, Poly) else set()
            at = set(at)
            for c in T.bdd_support(pc):
                at |= T.deep_atoms(T.cond_of(c)[1:])
            for a in at:
                q = self.akey(F, a)
                if q:
                    ks.add(q)
            dep[n] = ks
        todo = list(range(len(self.jobs)))
        rnd = 0
        while rnd < 60:
            if not todo:
                bot = [k for k in have if k not in self.I]
                if not bot:
                    break
                for k in bot:
                    self.I[k] = TOP
                todo = [n for n in range(len(self.jobs)) if dep[n] & set(bot)]
            rnd += 1
            ch = set()
            for n in todo:
                k, F, v, pc = self.jobs[n]
                if self.I.get(k) == TOP:
                    continue
                r = self.range(F, v, pc) if F is not None else self.I.get(v)
                if r is None:
                    continue
                o = self.I.get(k)
                j = join(o, r)
                if j != o:
                    if rnd > 3 and o is not None:
                        th = self.th.get(("g", k[2]) if k[0][0] == "g" and len(k) == 3 else k, ()) if rnd < 30 else ()
                        lo = j[0] if j[0] == o[0] else (None if j[0] is None else max([x for x in th if x <= j[0]], default=None))
                        hi = j[1] if j[1] == o[1] else (None if j[1] is None else min([x for x in th if x >= j[1]], default=None))
                        j = (lo, hi)
                        self.wid[k] = True
                    self.I[k] = j
                    ch.add(k)
            todo = [n for n in range(len(self.jobs)) if dep[n] & ch]
        self.rounds = rnd
        if todo:
            for n in todo:
                self.I[self.jobs[n][0]] = TOP
        by = self.by = {}
        self._ex = {}
        for n, j in enumerate(self.jobs):
            by.setdefault(j[0], []).append(n)
        init = {("g", g): (c, c) for g, c in self.ginit.items()}
        for _ in range(3):                                # descending steps from the fixed point
            new = {}
            for k, ns in by.items():
                o = self.I.get(k)
                if o is None or k in self.top or (o[0] is not None and o[1] is not None and not self.wid.get(k)):
                    continue
                r = init.get(k)
                for n in ns:
                    _, F, v, pc = self.jobs[n]
                    r = join(r, self.range(F, v, pc) if F is not None else self.I.get(v))
                    if r == TOP:
                        break
                if r is None or r == o:
                    continue
                lo = r[0] if o[0] is None else (o[0] if r[0] is None else max(o[0], r[0]))
                hi = r[1] if o[1] is None else (o[1] if r[1] is None else min(o[1], r[1]))
                if (lo, hi) != o:
                    new[k] = (lo, hi)
            if not new:
                break
            self.I.update(new)

    # ------------------------------------------------------------ lengths of heap arrays
    def _heap(self):
        self.H = {}
        self.A = {}
        for name, F in self.F.items():
            for e in F.effects:
                if e.kind != "call" or e.pc == T.FALSE or not e.callee:
                    continue
                g = self.m.fns.get(e.callee)
                if g is None or not g.has_body:
                    continue
                for k, v in enumerate(e.args):
                    if isinstance(v, Ptr) and k < len(g.args):
                        for q in self._split(v):
                            if q.base[0] != "null":
                                self.A.setdefault((g.name, k), []).append((F, q))
        self._al = {}
        for name, F in self.F.items():
            for e in F.effects:
                if e.kind == "store" and e.size == "ptr" and isinstance(e.val, Ptr) and e.pc != T.FALSE:
                    k = self.pkey(e.loc.base, e.loc.comps, F)
                    if k is None:
                        continue
                    if e.val.base[0] == "null":
                        continue
                    n = self.heaplen(F, e.val.base) if e.val.base[0] == "heap" and not e.val.off.t else None
                    self.H.setdefault(k, set()).add(n)


    def extent(self, F, p, es, seen=frozenset()):
        """elements (of es bytes) of its array from where p points, None when not known"""
        if p.base[0] == "arg" and not p.off.t:
            return self.arglen(F, p.base, seen) if p.ty and self.types.size(p.ty) == es else None
        try:
            ty, indexed = F.basety(p)
            loc = F.loc(p, 8)
        except Exception:
            return None
        t, n = ty, None
        for i, c in enumerate(loc.comps):
            if c[0] == "i":
                if i == 0 and indexed:
                    m, z = self.length(F, p.base, seen), c[1].const()
                else:
                    k = self.types.split(t)
                    if k[0] != "arr":
                        return None
                    m, z, t = (k[1] if k[1] > 0 else None), c[1].const(), k[2]
                if n is not None:                          # inside an element already
                    if z != 0:
                        return None
                    continue
                if t is None or self.types.size(t) != es:
                    continue
                if z is None or m is None:
                    return None
                n = int(m - z)
            elif c[0] == "f":
                ms = [m for m in self.types.members(c[1]) if m["name"] == c[2]]
                if not ms:
                    return None
                if n is not None:
                    return None
                t = ms[0]["type"]
            else:
                return None
        return n

    def arglen(self, F, base, seen):
        k = (F.fn.name, base[1])
        if k in self._al:
            return self._al[k]
        if k in seen:
            return None
        ent = {f.name for f in entries(self.m)}
        r = None
        if F.fn.name not in ent and F.fn.name in self._internal():
            p = F.vals.get(base[1])
            es = self.types.size(p.ty) if isinstance(p, Ptr) and p.ty else None
            s = {self.extent(G, q, es, seen | {k}) if es else None for G, q in self.A.get(k, ())}
            if len(s) == 1:
                r = next(iter(s))
        self._al[k] = r
        return r

    def _internal(self):
        """functions whose address is not taken"""
        if not hasattr(self, "_int"):
            taken = set()
            for f in self.m.fns.values():
                if f.has_body:
                    for x in f.all_insts():
                        for o in (x.ops[1:] if x.op in ("call", "invoke") else x.ops):
                            if isinstance(o, (list, tuple)) and len(o) >= 2 and o[0] == "fn":
                                taken.add(o[1])
            self._int = {f.name for f in self.m.fns.values()} - taken
        return self._int

    def pkey(self, base, comps, F=None, depth=0):
        fs = [c for c in comps if c[0] == "f"]
        if any(c[0] == "o" for c in comps):
            return None
        if fs:
            return ("f", fs[-1][1], fs[-1][2], len(comps) - 1 - max(i for i, c in enumerate(comps) if c[0] == "f"))
        if base[0] == "g":
            return ("g", base[1], len(comps))
        if base[0] == "arg" and F is not None and depth < 4:
            ks = set()
            for G, q in self.A.get((F.fn.name, base[1]), ()):
                if q.off.t:
                    return None
                ks.add(self.pkey(q.base, comps, G, depth + 1) if q.base[0] in ("P", "arg", "g") else None)
            if len(ks) == 1 and F.fn.name not in {f.name for f in entries(self.m)}:
                return next(iter(ks))
            return None
        if base[0] == "P":
            t = T.atom_of(base[1])
            if t[0] == "ld":
                k = self.pkey(t[1], t[2], F, depth)
                return ("*", k, len(comps)) if k else None
        return None

    def heaplen(self, F, base):
        G = self.F.get(base[1])
        if G is None:
            return None
        for e in G.effects:
            if e.kind == "call" and isinstance(e.res, Ptr) and e.res.base == base:
                es = self.types.size(e.res.ty) if e.res.ty else None
                a = e.args[0]
                if e.callee == "calloc":
                    a = a * e.args[1]
                if not es or not isinstance(a, Poly):
                    return None
                q = T.div(a, P(es))
                r = self.range(G, q, e.pc)
                if r and r[0] is not None and r[0] == r[1]:
                    return int(r[0])
        return None

    def length(self, F, base, seen=frozenset()):
        if base[0] == "arg":
            return self.arglen(F, base, seen)
        if base[0] == "heap":
            return self.heaplen(F, base)
        if base[0] == "P":
            t = T.atom_of(base[1])
            if t[0] == "ld":
                k = self.pkey(t[1], t[2], F)
                s = self.H.get(k)
                if s and len(s) == 1:
                    return next(iter(s))
        return None

    # ------------------------------------------------------------ accesses
    def accesses(self):
        """(F, inst, block, index, extent, loc)"""
        for f in self.fns:
            F = self.F.get(f.name)
            if F is None:
                continue
            for x in f.all_insts():
                if x.op == "load":
                    op = x.ops[0]
                elif x.op == "store":
                    op = x.ops[1]
                else:
                    continue
                b = x.bb.id
                if b not in F.rc or F.pc(b) == T.FALSE:
                    continue
                p = F.val(op, b)
                if not isinstance(p, Ptr):
                    continue
                for q in self._split(p):
                    for idx, n, loc in self.steps(F, q, SIZES.get(x.ty if x.op == "load" else self._sty(x), 8)):
                        yield F, x, b, idx, n, loc

    def _split(self, p):
        if p.base[0] == "ite":
            _, c, a, b = p.base
            for z in (a, b):
                yield from self._split(Ptr(z.base, z.off + p.off, z.ty or p.ty, z.fld if p.fld is None else z.off + p.fld))
        else:
            yield p

    def _sty(self, x):
        return x.d.get("sty")

    def steps(self, F, p, size=8):
        ty, indexed = F.basety(p)
        loc = F.loc(p, size)
        t = ty
        for n, c in enumerate(loc.comps):
            if c[0] == "i":
                if n == 0 and indexed:
                    yield c[1], self.length(F, p.base), loc
                    continue
                k = self.types.split(t)
                if k[0] != "arr":
                    return
                yield c[1], (k[1] if k[1] > 0 else None), loc
                t = k[2]
            elif c[0] == "f":
                ms = [m for m in self.types.members(c[1]) if m["name"] == c[2]]
                if not ms:
                    return
                t = ms[0]["type"]
            else:
                return
