"""Forward abstract interpretation of one function in the term domain.

Every SSA value is mapped to a canonical term over the function's inputs (arguments, memory at
entry, results of calls kept opaque); joins become case distinctions over branch conditions kept
as BDDs; loops are summarised (induction variables in closed form, everything a loop may write is
forgotten at its head).  One pass over the control-flow graph; no path enumeration, no solver.
The result is the list of effects (stores, calls, returns) with their conditions, which the
property rules compare with what must hold.
"""
import re
from fractions import Fraction
from . import term as T
from .term import (P, Poly, ZERO, ONE, Bd, Ptr, TRUE, FALSE, bdd_and, bdd_or, bdd_not, bdd_ite, bvar, ite, var)
from .ditypes import compare
from .summ import libm
from .ir import AnalysisBroken

SIZES = {"double": 8, "i32": 4, "i8": 1, "i64": 8, "ptr": 8, "float": 4, "i16": 2, "i1": 1}



STDCOPY = re.compile(r"^_ZSt(4copy|6copy_n)IPK?([dficbljm])(?:[diljm]|)(?:S\d?_|P[diljm])E")


def _ptrcases(p):
    """[(condition, pointer)] of a pointer that is a case distinction"""
    if p.base[0] != "ite":
        return [(TRUE, p)]
    _, c, a, b = p.base
    out = []
    for cn, q in ((c.n, a), (bdd_not(c.n), b)):
        for x, r in _ptrcases(Ptr(q.base, q.off + p.off, q.ty or p.ty, q.fld if p.fld is None else q.off + p.fld)):
            out.append((bdd_and(cn, x), r))
    return out


def _constsel(q):
    """a case distinction between constants"""
    if len(q.t) != 1:
        return False
    (m, c), = q.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return False
    t = T.atom_of(m[0][0])
    return t[0] == "ite" and all(isinstance(x, Poly) and (x.const() is not None or _constsel(x)) for x in t[2:4])


class Eff:
    __slots__ = ("kind", "inst", "pc", "loops", "ptr", "loc", "val", "callee", "args", "mem", "res", "size", "seq", "bb")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))

    @property
    def where(self):
        return self.inst.loc


class Mem:
    __slots__ = ("k", "prev", "a", "id", "memo")
    n = 0

    def __init__(self, k, prev=None, *a):
        self.k = k; self.prev = prev; self.a = a
        Mem.n += 1
        self.id = Mem.n
        self.memo = {}


class LoopInfo:
    __slots__ = ("L", "iv", "trip", "exitmap", "exit_live", "tokens", "mem_in", "mem_out", "hpc", "phis", "kind", "cont", "deltas")


class Loc:
    __slots__ = ("base", "comps", "ty", "size")

    def __init__(self, base, comps, ty, size):
        self.base = base; self.comps = comps; self.ty = ty; self.size = size


class FnSym:
    def __init__(self, fn, summ, argvals=None, opaque_calls=(), maxbdd=3000, nan=()):
        self.nan_atoms = frozenset(nan)
        self.fn = fn
        self.mod = fn.mod
        self.summ = summ
        self.types = summ.types
        self.vals = {}
        self.effects = []
        self.rc = {}
        self.memout = {}
        self.memin = {}
        self.li = {}
        self.seq = 0
        self.maxbdd = maxbdd
        self.argvals = argvals or {}
        self.notes = []
        self.live = summ.liveblocks(fn)
        self._args()
        self._run()

    # ------------------------------------------------------------ setup
    def _cut(self, b):
        return any(i.op in ("call", "invoke") and (i.d.get("noreturn") or i.callee in self.mod.noreturn) for i in self.fn.blocks[b].insts)

    def _args(self):
        f = self.fn
        for k, a in enumerate(f.args):
            if k in self.argvals:
                self.vals[k] = self.argvals[k]
                continue
            nm = self.summ.argname(f, k)
            t = self.summ.argtype(f, k)
            if a["ty"] == "ptr":
                self.vals[k] = Ptr(("arg", k, nm), ZERO, self.types.pointee(t) if t else None)
            elif a["ty"] == "i1":
                self.vals[k] = Bd(bvar("arg", k, nm))
            else:
                self.vals[k] = var("arg", k, nm)

    # ------------------------------------------------------------ ordering
    def _order(self, L):
        f = self.fn
        region = [b for b in f.rpo if (L is None or b in L.blocks)]
        kids = [c for c in f.loops.values() if c.parent is L]
        rep = {}
        for b in region:
            rep[b] = b
            for c in kids:
                if b in c.blocks:
                    rep[b] = c.header
        entry = L.header if L else f.rpo[0]
        nodes = []
        for b in region:
            if rep[b] == b:
                nodes.append(b)
        ns = set(nodes)
        ind = {n: 0 for n in nodes}
        edges = {n: set() for n in nodes}
        for b in region:
            for s in f.blocks[b].succs:
                if s in rep and rep[s] != rep[b] and rep[s] != entry:
                    edges[rep[b]].add(rep[s])
        for n in nodes:
            for s in edges[n]:
                ind[s] += 1
        kid = {c.header: c for c in kids}
        ready = sorted([n for n in nodes if ind[n] == 0], key=f.rpoidx.get)
        out = []
        while ready:
            n = ready.pop(0)
            out.append(kid.get(n, n) if n != entry or n not in kid else kid[n])
            for s in edges[n]:
                ind[s] -= 1
                if ind[s] == 0:
                    ready.append(s)
            ready.sort(key=f.rpoidx.get)
        if len(out) != len(nodes):
            raise AnalysisBroken("irreducible control flow in %s" % f.dem)
        return out

    def _run(self):
        self.mem0 = Mem("init")
        self.iterpc = {None: TRUE}
        self._region(None, self.mem0)

    def _region(self, L, mem_entry):
        f = self.fn
        for item in self._order(L):
            if not isinstance(item, int):
                self._loop(item, L)
            else:
                b = item
                if L is None and b == f.rpo[0]:
                    self.rc[b] = TRUE
                    self.memin[b] = mem_entry
                elif L is not None and b == L.header:
                    self.rc[b] = TRUE
                    self.memin[b] = mem_entry
                else:
                    self._join(b, L)
                self._block(b, L)

    # edges into b from outside b's own loop structure
    def _inedges(self, b, L):
        """[(pred block, cond, mem)] for edges into b within region L"""
        f = self.fn
        out = []
        for p in f.blocks[b].preds:
            if L is not None and p not in L.blocks:
                continue
            LP = f.loop_of[p]
            # climb to region L
            child = None
            while LP is not L:
                if LP is None:
                    child = "bad"
                    break
                child = LP
                LP = LP.parent
            if child == "bad":
                continue
            if child is None:
                if p not in self.rc:
                    continue
                c = bdd_and(self.rc[p], self._edge(p, b))
                out.append((p, c, self.memout[p]))
            else:
                if child.header not in self.li:
                    continue
                info = self.li[child.header]
                tok = info.tokens.get((p, b), FALSE)
                c = bdd_and(self.rc_outer[child.header], tok)
                out.append((p, c, info.mem_out))
        return out

    rc_outer = None

    def _edge(self, p, b):
        t = self.fn.blocks[p].insts[-1]
        if t.op == "br":
            if len(t.ops) == 1:
                return TRUE
            # llvm operand order: cond, false-dest, true-dest
            c = self._cond(self.val(t.ops[0], p))
            fd, td = t.ops[1][1], t.ops[2][1]
            if fd == td:
                return TRUE
            return c if b == td else bdd_not(c)
        if t.op == "switch":
            v = self.val(t.ops[0], p)
            hit = FALSE
            non = TRUE
            for cv, blk in t.d["cases"]:
                e = T.eq0(v - P(int(cv[1])))
                e = bdd_and(e, non)
                non = bdd_and(non, bdd_not(e))
                if blk == b:
                    hit = bdd_or(hit, e)
            if t.d["default"] == b:
                hit = bdd_or(hit, non)
            return hit
        return TRUE

    def _cond(self, v):
        if isinstance(v, Bd):
            return v.n
        if isinstance(v, Poly):
            return bdd_not(T.eq0(v))
        return bvar("c", v)

    def _cap(self, n, b):
        if T.bdd_size(n) > self.maxbdd:
            self.notes.append("condition of block %s widened" % b)
            return bvar("pc", self.fn.name, b)
        return n

    def _join(self, b, L):
        ed = self._inedges(b, L)
        rc = FALSE
        for _, c, _m in ed:
            rc = bdd_or(rc, c)
        self.rc[b] = self._cap(rc, b)
        self._edges_in = ed
        mems = []
        for p, c, m in ed:
            mems.append((c, m))
        if not mems:
            self.memin[b] = Mem("init")
            return
        if all(m is mems[0][1] for _, m in mems):
            self.memin[b] = mems[0][1]
        else:
            care = self.rc[b]
            self.memin[b] = Mem("mg", None, [(T.bdd_constrain(c, care), m) for c, m in mems])

    def pc(self, b):
        return bdd_and(self.rc.get(b, FALSE), self.iterpc[self._lid(self.fn.loop_of[b])])

    @staticmethod
    def _lid(L):
        return L.header if L is not None else None

    # ------------------------------------------------------------ loops
    def _loop(self, L, parent):
        f = self.fn
        h = L.header
        if self.rc_outer is None:
            self.rc_outer = {}
        # entering condition and memory
        ed = []
        for p in f.blocks[h].preds:
            if p in L.blocks:
                continue
            if parent is not None and p not in parent.blocks:
                continue
            ed.append(p)
        saved = [(p, c, m) for p, c, m in self._inedges(h, parent) if p not in L.blocks]
        rc = FALSE
        for _, c, _m in saved:
            rc = bdd_or(rc, c)
        if parent is not None and h == parent.header:
            rc = TRUE
        self.rc_outer[h] = self._cap(rc, h)
        self.iterpc[h] = bdd_and(self.rc_outer[h], self.iterpc[self._lid(parent)])
        if not saved:
            m_in = self.mem0
        elif all(m is saved[0][2] for _, _, m in saved):
            m_in = saved[0][2]
        else:
            care = self.rc_outer[h]
            m_in = Mem("mg", None, [(T.bdd_constrain(c, care), m) for _, c, m in saved])
        info = LoopInfo()
        info.L = L
        info.iv = T.atom("iv", f.name, h)
        info.phis = {}
        info.exitmap = {}
        info.trip = None
        info.kind = None
        info.cont = None
        info.mem_in = m_in
        info.hpc = self.iterpc[h]
        info.tokens = {}
        info.deltas = {}
        self.li[h] = info
        pats = self._loop_pats(L)
        mh = Mem("hv", m_in, pats, ("loop", h))
        # phis
        blk = f.blocks[h]
        ivp = Poly({((info.iv, 1),): Fraction(1)})
        for x in blk.insts:
            if x.op != "phi":
                break
            ini = None
            iv_in = [(v, p) for v, p in x.ops if p not in L.blocks]
            if len(iv_in) == 1 or all(v == iv_in[0][0] for v, p in iv_in):
                ini = self.val(iv_in[0][0], iv_in[0][1])
            else:
                care = self.rc_outer[h]
                cc = {p: c for p, c, m in saved}
                for v, p in iv_in:
                    w = self.val(v, p)
                    ini = w if ini is None else ite(T.bdd_constrain(cc.get(p, FALSE), care), w, ini)
            step = self._step(x, L)
            if step is not None and isinstance(ini, Poly):
                self.vals[x.id] = ini + step * ivp
                info.phis[x.id] = ("iv", ini, step)
            elif step is not None and isinstance(ini, Ptr):
                self.vals[x.id] = Ptr(ini.base, ini.off + step * ivp, ini.ty, ini.fld)
                info.phis[x.id] = ("iv", ini, step)
            else:
                a = T.atom("phi", f.name, h, x.id)
                info.phis[x.id] = ("opq", ini, a)
                if x.ty == "ptr":
                    self.vals[x.id] = Ptr(("phi", f.name, h, x.id), ZERO, ini.ty if isinstance(ini, Ptr) else None)
                elif x.ty == "i1":
                    self.vals[x.id] = Bd(bvar("phi", f.name, h, x.id))
                else:
                    self.vals[x.id] = Poly({((a, 1),): Fraction(1)})
        eff0 = len(self.effects)
        self._region(L, mh)
        # exits
        live = [(x, s) for x, s in L.exits if s in self.live]
        info.exit_live = live
        if not live:
            live = list(L.exits)
        if len(live) == 1:
            info.tokens[live[0]] = TRUE
            self._trip(L, info, live[0])
        else:
            rest = TRUE
            for k, e in enumerate(live):
                if k == len(live) - 1:
                    info.tokens[e] = rest
                else:
                    t = bvar("exit", f.name, h, k)
                    info.tokens[e] = bdd_and(rest, t)
                    rest = bdd_and(rest, bdd_not(t))
            for e in live:
                if e[0] == h and f.blocks[h].insts[-1].op == "br":
                    self._trip(L, info, e, partial=True)
        # dead exits (e.g. error paths) keep their in-iteration condition: handled as ordinary effects
        for e in L.exits:
            if e not in info.tokens:
                c = bdd_and(self.rc.get(e[0], FALSE), self._edge(e[0], e[1])) if f.loop_of[e[0]] is L else bvar("exit", f.name, h, e[0], e[1])
                info.tokens[e] = c
        if info.trip is not None and info.kind != "partial":
            last = info.trip if info.kind == "header" else info.trip - ONE
            info.exitmap[info.iv] = last
        else:
            info.exitmap[info.iv] = var("ivx", f.name, h)
        for pid, d in info.phis.items():
            if d[0] == "opq":
                a = d[2]
                r = None
                x = f.insts[pid]
                lat = [(v, p) for v, p in x.ops if p in L.blocks]
                if x.ty not in ("ptr", "i1") and len(lat) == 1 and isinstance(d[1], Poly):
                    lv = self.val(lat[0][0], lat[0][1])
                    if isinstance(lv, Poly):
                        dl = lv - Poly({((a, 1),): Fraction(1)})
                        if a in T.deep_atoms(dl):
                            dl = T.distribute(dl)
                        info.deltas[a] = (d[1], dl)
                if x.ty not in ("ptr", "i1") and info.trip is not None and info.kind == "header" and len(lat) == 1 and isinstance(d[1], Poly):
                    lv = self.val(lat[0][0], lat[0][1])
                    if isinstance(lv, Poly):
                        delta = info.deltas[a][1]
                        opq = {q[2] for q in info.phis.values() if q[0] == "opq"}
                        if not (T.deep_atoms(delta) & opq):
                            r = d[1] + mk_sum(info.iv, info.trip, delta)
                if x.ty not in ("ptr", "i1"):
                    info.exitmap[a] = r if r is not None else var("phix", f.name, h, pid)
        info.mem_out = Mem("hv", m_in, pats, ("loopx", h))
        if info.trip is not None and info.kind == "header":
            self._mem_sums(L, info, eff0, m_in)

    def _mem_sums(self, L, info, eff0, m_in):
        """locations the loop only accumulates into: x := x + delta, exactly one store, nothing else may write x"""
        h = L.header
        mine = self.effects[eff0:]
        stores = [e for e in mine if e.kind == "store" and e.loops and e.loops[-1] == h and isinstance(e.val, Poly)]
        bad = {info.iv} | {d[2] for d in info.phis.values() if d[0] == "opq"}
        for e in stores:
            if e.loc.base[0] not in ("g", "arg", "al", "P", "heap") or any(c[0] == "o" for c in e.loc.comps):
                continue
            if T.deep_atoms((e.loc.base,) + tuple(c[1] for c in e.loc.comps if c[0] == "i")) & bad:
                continue
            # the value the location had when this iteration began
            old = self.load(Mem("hv", m_in, frozenset(), None), e.ptr, e.size) if False else None
            a = T.atom("ld", e.loc.base, e.loc.comps, ("loop", h))
            oldp = Poly({((a, 1),): Fraction(1)})
            delta = e.val - oldp
            at = T.deep_atoms(delta)
            if a in at or at & (bad - {info.iv}):
                continue
            # nothing else writes it
            clash = False
            for f in mine:
                if f is e:
                    continue
                if f.kind == "store":
                    if self._anchor(f.loc.base) == self._anchor(e.loc.base) and compare(f.loc.comps, e.loc.comps) != "no":
                        clash = True
                elif f.kind in ("memcpy", "memset"):
                    if self._anchor(f.ptr.base) == self._anchor(e.loc.base):
                        clash = True
                elif f.kind == "call" and f.callee:
                    for p, places in self._callmods(f.inst):
                        if places is None:
                            clash = clash or self._patmatch(p, e.loc)
                        else:
                            for o in places:
                                v = self.val(o, f.bb)
                                if isinstance(v, Ptr) and self._anchor(v.base) == self._anchor(e.loc.base):
                                    clash = True
                if clash:
                    break
            if clash:
                continue
            # loads of it inside the loop see only older versions of the same location
            stale = [q for q in at if T.atom_of(q)[0] == "ld" and T.atom_of(q)[1] == e.loc.base and T.atom_of(q)[2] == e.loc.comps]
            if stale:
                continue
            rc = self.rc.get(e.bb, FALSE)
            inner = info.cont if info.cont is not None else TRUE
            rc = T.bdd_constrain(rc, inner)
            delta = ite(rc, delta, ZERO)
            at = T.deep_atoms(delta)
            if a in at or at & (bad - {info.iv}):
                continue
            ini = self.load(m_in, e.ptr, e.size)
            if not isinstance(ini, Poly):
                continue
            val = ini + mk_sum(info.iv, info.trip, delta)
            info.mem_out = Mem("st", info.mem_out, e.ptr, e.loc, val, e.size)

    def _step(self, x, L):
        """loop-invariant step of a header phi, or None"""
        f = self.fn
        lat = [(v, p) for v, p in x.ops if p in L.blocks]
        st = None
        for v, p in lat:
            if v[0] != "v" or v[1] < len(f.args):
                return None
            i = f.insts.get(v[1])
            if i is None:
                return None
            s = None
            if i.op in ("add", "fadd", "sub", "fsub"):
                a, b = i.ops[0], i.ops[1]
                if a == ["v", x.id] and self._inv(b, L):
                    s = self.val(b, L.header)
                    if i.op in ("sub", "fsub"):
                        s = -s
                elif b == ["v", x.id] and self._inv(a, L) and i.op in ("add", "fadd"):
                    s = self.val(a, L.header)
            elif i.op == "getelementptr" and i.d.get("base") == ["v", x.id] and not i.d.get("terms"):
                s = P(i.d["off"])
            if not isinstance(s, Poly):
                return None
            if st is not None and st != s:
                return None
            st = s
        return st

    def _inv(self, o, L):
        if o[0] != "v":
            return True
        if o[1] < len(self.fn.args):
            return True
        i = self.fn.insts.get(o[1])
        return i is not None and i.bb.id not in L.blocks

    def _trip(self, L, info, edge, partial=False):
        """trip count from the (single) exit edge"""
        f = self.fn
        x, s = edge
        t = f.blocks[x].insts[-1]
        if t.op != "br" or len(t.ops) != 3:
            return
        if f.loop_of[x] is not L:
            return
        header = (x == L.header)
        latch = (len(L.latches) == 1 and x == L.latches[0])
        if not header and not latch:
            return
        exitc = self._edge(x, s)
        cont = bdd_not(exitc)
        info.cont = cont
        T_ = solve_iv(cont, info.iv)
        if T_ is None:
            return
        kind = "header" if header else "latch"
        if not header or x in L.latches and not header:
            T_ = T_ + ONE
        # a do-while whose body is the header itself
        if header and x in L.latches and self._has_effects_before_test(L):
            kind = "latch"
            T_ = T_ + ONE
        # trip must be loop invariant: no atoms of this loop
        bad = {info.iv} | {d[2] for d in info.phis.values() if d[0] == "opq"}
        if T.deep_atoms(T_) & bad:
            return
        info.trip = T_
        info.kind = "partial" if partial else kind

    def _has_effects_before_test(self, L):
        return True

    def _loop_pats(self, L):
        f = self.fn
        pats = set()
        for b in L.blocks:
            for x in f.blocks[b].insts:
                if x.op == "store":
                    self._addpat(pats, x.ops[1])
                elif x.op in ("call", "invoke"):
                    for p, places in self._callmods(x):
                        if places is None:
                            pats.add(p)
                        else:
                            for o in places:
                                self._addpat(pats, o, whole=True)
        return frozenset(pats)

    def _addpat(self, pats, o, whole=False):
        """pattern of an address operand, using the evaluated base when it is loop-invariant"""
        for pl in self.summ.places(self.fn, o):
            p = pl.pattern()
            if p[0] == "L":
                fs = [c for c in pl.comps if c[0] == "f"]
                pats.add(("B", ("al", p[1])) if whole or not fs else ("BF", ("al", p[1]), fs[-1][1], fs[-1][2]))
                if whole or not fs:
                    pass
            elif p[0] == "A":
                v = self.vals.get(p[1])
                if isinstance(v, Ptr):
                    self._ptrpat(pats, v)
                else:
                    pats.add(p)
            elif p[0] == "H" and p[1][0] == "A":
                v = self.vals.get(p[1][1])
                pats.add(p if not isinstance(v, Ptr) else ("HB", v.base))
            else:
                pats.add(p)
                if whole:
                    for q in self.summ.allpats(pl):
                        pats.add(q)
        if not self.summ.places(self.fn, o):
            pass

    def _ptrpat(self, pats, v):
        loc = self.loc(v, None)
        comps = loc.comps
        while comps and comps[-1][0] in ("i", "o"):
            comps = comps[:-1]
        if comps:
            pats.add(("BP", self._anchor(loc.base), comps))
        else:
            pats.add(("B", self._anchor(loc.base)))

    def _callmods(self, x):
        """[(pattern, None) | (None, [operands])]"""
        c = x.callee
        g = self.mod.fns.get(c) if c else None
        out = []
        if g is not None and g.has_body:
            if c in self.mod.noreturn:
                return out
            for p in self.summ.mod_.get(c, ()):
                if p[0] == "A":
                    if p[1] < len(x.ops):
                        out.append((None, [x.ops[p[1]]]))
                elif p[0] == "H":
                    q = p
                    while q[0] == "H":
                        q = q[1]
                    if q[0] == "A":
                        for bp in self.summ._bind1(self.fn, x, p):
                            if not self.summ._local(bp):
                                out.append((bp, None))
                            else:
                                z = bp
                                while z[0] == "H":
                                    z = z[1]
                                out.append((("HB", ("al", z[1])), None))
                    else:
                        out.append((p, None))
                elif p[0] == "F" and self._only_this_local(x, g):
                    # object is a local of ours: members through other pointers still possible
                    out.append((p, None))
                elif p[0] != "?":
                    out.append((p, None))
            return out
        if c is None:
            return out
        for k in self.summ.ext_mods(x):
            if k < len(x.ops) and x.ops[k][0] in ("v", "g", "cg"):
                out.append((None, [x.ops[k]]))
        return out

    def _only_this_local(self, x, g):
        return False

    # ------------------------------------------------------------ values
    def val(self, o, ub):
        """operand -> value as seen in block ub"""
        k = o[0]
        if k == "v":
            i = o[1]
            if i not in self.vals:
                return var("undef", self.fn.name, i)
            v = self.vals[i]
            if i >= len(self.fn.args):
                x = self.fn.insts.get(i)
                if x is not None and x.bb.id != ub:
                    v = self._leave(v, x.bb.id, ub)
            return v
        if k == "i":
            if o[2] == 1:
                return Bd(TRUE if int(o[1]) else FALSE)
            return P(int(o[1]))
        if k == "f":
            try:
                return P(Fraction(float.fromhex(o[1])))
            except (ValueError, OverflowError):
                return var("fconst", o[1])
        if k == "n":
            return Ptr(("null",), ZERO, None)
        if k == "g":
            return Ptr(("g", o[1]), ZERO, self.summ.globaltype(o[1]))
        if k == "cg":
            b = self.val(o[1], ub)
            return Ptr(b.base, b.off + P(o[2]), b.ty)
        if k == "fn":
            return Ptr(("fn", o[1]), ZERO, None)
        if k == "z":
            return ZERO
        if k == "u":
            return var("undef")
        return var("k", str(o))

    def _leave(self, v, db, ub):
        f = self.fn
        L = f.loop_of[db]
        while L is not None and ub not in L.blocks:
            info = self.li.get(L.header)
            if info is None or not hasattr(info, "exitmap"):
                break
            if info.exitmap:
                v = T.dsubst(v, info.exitmap)
            L = L.parent
        return v

    # ------------------------------------------------------------ places
    def basety(self, p):
        """(pointee type, indexed) of a pointer's base object"""
        b = p.base
        if b[0] == "g":
            return self.summ.globaltype(b[1]), False
        if b[0] == "al":
            return self.altypes.get(b[1]), False
        return p.ty, True

    altypes = None

    def loc(self, p, size):
        ty, indexed = self.basety(p)
        comps, leaf = self.types.path(ty, p.off, size, indexed, p.fld)
        return Loc(p.base, comps, leaf, size)

    def _anchor(self, base):
        """base with load versions removed"""
        if base[0] == "P" and isinstance(base[1], int):
            t = T.atom_of(base[1])
            if t[0] == "ld":
                return ("P", self._anchor(t[1]), tuple(("i",) if c[0] == "i" else c for c in t[2]))
            return ("P?", base[1])
        return base

    # source pattern of a loaded pointer, in summary form
    def _srcpat(self, base):
        if base[0] != "P":
            return None
        t = T.atom_of(base[1])
        if t[0] != "ld":
            return None
        b, comps = t[1], t[2]
        f = None
        for c in comps:
            if c[0] == "f":
                f = c
        if b[0] == "g":
            return ("GF", b[1], f[1], f[2]) if f else ("G", b[1])
        if f:
            return ("F", f[1], f[2])
        if b[0] == "arg":
            return ("A", b[1])
        if b[0] == "P":
            s = self._srcpat(b)
            return ("H", s) if s else None
        if b[0] == "al":
            return ("L", b[1])
        return None

    def _patmatch(self, p, loc):
        """may pattern p denote memory overlapping loc?"""
        k = p[0]
        b = loc.base
        if k == "G":
            return b == ("g", p[1])
        if k == "GF":
            return b == ("g", p[1]) and any(c[0] == "f" and c[1] == p[2] and c[2] == p[3] for c in loc.comps)
        if k == "F":
            if b[0] in ("al",) and b[1] not in self.escaped:
                return False
            return any(c[0] == "f" and c[1] == p[1] and c[2] == p[2] for c in loc.comps)
        if k == "B":
            return self._anchor(b) == self._anchor(p[1])
        if k == "BF":
            return b == p[1] and any(c[0] == "f" and c[1] == p[2] and c[2] == p[3] for c in loc.comps)
        if k == "BP":
            if self._anchor(b) != p[1]:
                return False
            return compare(p[2], loc.comps[:len(p[2])]) != "no"
        if k == "H":
            return not any(c[0] == "f" for c in loc.comps) and self._srcpat(b) == p[1]
        if k == "HB":
            if b[0] != "P":
                return False
            t = T.atom_of(b[1])
            return t[0] == "ld" and t[1] == p[1]
        if k == "A":
            return b[0] == "arg" and b[1] == p[1] and not any(c[0] == "f" for c in loc.comps)
        return False

    # ------------------------------------------------------------ memory
    def _split(self, p):
        """a pointer that selects between two sub-objects of one object: (condition, one, other)"""
        for mono, c in p.off.t.items():
            if c != 1 or len(mono) != 1 or mono[0][1] != 1:
                continue
            t = T.atom_of(mono[0][0])
            if t[0] != "ite" or not all(isinstance(q, Poly) and (q.const() is not None or _constsel(q)) for q in t[2:4]):
                continue
            a = mono[0][0]
            x = Poly({mono: Fraction(1)})
            one, two = (Ptr(p.base, p.off - x + q, p.ty, None if p.fld is None else (p.fld - x + q if p.fld.t.get(mono) == 1 else p.fld)) for q in t[2:4])
            return Ptr(("ite", t[1], one, two), ZERO, p.ty, None)
        return p

    def load(self, m, p, ty):
        p = self._split(p)
        if p.base[0] == "ite":
            _, c, a, b = p.base
            va = self.load(m, Ptr(a.base, a.off + p.off, a.ty or p.ty, a.fld if p.fld is None else a.off + p.fld), ty)
            vb = self.load(m, Ptr(b.base, b.off + p.off, b.ty or p.ty, b.fld if p.fld is None else b.off + p.fld), ty)
            return ite(c.n, va, vb)
        size = SIZES.get(ty)
        # index that is itself a case distinction
        loc = self.loc(p, size)
        return self._load(m, p, loc, ty)

    def _load(self, m, p, loc, ty):
        key = (p.base, loc.comps, ty)
        chain = []
        r = None
        while True:
            if key in m.memo:
                r = m.memo[key]
                break
            chain.append(m)
            k = m.k
            if k == "init":
                r = self._fresh(loc, 0, ty)
                break
            if k == "st":
                q, qloc, val, vty = m.a
                if self._anchor(q.base) == self._anchor(p.base):
                    if q.base == p.base:
                        c = compare(qloc.comps, loc.comps, qloc.size or 8, loc.size or 8)
                    else:
                        c = "may" if compare(qloc.comps, loc.comps) != "no" else "no"
                    if c == "must":
                        r = self._conv(val, vty, ty, loc)
                        break
                    if c == "no":
                        m = m.prev
                        continue
                    if c == "may":
                        r = self._fresh(loc, m.id, ty)
                        break
                    cond = TRUE
                    for d in c[1]:
                        cond = bdd_and(cond, T.eq0(d))
                    if cond == FALSE:
                        m = m.prev
                        continue
                    old = self._load(m.prev, p, loc, ty)
                    r = ite(cond, self._conv(val, vty, ty, loc), old)
                    break
                m = m.prev
                continue
            if k == "hv":
                if any(self._patmatch(x, loc) for x in m.a[0]):
                    r = self._fresh(loc, m.a[1] if isinstance(m.a[1], tuple) else m.id, ty)
                    break
                m = m.prev
                continue
            if k == "cp":
                dst, src, ln, smem = m.a
                if dst.base == p.base:
                    d = p.off - dst.off
                    c = d.const()
                    n = ln.const()
                    if c is not None and n is not None:
                        if 0 <= c < n:
                            r = self.load(smem, Ptr(src.base, src.off + d, src.ty, None if p.fld is None else src.off + p.fld - dst.off), ty)
                            break
                        m = m.prev
                        continue
                    if n is not None and not dst.off.t and self._objsize(dst) == n:
                        r = self.load(smem, Ptr(src.base, src.off + d, src.ty, None if p.fld is None else src.off + p.fld - dst.off), ty)
                        break
                    r = self._fresh(loc, m.id, ty)
                    break
                m = m.prev
                continue
            if k == "set":
                dst, v, ln = m.a
                if dst.base == p.base:
                    d = p.off - dst.off
                    c = d.const(); n = ln.const()
                    whole = n is not None and not dst.off.t and self._objsize(dst) == n
                    if whole or (c is not None and n is not None and 0 <= c < n):
                        if v.const() == 0:
                            r = self._zero(ty)
                        else:
                            r = self._fresh(loc, m.id, ty)
                        break
                    if c is not None and n is not None:
                        m = m.prev
                        continue
                    # member array filled entirely?
                    r = self._fresh(loc, m.id, ty)
                    break
                m = m.prev
                continue
            if k == "mg":
                vs = [(c, self._load(mm, p, loc, ty)) for c, mm in m.a[0]]
                if all(v == vs[0][1] for _, v in vs):
                    r = vs[0][1]
                else:
                    r = vs[-1][1]
                    for c, v in reversed(vs[:-1]):
                        r = ite(c, v, r)
                break
            raise AssertionError(k)
        for x in chain:
            x.memo[key] = r
        return r

    def _objsize(self, p):
        ty, indexed = self.basety(p)
        if indexed or ty is None:
            return None
        return self.types.size(ty)

    def _zero(self, ty):
        if ty == "ptr":
            return Ptr(("null",), ZERO, None)
        if ty == "i1":
            return Bd(FALSE)
        return ZERO

    def _conv(self, v, vty, ty, loc):
        if ty == vty:
            if ty == "ptr" and isinstance(v, Ptr) and v.ty is None and loc.ty:
                return Ptr(v.base, v.off, self.types.pointee(loc.ty), v.fld)
            return v
        if ty == "ptr" and isinstance(v, Poly) and v.const() == 0:
            return Ptr(("null",), ZERO, None)
        if isinstance(v, Poly) and ty in ("i8", "i32", "i64", "double", "float") and vty in ("i8", "i32", "i64", "double", "float"):
            if v.const() == 0:
                return ZERO
            if (ty[0] == "i") == (vty[0] == "i"):
                return v
        return var("cast", v, vty, ty)

    def _fresh(self, loc, ver, ty):
        # constant globals
        if loc.base[0] == "g":
            g = self.mod.globals.get(loc.base[1])
            if g and g.get("const"):
                c = self._constval(g.get("init"), loc, ty)
                if c is not None:
                    return c
        if ver == 0 and loc.base[0] in ("al",):
            # uninitialised local
            ver = "uninit"
        a = T.atom("ld", loc.base, loc.comps, ver)
        if ty == "ptr":
            return Ptr(("P", a), ZERO, self.types.pointee(loc.ty) if loc.ty else None)
        if ty == "i1":
            return Bd(bvar("ld", loc.base, loc.comps, ver))
        return Poly({((a, 1),): Fraction(1)})

    def _constval(self, init, loc, ty):
        v = init
        for c in loc.comps:
            if c[0] == "i":
                i = c[1].const()
                if i is None or v is None:
                    return None
                if v == ["z"]:
                    break
                if isinstance(v, list) and v and v[0] not in ("i", "f", "n", "z") and 0 <= i < len(v):
                    v = v[int(i)]
                else:
                    return None
            elif c[0] == "f":
                ms = [m["name"] for m in self.types.members(c[1])] if c[1] in self.types.rec else []
                if v == ["z"]:
                    break
                if isinstance(v, list) and c[2] in ms and ms.index(c[2]) < len(v):
                    v = v[ms.index(c[2])]
                else:
                    return None
            else:
                return None
        if v == ["z"]:
            return self._zero(ty)
        if isinstance(v, list) and v and v[0] in ("i", "f"):
            return self.val(v, None)
        return None

    # ------------------------------------------------------------ blocks
    def _block(self, b, L):
        f = self.fn
        m = self.memin[b]
        if self.altypes is None:
            self.altypes = {}
            self.escaped = set()
            for x in f.all_insts():
                if x.op == "alloca":
                    self.altypes[x.id] = self.summ.allocatype(f, x)
            for x in f.all_insts():
                ops = []
                if x.op in ("call", "invoke"):
                    ops = x.ops
                elif x.op == "store":
                    ops = [x.ops[0]]
                for o in ops:
                    if o[0] == "v":
                        for pl in self.summ.places(f, o):
                            if pl.root[0] == "al":
                                self.escaped.add(pl.root[1])
        pc = None
        for x in f.blocks[b].insts:
            op = x.op
            if op == "phi":
                if L is not None and b == L.header:
                    continue
                self._phi(x, b)
                continue
            if op in ("br", "switch", "unreachable"):
                continue
            if op == "store":
                v = self.val(x.ops[0], b)
                p = self.val(x.ops[1], b)
                ty = x.d.get("sty")
                if not isinstance(p, Ptr):
                    continue
                m = self._store(m, p, v, ty, x, b)
                continue
            if op == "load":
                p = self.val(x.ops[0], b)
                if not isinstance(p, Ptr):
                    self.vals[x.id] = var("ldx", f.name, x.id)
                    continue
                v = self.load(m, p, x.ty)
                self.vals[x.id] = v
                self.loads.append((x, p, m, b))
                continue
            if op in ("call", "invoke"):
                m = self._call(x, b, m)
                if x.d.get("noreturn") or x.callee in self.mod.noreturn:
                    break
                continue
            if op == "ret":
                v = self.val(x.ops[0], b) if x.ops else None
                self.effects.append(Eff(kind="ret", inst=x, pc=self.pc(b), loops=self._nest(b), val=v, mem=m, bb=b))
                continue
            self.vals[x.id] = self._expr(x, b)
        self.memout[b] = m

    @property
    def loads(self):
        if not hasattr(self, "_loads"):
            self._loads = []
        return self._loads

    def _nest(self, b):
        return tuple(L.header for L in self.fn.loop_nest(b))

    def _phi(self, x, b):
        ed = {}
        L = self.fn.loop_of[b]
        for p, c, _m in self._inedges(b, L):
            ed[p] = bdd_or(ed.get(p, FALSE), c)
        care = self.rc[b]
        vals = []
        for v, p in x.ops:
            if p in ed and ed[p] != FALSE:
                vals.append((T.bdd_constrain(ed[p], care), self.val(v, b) if self._diffloop(v, b) else self.val(v, p)))
        if not vals:
            self.vals[x.id] = var("undef", self.fn.name, x.id)
            return
        # undefined inputs never selected
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = ite(c, v, r)
        self.vals[x.id] = r

    def _diffloop(self, v, b):
        return True

    def _store(self, m, p, v, ty, x, b, record=True):
        p = self._split(p)
        if p.base[0] == "ite":
            _, c, a, bb = p.base
            pa = Ptr(a.base, a.off + p.off, a.ty or p.ty, a.fld if p.fld is None else a.off + p.fld)
            pb = Ptr(bb.base, bb.off + p.off, bb.ty or p.ty, bb.fld if p.fld is None else bb.off + p.fld)
            oa = self.load(m, pa, ty); ob = self.load(m, pb, ty)
            m1 = Mem("st", m, pa, self.loc(pa, SIZES.get(ty)), ite(c.n, v, oa), ty)
            m2 = Mem("st", m1, pb, self.loc(pb, SIZES.get(ty)), ite(c.n, ob, v), ty)
            pc = self.pc(b)
            for q, cn in ((pa, c.n), (pb, bdd_not(c.n))):
                self.effects.append(Eff(kind="store", inst=x, pc=bdd_and(pc, cn), loops=self._nest(b), ptr=q,
                                        loc=self.loc(q, SIZES.get(ty)), val=v, size=ty, mem=m, bb=b))
            return m2
        size = SIZES.get(ty)
        loc = self.loc(p, size)
        n = Mem("st", m, p, loc, v, ty)
        if record:
            self.effects.append(Eff(kind="store", inst=x, pc=self.pc(b), loops=self._nest(b), ptr=p, loc=loc, val=v, size=ty, mem=m, bb=b))
        return n

    def _call(self, x, b, m):
        f = self.fn
        c = x.callee
        args = [self.val(o, b) for o in x.ops]
        if c and (c.startswith("llvm.dbg") or c.startswith("llvm.lifetime") or c.startswith("llvm.assume") or c.startswith("llvm.experimental")):
            return m
        if c and c.startswith("llvm.fmuladd") or c and c.startswith("llvm.fma."):
            self.vals[x.id] = args[0] * args[1] + args[2]
            return m
        if c and isinstance(args[0] if args else None, Poly):
            if c.startswith("llvm.abs.i") or c in ("abs", "labs") and x.ty != "double":
                self.vals[x.id] = ite(T.ilt0(args[0]), -args[0], args[0])
                return m
            if c.startswith("llvm.smax.i") or c.startswith("llvm.umax.i"):
                self.vals[x.id] = ite(T.ilt0(args[0] - args[1]), args[1], args[0])
                return m
            if c.startswith("llvm.smin.i") or c.startswith("llvm.umin.i"):
                self.vals[x.id] = ite(T.ilt0(args[0] - args[1]), args[0], args[1])
                return m
        lm = libm(c)
        if lm and all(isinstance(a, Poly) for a in args):
            if lm == "abs" and x.ty == "i32":
                lm = "iabs"
            if lm == "iabs":
                args = args[:1]
            if lm in ("fmax", "imax", "fmin", "imin"):
                cnd = T.lt0(args[0] - args[1])
                self.vals[x.id] = ite(cnd, args[1], args[0]) if lm.endswith("max") else ite(cnd, args[0], args[1])
            else:
                self.vals[x.id] = T.fn(lm, *args)
            return m
        cp = STDCOPY.match(c) if c else None
        if cp and len(args) == 3 and isinstance(args[0], Ptr) and isinstance(args[2], Ptr):
            # std::copy / std::copy_n between plain arrays is a block copy
            ln = None
            if cp.group(1) == "4copy" and isinstance(args[1], Ptr) and args[1].base == args[0].base:
                ln = args[1].off - args[0].off
            elif cp.group(1) == "6copy_n" and isinstance(args[1], Poly):
                ln = args[1] * P({"d": 8, "i": 4, "f": 4, "c": 1, "b": 1, "l": 8, "m": 8, "j": 4}[cp.group(2)])
            if ln is not None:
                if x.ty == "ptr":
                    self.vals[x.id] = Ptr(args[2].base, args[2].off + ln, args[2].ty)
                args, c = [args[2], args[0], ln], "memcpy"
        if c and (c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c == "memcpy") and isinstance(args[0], Ptr) and isinstance(args[1], Ptr):
            dst = self._split(args[0])
            if dst.base[0] == "ite" and isinstance(args[2], Poly):
                n = m
                for cn, q in _ptrcases(dst):
                    n = Mem("cp", n, q, args[1], ite(cn, args[2], ZERO), m)
                    self.effects.append(Eff(kind="memcpy", inst=x, pc=bdd_and(self.pc(b), cn), loops=self._nest(b), args=[q] + list(args[1:]), ptr=q, mem=m, bb=b))
                return n
            n = Mem("cp", m, args[0], args[1], args[2], m)
            self.effects.append(Eff(kind="memcpy", inst=x, pc=self.pc(b), loops=self._nest(b), args=args, ptr=args[0], mem=m, bb=b))
            return n
        if c and (c.startswith("llvm.memset") or c == "memset") and isinstance(args[0], Ptr):
            dst = self._split(args[0])
            if dst.base[0] == "ite" and isinstance(args[2], Poly):
                n = m
                for cn, q in _ptrcases(dst):
                    n = Mem("set", n, q, args[1], ite(cn, args[2], ZERO))
                    self.effects.append(Eff(kind="memset", inst=x, pc=bdd_and(self.pc(b), cn), loops=self._nest(b), args=[q] + list(args[1:]), ptr=q, mem=m, bb=b))
                return n
            n = Mem("set", m, args[0], args[1], args[2])
            self.effects.append(Eff(kind="memset", inst=x, pc=self.pc(b), loops=self._nest(b), args=args, ptr=args[0], mem=m, bb=b))
            return n
        if c and c.startswith("llvm.umul.with.overflow") and all(isinstance(a, Poly) for a in args):
            self.vals[x.id] = var("pair", args[0] * args[1])
            return m
        if c and c.startswith("llvm."):
            self.vals[x.id] = var("call", c, tuple(args), x.id) if x.ty != "void" else None
            return m
        self.seq += 1
        res = None
        if c in ("_Znwm", "_Znam", "malloc", "calloc"):
            res = Ptr(("heap", f.name, x.id), ZERO, self.summ.heaptype(f, x))
            self.vals[x.id] = res
            self.effects.append(Eff(kind="call", inst=x, pc=self.pc(b), loops=self._nest(b), callee=c, args=args, mem=m, res=res, seq=self.seq, bb=b))
            return m
        pure = self.summ.is_pure(c) if c else False
        nm = c or "?"
        if x.ty != "void":
            if pure and all(isinstance(a, (Poly, Bd)) for a in args) and self.summ.is_fn_of_args(c):
                tag = 0
            else:
                tag = x.id
            if x.ty == "ptr":
                t = self.summ.rettype(c) if c else None
                res = Ptr(("call", nm, tuple(args), f.name, tag), ZERO, self.types.pointee(t) if t else None)
            elif x.ty == "i1":
                res = Bd(bvar("call", nm, tuple(args), f.name if tag else "", tag, self._nest(b) if tag else ()))
            else:
                res = var("call", nm, tuple(args), f.name if tag else "", tag)
            self.vals[x.id] = res
        pats = set()
        for p, places in self._callmods(x):
            if places is None:
                pats.add(p)
            else:
                for o in places:
                    v = self.val(o, b)
                    if isinstance(v, Ptr):
                        if v.base[0] == "ite":
                            for q in (v.base[2], v.base[3]):
                                self._ptrpat(pats, q)
                        else:
                            self._ptrpat(pats, v)
                            if c and not (self.mod.fns.get(c) and self.mod.fns[c].has_body):
                                pats.add(("B", self._anchor(v.base))) if v.base[0] == "al" else None
        self.effects.append(Eff(kind="call", inst=x, pc=self.pc(b), loops=self._nest(b), callee=c, args=args, mem=m, res=res, seq=self.seq, bb=b))
        if pats:
            return Mem("hv", m, frozenset(pats), ("call", nm, x.id))
        return m

    def _expr(self, x, b):
        op = x.op
        d = x.d
        if op == "alloca":
            return Ptr(("al", x.id), ZERO, self.altypes.get(x.id))
        if op == "getelementptr":
            if "base" not in d:
                return Ptr(("gep", self.fn.name, x.id), ZERO, None)
            base = self.val(d["base"], b)
            if not isinstance(base, Ptr):
                return Ptr(("gep", self.fn.name, x.id), ZERO, None)
            off = base.off + P(d["off"])
            for tv, sc in d["terms"]:
                t = self.val(tv, b)
                if not isinstance(t, Poly):
                    t = var("val", t)
                off = off + t * P(sc)
            fld = base.fld
            if "foff" in d:
                fld = base.off + P(d["foff"])
                for tv, sc in d["fterms"]:
                    t = self.val(tv, b)
                    fld = None if fld is None or not isinstance(t, Poly) else fld + t * P(sc)
            return Ptr(base.base, off, base.ty, fld)
        o = [self.val(q, b) for q in x.ops]
        if op in ("add", "fadd", "sub", "fsub", "mul", "fmul"):
            a, c = o
            if isinstance(a, Bd):
                a = ite(a.n, ONE, ZERO)
            if isinstance(c, Bd):
                c = ite(c.n, ONE, ZERO)
            if isinstance(a, Poly) and isinstance(c, Poly):
                return a + c if op in ("add", "fadd") else a - c if op in ("sub", "fsub") else a * c
            return var("op", op, a, c)
        if op == "fdiv":
            return T.div(o[0], o[1])
        if op == "fneg":
            return -o[0]
        if op in ("sdiv", "udiv", "srem", "urem"):
            a, c = o
            if isinstance(a, Poly) and isinstance(c, Poly):
                ca, cc = a.const(), c.const()
                if cc is not None and cc != 0:
                    q = Poly({m: v / cc for m, v in a.t.items()})
                    if all(v.denominator == 1 for v in q.t.values()):
                        return q if op.endswith("div") else ZERO
                    if ca is not None:
                        qq = int(ca / cc)
                        return P(qq) if op.endswith("div") else P(int(ca - qq * cc))
                return T.fn("idiv" if op.endswith("div") else "irem", a, c)
            return var("op", op, a, c)
        if op == "shl":
            k = o[1].const() if isinstance(o[1], Poly) else None
            if k is not None:
                return o[0] * P(2 ** int(k))
        if op in ("and", "or", "xor"):
            a, c = o
            if isinstance(a, Bd) and isinstance(c, Bd):
                if op == "and":
                    return Bd(bdd_and(a.n, c.n))
                if op == "or":
                    return Bd(bdd_or(a.n, c.n))
                return Bd(bdd_ite(a.n, bdd_not(c.n), c.n))
            if op == "and" and isinstance(a, Poly) and isinstance(c, Poly):
                if c.const() == 1:
                    return T.fn("bit0", a)
            return var("op", op, a, c)
        if op in ("icmp", "fcmp"):
            return self._cmp(d["pred"], o[0], o[1], op)
        if op in ("sext", "sitofp", "uitofp", "fpext", "fptrunc", "zext", "trunc", "freeze", "bitcast"):
            a = o[0]
            if isinstance(a, Bd) and x.ty != "i1":
                one = -1 if op == "sext" else 1
                return ite(a.n, P(one), ZERO)
            if x.ty == "i1" and isinstance(a, Poly):
                return Bd(bdd_not(T.eq0(a)))
            if op == "trunc" and x.ty in ("i8", "i16") and isinstance(a, Poly):
                # short and char do not hold every int
                n = int(x.ty[1:]); c = a.const()
                if c is None:
                    return T.fn("narrow%d" % n, a)
                return P((int(c) + (1 << (n - 1))) % (1 << n) - (1 << (n - 1)))
            return a
        if op in ("fptosi", "fptoui"):
            a = o[0]
            if isinstance(a, Poly):
                c = a.const()
                if c is not None:
                    return P(int(c))
                return T.fn("toint", a)
            return var("op", op, a)
        if op == "select":
            c = self._cond(o[0])
            return ite(c, o[1], o[2])
        if op == "extractvalue":
            if isinstance(o[0], Poly) and len(o[0].atoms()) == 1:
                t = T.atom_of(next(iter(o[0].atoms())))
                if t[0] == "pair":
                    return t[1] if tuple(d.get("idx", ())) == (0,) else Bd(FALSE)
            return self._typed(x.ty, "ex", o[0], tuple(d.get("idx", ())))
        if op == "insertvalue":
            return var("ins", o[0], o[1], tuple(d.get("idx", ())))
        if op == "ptrtoint":
            return var("p2i", o[0])
        if op == "inttoptr":
            return Ptr(("i2p", o[0]), ZERO, None)
        return self._typed(x.ty, "op", op, tuple(o), self.fn.name, x.id)

    def _typed(self, ty, *t):
        if ty == "ptr":
            return Ptr(t, ZERO, None)
        if ty == "i1":
            return Bd(bvar(*t))
        return var(*t)

    nan_atoms = frozenset()     # atoms whose value may be NaN: comparisons get the flag ("nan", atom)

    def _cmp(self, pred, a, b, op):
        r = self._cmp0(pred, a, b, op)
        if op == "fcmp" and self.nan_atoms:
            for x in self.nan_atoms & (T.deep_atoms(a) | T.deep_atoms(b)):
                n = bvar("nan", x)
                if pred[0] == "o" or pred == "false":
                    r = Bd(bdd_and(r.n, bdd_not(n)))
                elif pred[0] == "u":
                    r = Bd(bdd_or(r.n, n))
        return r

    def _cmp0(self, pred, a, b, op):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                e = self._ptreq(a, b)
                if pred in ("eq", "ne"):
                    return Bd(e if pred == "eq" else bdd_not(e))
                if a.base == b.base:
                    a, b = a.off, b.off
                else:
                    return Bd(bvar("pcmp", pred, a, b))
            else:
                return Bd(bvar("pcmp", pred, a, b))
        if isinstance(a, Bd) and isinstance(b, Bd):
            e = bdd_ite(a.n, b.n, bdd_not(b.n))
            return Bd(e if pred == "eq" else bdd_not(e))
        if isinstance(a, Bd):
            a = ite(a.n, ONE, ZERO)
        if isinstance(b, Bd):
            b = ite(b.n, ONE, ZERO)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return Bd(bvar("cmp", pred, a, b))
        d = a - b
        lt = T.ilt0 if op == "icmp" else T.lt0
        if pred in ("eq", "oeq", "ueq"):
            return Bd(T.eq0(d))
        if pred in ("ne", "one", "une"):
            return Bd(bdd_not(T.eq0(d)))
        if pred in ("slt", "ult", "olt"):
            return Bd(lt(d))
        if pred in ("sgt", "ugt", "ogt"):
            return Bd(lt(-d))
        if pred in ("sle", "ule", "ole"):
            return Bd(bdd_not(lt(-d)))
        if pred in ("sge", "uge", "oge"):
            return Bd(bdd_not(lt(d)))
        if pred in ("ord",):
            return Bd(TRUE)
        if pred in ("uno",):
            return Bd(FALSE)
        return Bd(bvar("cmp", pred, a, b))

    def _ptreq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.base[0] == "ite" and not x.off.t:
                _, c, p, q = x.base
                return bdd_ite(c.n, self._ptreq(p, y), self._ptreq(q, y))
        if a.base == b.base:
            return T.eq0(a.off - b.off)
        nn = ("al", "g", "heap", "fn")
        if a.base[0] == "null" and b.base[0] in nn or b.base[0] == "null" and a.base[0] in nn:
            return FALSE
        if a.base[0] in nn and b.base[0] in nn:
            return FALSE
        x, y = sorted((a, b), key=lambda z: repr(z.key))
        return bvar("peq", x, y)


def mk_sum(iv, trip, delta):
    """sum of delta over iv = 0 .. trip-1, bound variable canonical"""
    if isinstance(delta, Poly) and not delta.t:
        return ZERO
    d = 0
    for a in T.deep_atoms(delta):
        t = T.atom_of(a)
        if t[0] == "bv":
            d = max(d, t[1] + 1)
    bv = var("bv", d)
    delta = T.dsubst(delta, {iv: bv})
    # constant factors and terms free of the bound variable stay inside: one canonical form per loop body
    return var("sum", trip, delta)


def solve_iv(cont, iv):
    """cont: BDD; if it is (possibly conjoined with invariants) iv < T, return T"""
    n = cont
    if n <= 1:
        return None
    lits = T.implied_literals(n)
    best = None
    for c, pol in lits:
        if c[0] not in ("lt", "eq"):
            continue
        p = c[1]
        mono = ((iv, 1),)
        if mono not in p.t:
            continue
        if any(iv in dict(m) for m in p.t if m != mono):
            continue
        k = p.t[mono]
        rest = Poly({m: v for m, v in p.t.items() if m != mono})
        if any(iv in (T.deep_atoms(Poly({((a, 1),): Fraction(1)}))) for a in rest.atoms()):
            continue
        integer = len(c) > 2
        if c[0] == "lt":
            # k*iv + rest < 0  (pol)   or >= 0 (not pol)
            if pol and k > 0:
                t = T.div(-rest, P(k))
                t = _ceil(t)
                best = t
            elif not pol and k < 0:
                # k*iv + rest >= 0 -> iv <= rest/-k
                t = T.div(rest, P(-k))
                t = _floor(t) + ONE
                best = t
        else:
            if not pol:
                # runs until k*iv + rest == 0
                t = T.div(-rest, P(k))
                best = t
        if best is not None:
            break
    return best


def _ceil(t):
    c = t.const()
    if c is not None:
        return P(-((-c) // 1))
    if all(v.denominator == 1 for v in t.t.values()):
        return t
    return T.fn("iceil", t)


def _floor(t):
    c = t.const()
    if c is not None:
        return P(c // 1)
    if all(v.denominator == 1 for v in t.t.values()):
        return t
    return T.fn("ifloor", t)


# ------------------------------------------------------------------ presentation
def show_base(b, sym=None):
    if b[0] == "arg":
        return b[2]
    if b[0] == "g":
        return "@" + b[1]
    if b[0] == "al":
        return "%%%d" % b[1]
    if b[0] == "P":
        t = T.atom_of(b[1])
        if t[0] == "ld":
            return "(*" + show_path(t[1], t[2]) + ")" + ("" if t[3] == 0 else "@")
        return "(*" + T.show_atom(b[1]) + ")"
    return "<" + ",".join(str(z)[:40] for z in b) + ">"


def show_path(base, comps):
    s = show_base(base)
    for c in comps:
        if c[0] == "f":
            s += "." + c[2]
        elif c[0] == "i":
            if c[1].t:
                s += "[" + T.show(c[1]) + "]"
            else:
                s += "[0]"
        else:
            s += "+" + T.show(c[1])
    return s


def _show_ld(t):
    return show_path(t[1], t[2]) + ("" if t[3] == 0 else "@")


_old_show_atom = T.show_atom


def _show_atom(a):
    t = T.atom_of(a)
    if t[0] == "ld" and len(t) == 4:
        return _show_ld(t)
    if t[0] == "iv":
        return "i%d" % t[2]
    if t[0] == "call":
        n = t[1]
        return "%s(%s)%s" % (n, ", ".join(T.show(x) if isinstance(x, Poly) else repr(x) for x in t[2]), "#%s" % (t[4],) if len(t) > 4 and t[4] else "")
    if t[0] == "sum":
        return "SUM[<%s](%s)" % (T.show(t[1]), T.show(t[2]))
    if t[0] == "bv":
        return "j%d" % t[1]
    return _old_show_atom(a)


T.show_atom = _show_atom
T.show_ptr = lambda p: "&" + show_base(p.base) + ("+" + T.show(p.off) if p.off.t else "")
