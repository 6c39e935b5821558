"""An event does not depend on the events generated before it.

Rule: interprocedural upward-exposed reads.  A variable that outlives an event (global or static) and that an event may
write must not be read by an event before that event has written it, unless it is a one-time latch, a value set once under
a latch that does not depend on the event, a default filled in for a missing table entry, a correctly keyed memo, or a
table that is written completely whenever it is used.  Data read at start-up are not changed by an event otherwise.
"""
import re
from props.phys import *
from props.flow import Flow, SKIP
from props.c14 import MC
from props import reach
from cg.ctx import qual

INIT = ("cgmfEvent::initialization", "cgmEvent::initialization")
ALLOC = ("_Znwm", "_Znam", "malloc", "calloc")


def is_std(m, g):
    t = (m.globals.get(g) or {}).get("type", "")
    d = (m.globals.get(g) or {}).get("ditype") or ""
    return "std::" in t or d.startswith(("function<", "basic_", "vector<", "map<", "string", "std::", "set<", "unordered_"))


class Path:
    """functions an event executes, and what they write"""

    def __init__(self, ctx, m, rep):
        self.m, self.S, self.rep = m, ctx.summ(m), rep
        self.roots = [f for f in m.fns.values() if f.has_body and f.repo and (qual(f) in ("cgmfEvent::cgmfEvent",) and len(f.args) > 3 or
                      qual(f) in ("cgmfEvent::~cgmfEvent", "cgmEvent::~cgmEvent", "printEventToFile") or re.match(r"cgmf?Event::get\w+$", qual(f)))]
        self.fns = [m.fns[n] for n in reach.reachable(m, self.roots, cut=INIT) if n in m.fns and m.fns[n].has_body and n not in m.noreturn]
        self.names = {f.name for f in self.fns if qual(f) not in INIT}
        self.fns = [f for f in self.fns if f.name in self.names]
        self.writes = {}            # pattern -> [(fn, inst)]
        self.loads = {}
        self.sites = {}             # callee -> [(fn, inst)]
        for f in self.fns:
            md, rf = self.S.direct(f)
            for p, x in md:
                if p[0] in ("G", "GF"):
                    self.writes.setdefault(p, []).append((f, x))
            for p, x in rf:
                if p[0] in ("G", "GF"):
                    self.loads.setdefault(p, []).append((f, x))
            for x in f.calls():
                g = m.fns.get(x.callee) if x.callee else None
                if g is None or not g.has_body or x.callee in m.noreturn:
                    continue
                self.sites.setdefault(g.name, []).append((f, x))
                if qual(g) in INIT:
                    continue
                for p in self.S.mod_[g.name]:
                    if p[0] == "A":
                        for q in self.S._bind1(f, x, p):
                            if q[0] in ("G", "GF"):
                                self.writes.setdefault(q, []).append((f, x))

    # ------------------------------------------------------------ one-time latches
    def latches(self):
        """global -> constant it is set to"""
        out = {}
        for p, ws in self.writes.items():
            if p[0] != "G":
                continue
            vals = set()
            for f, x in ws:
                if x.op != "store" or x.ops[0][0] != "i":
                    vals = None
                    break
                vals.add(x.ops[0][1])
            ini = (self.m.globals.get(p[1]) or {}).get("init") or ["?"]
            v0 = ini[1] if ini[0] == "i" else "0" if ini[0] == "z" else None
            if vals and len(vals) == 1 and v0 is not None and v0 not in vals:
                # its value is used to choose a branch only
                c = vals.pop()
                if all(self.onlybranch(f, x) for f, x in self.loads.get(p, ()) if x.op == "load"):
                    out[p] = c
        return out

    def onlybranch(self, f, x):
        us = [y for y in f.all_insts() if any(o == ["v", x.id] or (isinstance(o, list) and o and o[0] == ["v", x.id]) for o in y.ops)]
        return all(y.op == "br" or (y.op in ("trunc", "icmp", "xor", "zext") and self.onlybranch(f, y)) for y in us)

    def regions(self, L):
        """(function, block) executed only while latch L has not been set"""
        out = set()
        for p, c in L.items():
            for f, x in self.loads.get(p, ()):
                if x.op != "load":
                    continue
                for y in f.all_insts():
                    if y.op != "br" or len(y.ops) != 3:
                        continue
                    s = self.truth(f, y.ops[0], x.id, int(c))
                    if s is None:
                        continue
                    # ops: cond, false target, true target; value of the condition once the latch is set
                    open_ = y.ops[1][1] if s else y.ops[2][1]
                    if len(f.blocks[open_].preds) == 1:
                        out |= {(f.name, b) for b in f.rpo if f.dominates(open_, b)}
        ch = True
        while ch:
            ch = False
            for g, ss in self.sites.items():
                if g in self.names and not any(r.name == g for r in self.roots) and ss and all((f.name, x.bb.id) in out for f, x in ss):
                    new = {(g, b) for b in self.m.fns[g].rpo} - out
                    if new:
                        out |= new
                        ch = True
        return out

    def truth(self, f, o, lid, c):
        """value of condition o when the loaded latch lid has value c, or None"""
        if o == ["v", lid]:
            return c
        if o[0] != "v" or o[1] not in f.insts:
            return None
        y = f.insts[o[1]]
        if y.op in ("trunc", "zext"):
            r = self.truth(f, y.ops[0], lid, c)
            return None if r is None else (r & 1 if y.op == "trunc" else r)
        if y.op == "icmp" and y.ops[1][0] == "i":
            r = self.truth(f, y.ops[0], lid, c)
            pr = y.d.get("pred")
            if r is None or pr not in ("eq", "ne"):
                return None
            e = r == int(y.ops[1][1])
            return int(e if pr == "eq" else not e)
        if y.op == "xor" and y.ops[1][0] == "i":
            r = self.truth(f, y.ops[0], lid, c)
            return None if r is None else r ^ (int(y.ops[1][1]) & 1)
        return None

    # ------------------------------------------------------------ what a value is made of
    def support(self, f, o, ok=(), seen=None, noctrl=False):
        """what the value depends on: arguments, state (members, memory), variables that events write (other than `ok`), draws"""
        seen = set() if seen is None else seen
        out = set()
        work = [o]
        while work:
            o = work.pop()
            if o[0] == "cg":
                continue
            if o[0] != "v":
                continue
            i = o[1]
            if i in seen:
                continue
            seen.add(i)
            if i < len(f.args):
                out.add(("arg", i))
                continue
            y = f.insts.get(i)
            if y is None:
                continue
            if y.op == "alloca":
                continue
            if y.op == "load":
                for pl in self.S.places(f, y.ops[0]):
                    p = pl.pattern()
                    if p in ok:
                        continue
                    if p[0] in ("G", "GF") and p not in self.writes:
                        pass
                    elif p[0] == "L":
                        for z in f.all_insts():
                            if z.op == "store" and any(q.pattern() == p for q in self.S.places(f, z.ops[1])):
                                work.append(z.ops[0])
                    else:
                        out.add(("state",) + (p if p[0] != "A" else ("A", p[1])))
                work.append(y.ops[0])
                continue
            if y.op in ("call", "invoke"):
                c = y.callee
                if c in ALLOC:
                    work += [q for q in y.ops if q[0] == "v"]
                    continue
                g = self.m.fns.get(c) if c else None
                if g is not None and g.has_body:
                    for p in self.S.ref_[g.name]:
                        if p[0] == "A":
                            continue
                        if p[0] in ("G", "GF") and (p not in self.writes or p in ok):
                            continue
                        if p[0] == "G" and p[1] in SKIP:
                            continue
                        out.add(("state",) + p)
                elif c is None or "function" in (g.dem if g else c):
                    out.add(("draw",))
                work += [q for q in y.ops if q and q[0] == "v"]
                continue
            if y.op == "getelementptr":
                if y.d.get("base"):
                    work.append(y.d["base"])
                for t in y.d.get("terms", ()):
                    work.append(t[0])
                continue
            if y.op == "phi":
                for v, b in y.ops:
                    work.append(v)
                    if noctrl:
                        continue
                    # control: conditions that choose the incoming edge
                    bb = f.blocks[b]
                    t = bb.insts[-1]
                    if t.op == "br" and len(t.ops) == 3:
                        work.append(t.ops[0])
                continue
            work += [q for q in y.ops if isinstance(q, list) and q and q[0] == "v"]
        return out

    def guards(self, f, b):
        """branch conditions that block b is controlled by (dominating two-way branches it is on one side of)"""
        out = []
        c = b
        while True:
            d = f.idom.get(c)
            if d is None or d == c:
                return out
            t = f.blocks[d].insts[-1]
            if t.op == "br" and len(t.ops) == 3:
                s = [t.ops[1][1], t.ops[2][1]]
                on = [k for k in s if f.dominates(k, b) and len(f.blocks[k].preds) == 1]
                if len(on) == 1:
                    out.append(t)
            c = d


def reads_of(S, f, o, p, seen=None, deep=False):
    """does value o depend (directly) on a load of p"""
    seen = set() if seen is None else seen
    if o[0] != "v" or o[1] in seen or o[1] < len(f.args):
        return False
    seen.add(o[1])
    y = f.insts.get(o[1])
    if y is None:
        return False
    if y.op == "load":
        return any(pl.pattern() == p for pl in S.places(f, y.ops[0])) or deep and reads_of(S, f, y.ops[0], p, seen, True)
    if y.op == "getelementptr":
        return any(reads_of(S, f, q, p, seen, deep) for q in [y.d.get("base") or ["x"]] + [t[0] for t in y.d.get("terms", ())])
    return any(isinstance(q, list) and q and reads_of(S, f, q, p, seen, deep) for q in y.ops)


def filled(path, p):
    """default filled in for a missing entry: every write stores the same constant where the entry was found missing, and every
    other function that reads the table asks the filling one first"""
    S = path.S
    fill = set()
    vals = set()
    for f, x in path.writes[p]:
        if x.op != "store" or x.ops[0][0] not in ("d", "f", "i"):
            return "a value other than a fixed default is stored into it (%s)" % x.loc
        vals.add(str(x.ops[0]))
        if not any(reads_of(S, f, t.ops[0], p) for t in path.guards(f, x.bb.id)):
            return "a default is stored whether or not the entry is missing (%s)" % x.loc
        fill.add(f.name)
    if len(vals) != 1:
        return "different values are stored into it"
    for f, x in path.loads.get(p, ()):
        if f.name in fill:
            continue
        cs = [y for y in f.calls() if y.callee in fill and (f.dominates(y.bb.id, x.bb.id) and y.bb.id != x.bb.id or y.bb.id == x.bb.id and f.blocks[x.bb.id].insts.index(y) < f.blocks[x.bb.id].insts.index(x))]
        if not cs:
            return "%s reads it without asking whether the entry is missing (%s)" % (qual(f), x.loc)
    return None


def countonly(path, p):
    """is the variable used for nothing but its own next value"""
    for f, x in path.loads.get(p, ()):
        if x.op != "load":
            return False
        work, seen = [x.id], set()
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            for y in f.all_insts():
                if not any(o == ["v", i] or (isinstance(o, list) and o and o[0] == ["v", i]) for o in y.ops) and y.d.get("base") != ["v", i] and not any(t[0] == ["v", i] for t in y.d.get("terms", ())):
                    continue
                if y.op == "store":
                    if y.ops[0] != ["v", i] or any(pl.pattern() != p for pl in path.S.places(f, y.ops[1])):
                        return False
                elif y.op in ("add", "sub", "mul", "fadd", "fsub", "fmul", "zext", "sext", "trunc", "sitofp"):
                    work.append(y.id)
                else:
                    return False
    return True


def postdominates(f, b, s):
    """every way from block s to the end of the function passes b"""
    seen, work = {b}, [s]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        su = f.blocks[k].succs
        if not su:
            return False
        work += su
    return True


def comparisons(path, f, o, group, neg=False, depth=0):
    """comparisons with variables of the group that the condition consists of: [(equality?, true when they differ?, inputs compared)]"""
    if o[0] != "v" or o[1] < len(f.args) or o[1] not in f.insts or depth > 6:
        return []
    y = f.insts[o[1]]
    if y.op == "xor" and y.ops[1][0] == "i":
        return comparisons(path, f, y.ops[0], group, not neg, depth + 1)
    if y.op in ("trunc", "zext"):
        return comparisons(path, f, y.ops[0], group, neg, depth + 1)
    if y.op in ("or", "and", "select"):
        # forced by one part: a disjunction (of "differs"), or a negated conjunction
        if y.op == "select":
            disj = y.ops[1][0] == "i" and y.ops[1][1] != "0"
            conj = y.ops[2][0] == "i" and y.ops[2][1] == "0"
        else:
            disj, conj = y.op == "or", y.op == "and"
        out = []
        for q in y.ops:
            if q[0] == "v":
                out += comparisons(path, f, q, group, neg, depth + 1)
        # a part forces the whole only in this sense
        return [c for c in out if not c[0] or (disj and c[1] != neg) or (conj and c[1] == neg)]
    if y.op in ("icmp", "fcmp"):
        rd = [any(reads_of(path.S, f, q, g, deep=True) for g in group) for q in y.ops]
        if not any(rd):
            return []
        pr = y.d.get("pred")
        inp = set()
        for q, r in zip(y.ops, rd):
            if not r:
                inp |= path.support(f, q, ok=group)
        eq = pr in ("eq", "ne", "oeq", "une", "ueq", "one")
        return [(eq, (pr in ("ne", "une", "one")) != neg, frozenset(inp))]
    return []


def memo(path, group, okd=()):
    """a memo: written only where a comparison of its key (part of the group) with the current inputs failed, with a value made of
    nothing but those inputs and constant data.  True / None (a key that is a range) / False"""
    out = True
    for p in group:
        for f, x in path.writes[p]:
            if x.op != "store":
                return False
            key, ranged = set(), []
            b = x.bb.id
            for k in f.rpo:
                t = f.blocks[k].insts[-1]
                if t.op != "br" or len(t.ops) != 3 or not (postdominates(f, b, t.ops[1][1]) or postdominates(f, b, t.ops[2][1])) or postdominates(f, b, k):
                    continue
                for eq, differ, inp in comparisons(path, f, t.ops[0], group):
                    if not eq:
                        ranged.append(inp)
                        continue
                    tgt = t.ops[2][1] if differ else t.ops[1][1]
                    if postdominates(f, b, tgt):
                        key |= inp
            if not key and not ranged:
                return False
            rest = path.support(f, x.ops[0], ok=set(group) | set(okd)) - key
            if rest:
                if sum(1 for i in ranged if rest <= i | key) < 2:
                    return False
                out = None
    return out


def run(ctx, rep, tier):
    m = ctx.raw()
    path = Path(ctx, m, rep)
    S = path.S
    rep.count("functions of an event", len(path.fns))
    for f in path.fns:
        rep.units.add(qual(f))
    fl = Flow(ctx, m, stop=INIT)
    ctors = [f for f in path.roots if qual(f) == "cgmfEvent::cgmfEvent"]
    if not ctors:
        raise AnalysisBroken("no constructor of an event")
    exp = {}
    for f in ctors:
        ex, md = fl.summary(f)
        for p, w in ex.items():
            exp.setdefault(p, w)
        for g in path.roots:
            if g in ctors or "~" in qual(g):
                continue
            e2, _ = fl.summary(g)
            for p, w in e2.items():
                if p not in md:
                    exp.setdefault(p, w)
    L = path.latches()
    reg = path.regions(L)
    done = set()
    cand = {p: w for p, w in exp.items() if p[0] in ("G", "GF") and p in path.writes}
    why = {p: filled(path, p) for p in cand}
    for p in sorted(path.writes, key=str):
        g = p[1]
        name = (m.globals.get(g) or {}).get("name") or g
        if p[0] == "GF":
            name += "." + p[3]
        if g in SKIP or g.startswith("_ZSt"):
            continue
        rep.count("variables that outlive an event")
        oid = "C02:carry:" + name
        if p not in cand:
            rep.ok(oid, "written by every event before it reads it")
            continue
        w = cand[p]
        loc = w[0][1].loc
        chain = " <- ".join("%s:%s" % (qual(f), x.line) for f, x in w)
        if all((f.name, x.bb.id) in reg for f, x in path.writes[p]):
            dep = None
            if p not in L:
                for f, x in path.writes[p]:
                    d = path.support(f, x.ops[0], ok=set(L)) if x.op == "store" else {("state",)}
                    # a choice made inside the one-time block must not depend on the event either
                    for t in path.guards(f, x.bb.id):
                        if (f.name, t.bb.id) in reg:
                            d = set(d) | {z for z in path.support(f, t.ops[0], ok=set(L)) if z[0] in ("arg", "draw")}
                    if d:
                        dep = (x, d)
            if dep is None:
                rep.ok(oid, "set once, to a value that does not depend on the event" if p not in L else "one-time latch")
            else:
                rep.bad(oid, dep[0].loc, "%s keeps what the first event put there, and later events read it (%s)" % (name, chain))
            continue
        if p in L:
            rep.ok(oid, "one-time latch")
            continue
        if why[p] is None:
            rep.ok(oid, "only a fixed default is filled in for a missing entry, and every reader asks first")
            continue
        if is_std(m, g):
            rep.undecided(oid, "library object read before it is written (%s)" % chain)
            continue
        if countonly(path, p):
            rep.ok(oid, "used for nothing but itself")
            continue
        okd = {q for q in cand if why[q] is None} | set(L)
        group = {q for q in cand if why[q] is not None and q[1] not in SKIP and not q[1].startswith("_ZSt") and q not in L and not all((f.name, x.bb.id) in reg for f, x in path.writes[q])
                 and {f.name for f, _ in path.writes[q]} & {f.name for f, _ in path.writes[p]}}
        mm = memo(path, group, okd)
        if mm is not False:
            rep.decide(oid, mm, loc, "memo keyed by everything its value is made of")
            continue
        r = special(ctx, rep, path, p, name)
        if r is True:
            continue
        rep.bad(oid, loc, "an event reads %s as an earlier event left it (%s)" % (name, chain))
    # latched regions: nothing that belongs to the event, no draw
    for n, b in sorted(reg):
        f = m.fns[n]
        for x in f.blocks[b].insts:
            if x.op in ("call", "invoke"):
                g = m.fns.get(x.callee) if x.callee else None
                rf = S.ref_.get(g.name, ()) if g is not None and g.has_body else ()
                if ("G", "rng_cgm") in rf or (x.callee and any(pl.pattern() == ("G", "rng_cgm") for o in x.ops if o[0] in ("g", "v") and S._isptr(f, o) for pl in S.places(f, o))):
                    rep.bad("C02:once:draw", x.loc, "a random number is drawn only in the first event")
    rep.ok("C02:once", "%d blocks executed in the first event only draw no random number" % len(reg))
    rep.part("C02:tables", tables, ctx, m, rep, path)
    rep.part("C02:yields", yields, ctx, m, rep, path, fl)
    rep.part("C02:member", members, ctx, m, rep, exp)
    rep.part("C02:ratio", ratio, ctx, rep)
    rep.part("C02:times", times, ctx, rep)
    rep.floor("variables that outlive an event", 8)
    rep.assumptions += ["heap memory: an element of an array counts as initialised when the array is written; contents of uninitialised heap memory are outside this rule"]


# members read only under the condition under which they were written (correlated guards, not decided here), and arrays whose
# elements are written where they are used
GUARDED = {
    "FissionFragments": """Ap B1n B2n EdefA ExpMassAMU ExpMassMeV FNZ0 FZZ0 Pfactors RT RTAh S1n S2n TKEmax TKEmin YTKEf Z0 ZAIDlist Zp Zpmax
        Zpmin alphaI cmEnergy_pfn emissprob emissprob_max energySortingOption energy_grid1 heavyFragmentSpinParameter ldEnergyGrid ldEnergyGrid2
        ldp lightFragmentSpinParameter maxYieldA maxYieldATKE meanTKE nemit neutronType_pre pdt prCheck ratioU sZ0 sigTKE sigmaZ sp sp1
        sp_pfn tc temp yieldsFilename yieldsOption""".split(),
    "Yields": "a_cn avTKE mu_a mu_b rescaleAverageTKE sTKE sig_a sig_b stkea_coeff tke_params tkea_coeff w_a w_b".split(),
}


def members(ctx, m, rep, exp):
    """the members of the objects an event creates are set before they are read: freshly allocated memory holds what an earlier event left there"""
    for rec, guarded in GUARDED.items():
        fields = {p[2] for f in m.fns.values() if f.has_body and f.repo for p, _ in ctx.summ(m).direct(f)[1] if p[0] == "F" and p[1] == rec}
        n = 0
        for fld in sorted(fields):
            w = exp.get(("F", rec, fld))
            if w is None:
                n += 1
                continue
            if fld in guarded:
                continue
            chain = " <- ".join("%s:%s" % (qual(f), x.line) for f, x in w)
            rep.bad("C02:member:%s.%s" % (rec, fld), w[0][1].loc, "%s::%s is read before this event has set it: it holds whatever was in that memory (%s)" % (rec, fld, chain))
        rep.ok("C02:member:" + rec, "%d members of %s are set before they are read" % (n, rec))


def roots(f, o, seen=None):
    """where a pointer comes from: {("G"|"A", name, loads passed)}"""
    seen = set() if seen is None else seen
    out = set()
    work = [(o, 0)]
    while work:
        o, n = work.pop()
        if o[0] == "g":
            out.add(("G", o[1], n))
            continue
        if o[0] == "cg":
            b = o[1]
            out.add(("G", b[1] if isinstance(b, list) else b, n))
            continue
        if o[0] != "v" or (o[1], n) in seen or n > 4:
            continue
        seen.add((o[1], n))
        if o[1] < len(f.args):
            out.add(("A", o[1], n))
            continue
        y = f.insts.get(o[1])
        if y is None:
            continue
        if y.op == "getelementptr":
            work.append((y.d.get("base") or y.ops[0], n))
        elif y.op == "load":
            work.append((y.ops[0], n + 1))
        elif y.op == "phi":
            work += [(v, n) for v, b in y.ops]
        elif y.op == "select":
            work += [(v, n) for v in y.ops[1:]]
    return out


def tables(ctx, m, rep, path):
    """data read at start-up are neither changed by an event nor handed to objects that an event changes"""
    S = path.S
    W = {f.name: {} for f in path.fns}       # root -> instruction that stores there
    A = {f.name: {} for f in path.fns}       # root of a pointer that is stored into memory
    for f in path.fns:
        for x in f.all_insts():
            if x.op == "store":
                for r in roots(f, x.ops[1]):
                    W[f.name].setdefault(r, x)
                t = f.insts.get(x.ops[0][1]) if x.ops[0][0] == "v" else None
                if t is not None and t.ty == "ptr" and roots(f, x.ops[1]):
                    for r in roots(f, x.ops[0]):
                        if r[2] > 0:
                            A[f.name].setdefault(r, x)
            elif x.op == "call" and x.callee and x.callee.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove", "memcpy", "memset")):
                for r in roots(f, x.ops[0]):
                    W[f.name].setdefault(r, x)
    ch = True
    while ch:
        ch = False
        for f in path.fns:
            for x in f.calls():
                if x.callee not in W:
                    continue
                for D in (W, A):
                    for r, y in list(D[x.callee].items()):
                        if r[0] == "G":
                            new = {r}
                        elif r[1] < len(x.ops):
                            new = {(q[0], q[1], q[2] + r[2]) for q in roots(f, x.ops[r[1]]) if q[2] + r[2] <= 4}
                        else:
                            continue
                        for q in new:
                            if q not in D[f.name]:
                                D[f.name][q] = y
                                ch = True
    own = {p[1] for p in path.writes}
    n = 0
    for D, what in ((W, "an event changes data that were read at start-up: %s"), (A, "memory of the start-up table %s is handed to an object of the event, which changes it")):
        bad = {}
        for f in path.fns:
            for r, y in D[f.name].items():
                if r[0] != "G" or r[2] == 0:
                    continue
                n += 1
                g = m.globals.get(r[1]) or {}
                if r[1] in own or r[1] in SKIP or r[1].startswith(("_ZSt", "_ZNSt", "_ZTV")) or is_std(m, r[1]) or g.get("const"):
                    continue
                bad.setdefault(r[1], y)
        for g, y in sorted(bad.items()):
            rep.bad("C02:tables:" + g, y.loc, what % ((m.globals.get(g) or {}).get("name") or g))
    rep.count("writes through global tables", n)
    rep.ok("C02:tables", "no event writes into, or keeps pointers into, a table filled at start-up")


SHARED = {  # members of the generator object that are read before the fission sets them, but whose value cannot change from one fission to the next
    "FissionFragments": "FNZ0 FZZ0 Z0 sZ0 RT massExcessCompound cmEnergy_pfn",
    "Yields": "avTKE sTKE",
}


def yields(ctx, m, rep, path, fl):
    """fissions that share a FissionFragments object (a run with many fissions, or a fission sampled again)"""
    S = path.S
    def the(q, n=None):
        fs = [f for f in m.fns.values() if f.has_body and f.repo and qual(f) == q and (n is None or len(f.args) == n)]
        return fs[0] if len(fs) == 1 else None
    cy, s4, s3 = the("FissionFragments::constructYields"), the("FissionFragments::sampleFissionFragments", 4), the("FissionFragments::sampleFissionFragments", 3)
    if cy is None or s4 is None or s3 is None:
        rep.undecided("C02:yields", "the functions that generate one fission were not found")
        return
    ea, ma = fl.summary(cy)
    for s, pre in ((s4, True), (s3, False)):
        eb, mb = fl.summary(s)
        ex = dict(eb) if not pre else {**{p: w for p, w in eb.items() if p not in ma}, **ea}
        mods = set(S.mod_[s.name]) | (set(S.mod_[cy.name]) if pre else set())
        n = 0
        for p in sorted(mods, key=str):
            if p[0] != "F" or p[1] not in SHARED:
                continue
            n += 1
            w = ex.get(p)
            if w is None or p[2] in SHARED[p[1]].split():
                continue
            rep.bad("C02:yields:%s" % p[2], w[0][1].loc, "%s::%s of the fission before is used (%s)" % (p[1], p[2], " <- ".join("%s:%s" % (qual(f), x.line) for f, x in w)))
        rep.count("members set by each fission", n)
    rep.ok("C02:yields", "what a fission sets is set before it is used")


def times(ctx, rep):
    from props import c17, c18
    m = ctx.module(MC)
    rep.part("C18:stamp", c17.record, ctx, m, Part(rep, "C17:age"))


def special(ctx, rep, path, p, name):
    """variables whose reads are shown, by rules of their own, to see this event's values only"""
    if p == ("G", "gammaTimeStamp") or name == "gammaTimeStamp":
        from props import c18
        c18.cascade(ctx, ctx.module(MC), Part(rep, "C18:time"))
        rep.ok("C02:carry:" + name, "each photon's time is stored before the photon is recorded, and only recorded photons are read (rules C18:time, C17:age)")
        return True
    if name in ("Pcostheta", "Ppreeq"):
        table(ctx, rep, path, p, name)
        return True
    return False


BP = "boost_pfn"
FF = "FissionFragments"


def table(ctx, rep, path, p, name):
    """a table of the angular distribution: written completely whenever the condition under which it is read holds"""
    oid = "C02:carry:" + name
    m = ctx.module(MC)
    S = ctx.summ(m)
    ws = {}
    for f in m.fns.values():
        if f.has_body and f.repo:
            for q, x in S.direct(f)[0]:
                if q[0] in ("G", "GF") and q[1] == p[1]:
                    ws.setdefault(f.name, f)
    if len(ws) != 1:
        rep.undecided(oid, "%d functions write %s" % (len(ws), name))
        return
    F = ctx.sym(m, next(iter(ws.values())))
    w = where(F)
    st = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base[0] == "global" and e.loc.base[1] == p[1]]
    st = st or [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and p[1] in [str(z) for z in e.loc.base]]
    mem = final(F)
    this = F.vals[0]
    def fld(n):
        return read(F, this, [n], mem)
    if name == "Pcostheta":
        use = T.bdd_not(T.eq0(fld("anisotropyCoefficient") - ONE))
        asm = ()
        what = "whenever the anisotropy coefficient of this event is not 1"
    else:
        pe, n = fld("preeq_flag"), fld("n_pfn")
        ne = read(F, this, ["nemit"], F.mem0)
        use = T.bdd_and(T.bdd_not(T.eq0(pe)), T.bdd_not(T.eq0(n)))
        asm = lits(T.bdd_not(T.eq0(ne)))
        what = "whenever this event emits a pre-equilibrium neutron"
    for c in (0, 1):
        sel = []
        for e in st:
            ix = [k[1] for k in e.loc.comps if k[0] == "i"]
            if len(ix) != 2 or len(e.loc.comps) != 2:
                rep.undecided(oid, "element written at %s" % e.where)
                return
            d = ix[1] - P(c)
            if not d.t:
                sel.append((e, ix[0]))
            elif d.atoms():
                rep.undecided(oid, "column written at %s" % e.where)
                return
        # x[i] = f(x[i]) does not fill an element
        sel = [(e, i) for e, i in sel if not self_read(F.fn, e.inst)]
        mp = {id(e): i for e, i in sel}
        covered(rep, oid + ":%d" % c, F, [e for e, _ in sel], lambda e: mp[id(e)], ZERO, P(49), w, "%s is written completely %s" % (name, what), asm, use)
    rep.count("tables written before use")
    readers(ctx, rep, m, S, name, oid)


def self_read(f, x):
    """does the stored value depend on what the stored-to element held"""
    seen, work = set(), [x.ops[0]]
    while work:
        o = work.pop()
        if not (isinstance(o, list) and o and o[0] == "v") or o[1] in seen or o[1] < len(f.args):
            continue
        seen.add(o[1])
        y = f.insts.get(o[1])
        if y is None or y.op == "phi":
            continue
        if y.op == "load":
            if y.ops[0] == x.ops[1]:
                return True
            continue
        work += y.ops
    return False


def ratio(ctx, rep):
    """the temperature ratio of a fission, where it is tabulated, is that of this fission"""
    m = ctx.module(MC)
    F = ctx.sym(m, ctx.fn(m, "FissionFragments::computeFragmentExcitationEnergy"))
    rt = read(F, F.vals[0], ["RT"], F.mem0)
    sel = {}
    for e in F.effects:
        if e.kind == "call" and e.pc != T.FALSE and isinstance(e.res, T.Bd):
            for a in e.args:
                c = cstr(F, a) if not isinstance(a, Poly) else None
                if c in ("RTA", "Pfactors"):
                    sel.setdefault(c, []).append(e)
    for opt in ("RTA", "Pfactors"):
        if opt not in sel:
            rep.undecided("C02:ratio:" + opt, "option not found")
            continue
        asm = lits(*[e.res.n for e in sel[opt]])
        for h, info in F.li.items():
            v = read(F, F.vals[0], ["RT"], info.mem_in)
            if not isinstance(v, Poly) or v == rt or not v.atoms():
                continue
            cs = lin.cases([v], asm)
            for l, (x,), _ in cs or ():
                rep.decide("C02:ratio:" + opt, False if x == rt else (True if not (set(rt.atoms()) & set(x.atoms())) else None), sel[opt][-1].where, "the temperature ratio is set for each fission, not left over from another")


def readers(ctx, rep, m, S, name, oid):
    """the table is read only under that condition"""
    B = ctx.sym(m, ctx.fn(m, BP))
    k = 16 if name == "Pcostheta" else 17
    if name == "Pcostheta":
        ok = T.bdd_not(T.eq0(B.vals[9] - ONE))
        for x in B.fn.all_insts():
            if x.op == "load" and any(pl.pattern() == ("A", k) for pl in S.places(B.fn, x.ops[0])):
                r = T.bdd_implies(B.pc(x.bb.id), ok)
                rep.decide(oid + ":read", True if r else None, x.loc, "read only in an anisotropic event")
        return
    N = ctx.sym(m, ctx.fn(m, "neutron_emission_boost"))
    flag = N.vals[6]
    flag = _b(flag)
    for x in N.fn.all_insts():
        if x.op == "load" and any(pl.pattern() == ("A", 8) for pl in S.places(N.fn, x.ops[0])):
            rep.decide(oid + ":read", True if T.bdd_implies(N.pc(x.bb.id), flag) else None, x.loc, "read only for a pre-equilibrium neutron")
    fl = B.vals[10]
    fl = _b(fl)
    for e in calls(B, "neutron_emission_boost"):
        a = e.args[6]
        a = _b(a)
        rep.decide(oid + ":read", True if T.bdd_implies(T.bdd_and(e.pc, a), fl) else None, e.where, "only the first neutron of a pre-equilibrium event is one")


def _b(v):
    return v.n if isinstance(v, T.Bd) else T.bdd_not(T.eq0(v))
