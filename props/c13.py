"""Random choices follow the probabilities the model assigned.

Rule: a decay step, a transition between levels and the first state of a cascade are searches that add one probability
after another to a running sum until a uniform random number, drawn once before the search, is reached.  For every way
out of such a search the amount added last is the probability of exactly the state that is then taken, every state that
may be populated is offered once, nothing is added without being offered, and consecutive searches share one sum.  A
transition is converted internally when a further random number exceeds the fraction of photons of that transition.
"""
from props.phys import *
from props.c14 import MC
from props.c15 import point, num
from props import choice


def canon(v):
    """reading one element of a vector twice gives one value (the decay never changes the level scheme)"""
    mp, rep_ = {}, {}
    for a in sorted(T.deep_atoms(v)):
        x = _vec(None, a)
        if x is not None:
            k = (x[0].base, x[0].off, x[1])
            b = rep_.setdefault(k, a)
            if b != a:
                mp[a] = Poly({((b, 1),): Fraction(1)})
            CAN.setdefault(k, a)
            if CAN[k] != a:
                mp[a] = Poly({((CAN[k], 1),): Fraction(1)})
    return T.dsubst(v, mp) if mp else v


CAN = {}


def _mask(v, W):
    """v where the weight W is positive (a state of zero probability may be skipped)"""
    W, v = canon(W), canon(v)
    b = T.bdd_and(T.lt0(-W), T.bdd_and(T.bdd_not(T.lt0(W)), T.bdd_not(T.eq0(W))))
    return choice.given(v, b)


def _clean(F, L, e, W):
    """conditions on the way to exit e, inside its iteration, other than the search itself: list of literals, None if not a conjunction"""
    b = T.bdd_and(F.rc.get(e[0], T.TRUE), F._edge(e[0], e[1]))
    b = _mask(Bd(b), W).n
    out = []
    ls = T.implied_literals(b)
    if b != choice.conj(ls):
        return None
    for c, pol in ls:
        q = c[1] if len(c) > 1 else None
        if isinstance(q, Poly) and c[0] == "lt" and len(c) == 2 and L.acc in q.atoms():
            continue
        if isinstance(q, Poly) and len(c) == 3 and L.info.iv in q.atoms() and _limit(F, L, c, pol):
            continue
        if c[0] == "exit":
            continue
        out.append((c, pol))
    return out


def _limit(F, L, c, pol):
    """the literal only says that the loops around the search have not run out"""
    iv = lambda h: Poly({((F.li[h].iv, 1),): Fraction(1)})
    asm = []
    for h in choice.nest(F, L.h):
        asm += lits(T.bdd_not(T.ilt0(iv(h))))
        if F.li[h].trip is not None:
            asm += lits(T.ilt0(iv(h) - F.li[h].trip))
    return not lin.feasible(asm + [(c, not pol)])


def searches(ctx, rep, F, tag, want, rnd=None):
    """common part: every search of F; yields (L, exit, weight, literals at the exit)"""
    S = choice.scan(F)
    rep.count("searches", len(S))
    res = []
    rs = set()
    roots = {}
    for h, L in S.items():
        w = "%s:%s" % (F.fn.file, line(F, h))
        key = "%s:sum:%s" % (tag, name(F, L))
        e0 = L.exits[0]
        if L.err == "unknown":
            rep.undecided(key, "where the running sum starts is not known")
            continue
        if L.err:
            _, dl, ex = L.err
            dm, ex = canon(dl), canon(ex)
            for e, W, d in L.exits:
                dm = _mask(dm, W)
            if dm != ex:
                if opaque_rel(dm - ex, ex):
                    rep.undecided(key, "what the running sum carries on is not resolved: %s" % show(dm))
                else:
                    rep.bad(key, w, "the running sum is carried on by %s although %s was offered" % (show(dm), show(ex)))
                continue
        b, r, root = choice.begins(F, S, L)
        if b is None:
            rep.undecided(key, "where the running sum starts is not resolved")
        else:
            rep.decide(key, b, w, "the running sum is zero before the first state and goes on from one search to the next")
        if r is not None:
            rs.add(r)
            roots[root] = r
            own = {a for _, _, d in L.exits for a in d.atoms() if is_rng(F, a)}
            if own and own != {r}:
                rep.bad("%s:draw" % tag, w, "the random number changes between the searches of one choice")
        for e, W, d in L.exits:
            x = _clean(F, L, e, W)
            k2 = "%s:free:%s:%d" % (tag, name(F, L), L.exits.index((e, W, d)))
            if x is None:
                rep.undecided(k2, "condition to take a state not resolved")
            elif x:
                rep.bad(k2, w, "whether a state is taken depends on %s as well" % lin.showlits(x)[:200])
            else:
                rep.ok(k2, "a state is taken as soon as the sum reaches the random number")
            res.append((L, e, W))
    # a search that starts from nothing after another one
    for A in roots:
        for B in roots:
            if A != B and roots[A] == roots[B] and choice.after(F, A, B):
                rep.bad("%s:sum:again" % tag, "%s:%s" % (F.fn.file, line(F, B)), "the running sum starts again although the random number was not reached before")
    # the random number
    for r in rs:
        c = [e for e in F.effects if e.kind == "call" and isinstance(e.res, Poly) and r in e.res.atoms()]
        if len(c) != 1:
            rep.undecided("%s:draw" % tag, "the draw of the random number is not found")
            continue
        inside = [h for L in S.values() for h in choice.nest(F, L.h) if h in c[0].loops]
        if rnd is not None:
            inside = [h for h in inside if h != rnd]
        rep.decide("%s:draw" % tag, not inside, c[0].where, "one random number decides the whole search")
    if len(rs) > 1 and want == 1:
        rep.bad("%s:draw" % tag, where(F), "the searches of one choice use different random numbers")
    return S, res


def line(F, h):
    try:
        for i in F.fn.blocks[h].insts:
            if i.line:
                return i.line
    except Exception:
        pass
    return F.fn.line


def name(F, L):
    return "%d" % sorted(F.li).index(L.h)


def labels(F, mem, p, L, e, extra):
    o = point(F, mem, p)
    out = {}
    for k, v in o.items():
        v = num(v)
        v, _ = choice.at_exit(F, L, e, v)
        v = choice.under(v, extra)
        out[k] = v
    return out


def outer(F, L):
    return choice.nest(F, L.h)[-1]


def states(ctx, rep, F, tag, S, res, weight, need):
    """every exit: the weight is that of the state returned.  weight(lab) -> (expected weight, kind) or None
    need: {kind: (first k, end k, first j, end j, condition)}"""
    rs = [e for e in F.effects if e.kind == "ret" and e.pc != T.FALSE]
    if len(rs) != 1:
        raise AnalysisBroken("%s has %d returns" % (F.fn.dem, len(rs)))
    seen = {}
    lost = False
    for L, e, W in res:
        w = "%s:%s" % (F.fn.file, line(F, e[1]))
        n = "%s:%d" % (name(F, L), [x[0] for x in L.exits].index(e))
        extra = T.implied_literals(F.pc(outer(F, L)))
        lab = labels(F, rs[0].mem, F.vals[0], L, e, extra)
        g = weight(lab)
        if g is None:
            rep.undecided("%s:state:%s" % (tag, n), "state taken not resolved: %s" % ", ".join("%s=%s" % (k, show(v)[:80]) for k, v in lab.items()))
            lost = True
            continue
        exp, kind, energy = g
        rep.count("ways out of a search")
        W = _mask(W, exp)
        r = True if T.equal(W, exp) else (None if opaque_rel(W, exp) else False)
        rep.decide("%s:state:%s:%s" % (tag, kind, n), r, w, "the state taken is the one whose probability was added last", "added %s, taken the state of %s" % (show(W), show(exp)))
        if energy is not None:
            r = True if T.equal(lab["e"], energy) else (None if opaque_rel(lab["e"], energy) else False)
            rep.decide("%s:energy:%s:%s" % (tag, kind, n), r, w, "its energy is that of the state", "%s instead of %s" % (show(lab["e"]), show(energy)))
        seen.setdefault(kind, []).append((L, e, lab, w, extra))
    # nothing else looks at the populations
    blocks = set()
    for L in S.values():
        blocks |= set(F.li[outer(F, L)].L.blocks) if hasattr(F.li[outer(F, L)].L, "blocks") else set()
    for kind, (klo, khi, jlo, jhi, cond) in need.items():
        oid = "%s:all:%s" % (tag, kind)
        c = seen.get(kind, [])
        if not c:
            if lost or not S:
                rep.undecided(oid, "search not recognised")
            else:
                rep.bad(oid, where(F), "no search offers the states of %s" % kind)
            continue
        if len(c) > 1:
            rep.undecided(oid, "%d searches offer these states" % len(c))
            continue
        L, e, lab, w, extra = c[0]
        hs = choice.nest(F, L.h)
        ok = True
        for what, ix, lo, hi in (("k", lab["k"], klo, khi), ("j", lab["j"], jlo, jhi)):
            if lo is None:
                continue
            sp = next((choice.span(F, ix, h) for h in hs if F.li[h].iv in ix.atoms()), None) if isinstance(ix, Poly) else None
            if sp is None:
                rep.undecided(oid + ":" + what, "range of the index not resolved: %s" % show(ix))
                ok = None
                continue
            a, b = sp
            r = True
            if not T.equal(a, lo):
                r = None if opaque_rel(a, lo) else False
            if not T.equal(b, hi):
                r = r and (None if opaque_rel(b, hi) else False)
            rep.decide(oid + ":" + what, r, w, "every state of %s is offered" % kind, "%s runs from %s up to %s, not from %s up to %s" % (what, show(a), show(b), show(lo), show(hi)))
        # when it is searched at all
        got = T.TRUE
        for x, pol in extra:
            if x[0] != "exit":
                b = T.bvar(*x)
                got = T.bdd_and(got, b if pol else T.bdd_not(b))
        got = _known(F, got)
        rep.decide(oid + ":when", got == cond if got is not None else None, w, "the states of %s are offered %s" % (kind, "always" if cond == T.TRUE else "when this emission is possible"), "offered only when %s" % lin.showlits(T.implied_literals(got))[:300])


def _known(F, b):
    return b


def step(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "mcFindNext"))
    S, res = searches(ctx, rep, F, "C13:step", 1)
    ncl = glob(F, "ncl")
    c0, c1 = F.vals[1], F.vals[2]

    def weight(lab):
        n, p, j, k, l = (lab[x] for x in "npjkl")
        if not all(isinstance(x, Poly) for x in (n, p, j, k, l)):
            return None
        lv = l.const()
        N = "next" if T.equal(n, c1) else "same" if T.equal(n, c0) else None
        if lv is None or N is None:
            return None
        if lv == 0:
            s = p.const()
            if s not in (1, -1):
                return None
            par = "even" if s == 1 else "odd"
            return read(F, ncl, [n, "pop", k, j, par]), "%s nucleus, continuum, %s parity" % (N, par), read(F, ncl, [n, "excitation", k])
        ex = read(F, ncl, [n, "lpop", k])
        tag = "%s nucleus, level" % N
        lj, lp = read(F, ncl, [n, "lev", k, "spin"]), read(F, ncl, [n, "lev", k, "parity"])
        for q, g, x in (("parity", p, lp), ("spin", j, T.fn("toint", lj))):
            r = True if T.equal(g, x) else (None if opaque_rel(g, x) else False)
            rep.decide("C13:step:label:%s:%s" % (tag, q), r, where(F), "the %s of a level reached is the level's" % q, "%s instead of %s" % (show(g), show(x)))
        return ex, tag, read(F, ncl, [n, "lev", k, "energy"])

    g = lambda n, f: read(F, ncl, [n, f])
    st = read(F, ncl, [c0, "cdt", 1, "status"])
    open_ = st.n if isinstance(st, Bd) else T.bdd_not(T.eq0(st))
    need = {}
    for N, n, k0, cond in (("same", c0, ONE, T.TRUE), ("next", c1, ZERO, open_)):
        for par in ("even", "odd"):
            need["%s nucleus, continuum, %s parity" % (N, par)] = (k0, g(n, "ncont"), ZERO, g(n, "jmax") + ONE, cond)
        need["%s nucleus, level" % N] = (ZERO, g(n, "ndisc"), None, None, cond)
    states(ctx, rep, F, "C13:step", S, res, weight, need)


def start(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "mcSampleStart"))
    S, res = searches(ctx, rep, F, "C13:start", 1)
    e0, p = F.vals[1], F.vals[2]

    def weight(lab):
        n, pp, j, k, l = (lab[x] for x in "npjkl")
        s = pp.const() if isinstance(pp, Poly) else None
        if s not in (1, -1) or not isinstance(j, Poly) or not isinstance(k, Poly):
            return None
        par = "even" if s == 1 else "odd"
        row = F.load(F.mem0, Ptr(p.base, p.off + P(8) * k, p.ty), "ptr")
        sz = F.types.size("Parity")
        w = F.load(F.mem0, Ptr(row.base, row.off + P(sz) * j + P(member(F.types, "Parity", par)[0]), "Parity"), "double")
        return w, "first state, %s parity" % par, e0
    mj = read(F, glob(F, "MAX_J"), [])
    need = {"first state, %s parity" % par: (None, None, ZERO, mj, T.TRUE) for par in ("even", "odd")}
    states(ctx, rep, F, "C13:start", S, res, weight, need)


def _vec(F, a):
    """an element of a vector member: (base term of the element's owner incl. member offset, index)"""
    t = T.atom_of(a)
    if t[0] == "ld" and isinstance(t[1], tuple) and t[1][0] == "call" and all(x == ("o", 0) or x == ("o", ZERO) for x in t[2]):
        c = t[1]
        if ("ixE" in c[1] or "2atE" in c[1]) and len(c[2]) == 2:
            return c[2]
    return None


def _one(v):
    if isinstance(v, Poly) and len(v.t) == 1:
        (mm, c), = v.t.items()
        if c == 1 and len(mm) == 1 and mm[0][1] == 1:
            return mm[0][0]
    return None


def cascade(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "mcGammaCascade"))
    ncl = glob(F, "ncl")
    c0 = F.vals[0]
    o = None
    S0 = choice.scan(F)
    if len(S0) != 1:
        rep.undecided("C13:cascade", "%d searches in the cascade" % len(S0))
        return
    L = next(iter(S0.values()))
    hs = choice.nest(F, L.h)
    if len(hs) != 2:
        rep.undecided("C13:cascade", "the search for the next level is not inside one loop over the cascade")
        return
    S, res = searches(ctx, rep, F, "C13:cascade", 1, hs[1])
    out = F.li[hs[1]]
    off = {f: member(F.types, "Level", f)[0] for f in ("branch", "fstate", "gratio", "ngamma")}
    es = F.types.size("Level")
    for L, e, W in res:
        w = "%s:%s" % (F.fn.file, line(F, e[1]))
        a = _one(W)
        v = _vec(F, a) if a is not None else None
        if v is None and all(_vec(F, x) or is_rng(F, x) for x in W.atoms()):
            rep.bad("C13:cascade:weight", w, "the search adds %s, not the branching ratio of a transition" % show(W))
            continue
        if v is None:
            rep.undecided("C13:cascade:weight", "what the search adds is not an element of a table: %s" % show(W))
            continue
        ptr, idx = v
        # which level: address = lev + es*i + offset
        lev = None
        for b, (ini, d) in out.deltas.items():
            if ptr.off.t.get(((b, 1),)) == es:
                lev = b
        if lev is None:
            rep.undecided("C13:cascade:weight", "level whose branchings are searched not resolved")
            continue
        lp = Poly({((lev, 1),): Fraction(1)})
        base = ptr.off - P(es) * lp
        f = [n for n, x in off.items() if base.const() is not None and base.const() == x]
        rep.decide("C13:cascade:weight", f == ["branch"] if base.const() is not None else None, w, "the search adds the branching ratios of the level", "it adds %s" % show(W))
        rep.count("ways out of a search")
        sp = choice.span(F, idx, L.h)
        ng = F.load(F.mem0, Ptr(ptr.base, P(es) * lp + P(off["ngamma"]), ptr.ty), "i32")
        if sp is None:
            rep.undecided("C13:cascade:all", "range of the transitions not resolved")
        else:
            r = T.equal(sp[0], ZERO) and T.equal(sp[1], ng)
            rep.decide("C13:cascade:all", True if r else (None if opaque_rel(sp[1], ng) else False), w, "every transition of the level is offered", "from %s up to %s" % (show(sp[0]), show(sp[1])))
        # the level reached
        ini, d = out.deltas[lev]
        nx, _ = choice.at_exit(F, L, e, d + lp)
        b = _one(nx)
        u = _vec(F, b) if b is not None else None
        if u is None:
            rep.undecided("C13:cascade:next", "level reached not resolved: %s" % show(nx))
        else:
            r = u[0].base == ptr.base and T.equal(u[0].off, ptr.off - P(off["branch"]) + P(off["fstate"])) and T.equal(T.dsubst(u[1], {}), idx)
            rep.decide("C13:cascade:next", r, w, "the level reached is the final level of the transition chosen", "%s" % show(nx))
        # without a transition the level stays
        # internal conversion
        cs = [c for c in calls(F, "mcStoreHistory") if c.pc != T.FALSE]
        if len(cs) != 1:
            rep.undecided("C13:cascade:conversion", "%d calls of mcStoreHistory" % len(cs))
            continue
        conv(rep, F, L, e, cs[0], ptr, idx, off, w)
        pos, _ = choice.at_exit(F, L, e, Bd(cs[0].pc))
        o2 = [x for x in T.implied_literals(pos.n)] if isinstance(pos, Bd) else []
    rep.floor("ways out of a search", 1)


def conv(rep, F, L, e, c, ptr, idx, off, w):
    """internal conversion: no photon when a new random number is above the photon fraction of this transition"""
    oid = "C13:cascade:conversion"
    v = c.args[0]
    v, _ = choice.at_exit(F, L, e, v if isinstance(v, Bd) else num(v))
    b = v.n if isinstance(v, Bd) else T.bdd_not(T.eq0(v))
    if b in (T.TRUE, T.FALSE):
        rep.bad(oid, c.where, "a transition is %s converted internally" % ("always" if b == T.TRUE else "never"))
        return
    l = lit(b)
    if l is None or l[0][0] != "lt" or not isinstance(l[0][1], Poly):
        rep.undecided(oid, "condition of internal conversion not resolved")
        return
    q, pol = l[0][1], l[1]
    rs = [a for a in q.atoms() if is_rng(F, a)]
    gs = [(a, _vec(F, a)) for a in q.atoms() if _vec(F, a)]
    if len(rs) != 1 or len(gs) != 1 or len(q.t) != 2:
        rep.undecided(oid, "condition of internal conversion not resolved: %s" % show(q))
        return
    g = gs[0][1]
    want = Poly({((gs[0][0], 1),): Fraction(1)}) - Poly({((rs[0], 1),): Fraction(1)})
    s = q if pol else -q
    good = T.equal(s, want) and g[0].base == ptr.base and T.equal(g[0].off, ptr.off - P(off["branch"]) + P(off["gratio"])) and T.equal(T.dsubst(g[1], {}), idx)
    new = not any(r in T.deep_atoms(d) for _, _, d in L.exits for r in rs)
    rep.decide(oid, good and new, c.where, "converted internally when a new random number exceeds the photon fraction of the transition chosen", "%s < 0%s" % (show(s), "" if new else " with the random number that chose the transition"))


def run(ctx, rep, tier):
    m = ctx.module(inline=MC)
    step(ctx, m, rep)
    start(ctx, m, rep)
    cascade(ctx, m, rep)
    rep.floor("searches", 4)
