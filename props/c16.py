"""Momentum and energy are conserved in every neutron emission and in the scission of the compound nucleus.

Rule: the terms the emission routine leaves in the neutron velocities, the emitter's momentum and the returned
energy satisfy v_lab = v_cm + p/M, p' = p - m_n v_lab, E_lab = m_n v_lab^2 / 2, v_cm^2 = 2 E_cm / m_n with
M = A u + mass excess(Z, A) as polynomial identities (modulo sqrt(x)^2 = x and sin^2 + cos^2 = 1), for every
momentum, energy and random number; the emission routine is applied once to each neutron, in order, to the nucleus
left by the previous emission; the two fragments share the momentum of the compound nucleus at scission.
"""
from props.phys import *

NEB = "neutron_emission_boost"


def emission(ctx, m, rep, pre="C16"):
    F = ctx.sym(m, ctx.fn(m, NEB))
    w = where(F)
    Z, A, p, E, vl, vc, pe = F.vals[0:7] if isinstance(F.vals, (list, tuple)) else [F.vals[i] for i in range(7)]
    mem = final(F)
    M = mass(Z, A)
    p0 = [elem(F, F.mem0, p, i) for i in range(3)]
    p1 = [elem(F, mem, p, i) for i in range(3)]
    L = [elem(F, mem, vl, i) for i in range(3)]
    Cm = [elem(F, mem, vc, i) for i in range(3)]
    for i in range(3):
        rel(rep, "C16:emission:velocity%d" % i, F, L[i] - Cm[i] - T.div(p0[i], M), w, "lab velocity = centre-of-mass velocity + velocity of the emitter")
        rel(rep, "C16:emission:recoil%d" % i, F, p1[i] + MN * L[i] - p0[i], w, "the emitter's momentum drops by the neutron's")
    rel(rep, "C16:emission:energy", F, ret(F) - T.div(MN * (L[0] * L[0] + L[1] * L[1] + L[2] * L[2]), P(2)), w, "the lab energy belongs to the lab velocity")
    rel(rep, "C16:emission:cmspeed", F, Cm[0] * Cm[0] + Cm[1] * Cm[1] + Cm[2] * Cm[2] - T.div(E * P(2), MN), w, "the centre-of-mass speed belongs to the centre-of-mass energy")
    rep.count("emission routine")
    return F


def rowindex(p, base, rs):
    """row index n with p == base + n * rs"""
    if p.base != base.base:
        return None
    return T.div(p.off - base.off, P(rs))


def loop_of(F, e, mult, idx):
    """is e executed once for each idx in 0..mult-1, in ascending order?  True/False/None"""
    if len(e.loops) != 1:
        return None
    info = F.li[e.loops[0]]
    if info.trip is None or info.iv is None:
        return None
    return info


def vanishes(F, r, cond):
    cs = lin.cases([masses(F, r)], [], conds=[cond])
    return cs is not None and all(c[0] == T.FALSE or not norm(x).t for l, (x,), c in cs)


def run(ctx, rep, tier):
    m = ctx.module()
    emission(ctx, m, rep)
    # ---- fragments: every neutron once, from the nucleus left by the one before
    F = ctx.sym(m, ctx.fn(m, "boost"))
    mom, Z, A, nn, cmE, labE, cmV, labV = [F.vals[i] for i in range(8)]
    cs = [e for e in calls(F, NEB) if e.pc != T.FALSE]
    if not cs:
        rep.bad("C16:boost", where(F), "no neutron is boosted")
    for e in cs:
        rep.count("emission sites")
        info = loop_of(F, e, nn, None)
        oid = "C16:boost"
        n = rowindex(e.args[4], labV, 24)
        if info is None or n is None:
            rep.undecided(oid, "emission loop of unknown shape at %s" % e.where)
            continue
        iv = T.Poly({((info.iv, 1),): Fraction(1)})
        rng = lits(T.bdd_not(T.ilt0(iv)), T.ilt0(iv - nn))
        compare(rep, oid + ":count", F, info.trip, nn, e.where, "one boost per neutron", lits(T.bdd_not(T.ilt0(nn))))
        compare(rep, oid + ":row", F, n, iv, e.where, "neutron i is the i-th to be boosted", rng)
        compare(rep, oid + ":Z", F, e.args[0], Z, e.where, "the emitter keeps its charge", rng)
        compare(rep, oid + ":A", F, e.args[1], A - iv, e.where, "neutron i is emitted by the nucleus with A - i nucleons", rng)
        compare(rep, oid + ":E", F, e.args[3], elem(F, e.mem, cmE, iv), e.where, "with its own centre-of-mass energy", rng)
        if e.args[2] != mom:
            rep.bad(oid + ":p", e.where, "the momentum carried along is not the fragment's")
        else:
            rep.ok(oid + ":p", "the running momentum is the fragment's")
        c = rowindex(e.args[5], cmV, 24)
        rep.decide(oid + ":cm", None if c is None else T.equal(c, n), e.where, "cm and lab velocities of the same neutron")
        if isinstance(e.args[6], Bd):
            rep.decide(oid + ":preeq", True if e.args[6].n == T.FALSE else (False if e.args[6].n == T.TRUE else None), e.where, "evaporated neutrons are isotropic in the fragment frame")
        st = [s for s in F.effects if s.kind == "store" and s.loc.base == labE.base and s.pc != T.FALSE]
        if len(st) == 1 and st[0].loops == e.loops and st[0].loc.comps and st[0].loc.comps[-1][0] == "i":
            compare(rep, oid + ":labE:index", F, st[0].loc.comps[-1][1], n, st[0].where, "lab energy i belongs to neutron i", rng)
            rep.decide(oid + ":labE", True if st[0].val == e.res or (isinstance(st[0].val, Poly) and isinstance(e.res, Poly) and T.equal(st[0].val, e.res)) else same(st[0].val, e.res), st[0].where, "the recorded lab energy is the boosted one")
        else:
            rep.undecided(oid + ":labE", "lab energies stored at %d places" % len(st))
    for s in F.effects:
        if s.kind == "store" and s.loc.base == mom.base and s.pc != T.FALSE:
            rep.bad("C16:boost:recoil", s.where, "the fragment's momentum changes other than by neutron recoil")
    # ---- compound nucleus: pre-fission neutrons and scission
    F = ctx.sym(m, ctx.fn(m, "boost_pfn"))
    a = [F.vals[i] for i in range(20)]
    Zc, Ac, En, TKE, Al, Zl, Ah, Zh, n_, aniso, pe, cmE, labE, typ, cmV, labV = a[:16]
    lf, hf = a[18], a[19]
    w = where(F)
    cs = [e for e in calls(F, NEB) if e.pc != T.FALSE]
    pcs = {e.args[2] for e in cs if isinstance(e.args[2], Ptr)}
    if len(pcs) != 1:
        rep.undecided("C16:prefission", "%d running momenta" % len(pcs))
        return
    pc = pcs.pop()
    first = cs[0]
    p0 = [elem(F, first.mem, pc, i) for i in range(3)]
    for i in (0, 1):
        rel(rep, "C16:prefission:p%d" % i, F, p0[i], first.where, "before the first emission the compound nucleus moves along the beam (z)")
    rel(rep, "C16:prefission:pz", F, p0[2] * p0[2] - MN * En * P(2), first.where, "its momentum is that of the incident neutron")
    st = [e for e in F.effects if e.kind == "store" and e.loc.base == pc.base and (e.seq or 0) > (first.seq or 0) and e.pc != T.FALSE]
    for e in st:
        rep.undecided("C16:prefission:recoil", "momentum written at %s" % e.where)
    mem = final(F)
    p1 = [elem(F, mem, pc, i) for i in range(3)]
    L = [elem(F, mem, lf, i) for i in range(3)]
    H = [elem(F, mem, hf, i) for i in range(3)]
    for i in range(3):
        rel(rep, "C16:scission:sum%d" % i, F, L[i] + H[i] - p1[i], w, "light + heavy fragment momentum = momentum of the compound nucleus at scission")
    Ml, Mh, Mc = mass(Zl, Al), mass(Zh, Ah), mass(Zc, Ac - n_)
    vc = [T.div(x, Mc) for x in p1]
    rest = [L[i] - Ml * vc[i] for i in range(3)]
    q2 = rest[0] * rest[0] + rest[1] * rest[1] + rest[2] * rest[2]
    v2 = vc[0] * vc[0] + vc[1] * vc[1] + vc[2] * vc[2]
    tcm = TKE - T.div((Ml + Mh) * v2, P(2))
    r = q2 - T.div(P(2) * tcm * Ml * Mh, Ml + Mh)
    rel(rep, "C16:scission:TKE", F, r, w, "in the frame of the compound nucleus the fragments share the sampled kinetic energy", cond=T.bdd_not(pe.n))
    Mx = mass(Zc, Ac - n_ + P(1))
    vx = [T.div(x, Mx) for x in p1]
    restx = [L[i] - Ml * vx[i] for i in range(3)]
    v2x = vx[0] * vx[0] + vx[1] * vx[1] + vx[2] * vx[2]
    rx = restx[0] * restx[0] + restx[1] * restx[1] + restx[2] * restx[2] - T.div(P(2) * (TKE - T.div((Ml + Mh) * v2x, P(2))) * Ml * Mh, Ml + Mh)
    known = vanishes(F, rx, pe.n)      # the recorded defect: mass of the nucleus with one neutron too many
    rel(rep, "C16:scission:TKE:preeq" + ("" if known else ":other"), F, r, w, "in the frame of the compound nucleus the fragments share the sampled kinetic energy (after a pre-equilibrium neutron)", cond=pe.n)
    # each pre-fission neutron leaves the nucleus its predecessors left
    for e in cs:
        row = rowindex(e.args[4], labV, 24)
        oid = "C16:prefission:%s" % ("loop" if e.loops else "first")
        if row is None:
            rep.undecided(oid, "row of %s" % e.where)
            continue
        rep.count("emission sites")
        rng = [l for h in e.loops if F.li[h].iv is not None for l in lits(T.bdd_not(T.ilt0(T.Poly({((F.li[h].iv, 1),): Fraction(1)}))))]
        compare(rep, oid + ":Z", F, e.args[0], Zc, e.where, "the emitter keeps its charge", rng, cond=e.pc)
        compare(rep, oid + ":E", F, e.args[3], elem(F, e.mem, cmE, row), e.where, "with its own centre-of-mass energy", rng, cond=e.pc)
        c = rowindex(e.args[5], cmV, 24)
        rep.decide(oid + ":cm", None if c is None else T.equal(c, row), e.where, "cm and lab velocities of the same neutron")
        compare(rep, oid + ":A", F, e.args[1], Ac - row, e.where, "emitted by the nucleus with A minus the neutrons emitted before", rng, cond=T.bdd_and(e.pc, T.bdd_not(pe.n)))
        k = lin.difference(e.args[1], Ac - row + P(1), rng, where=T.bdd_and(e.pc, pe.n)) is None
        compare(rep, oid + ":A:preeq" + ("" if k or not e.loops else ":other"), F, e.args[1], Ac - row, e.where, "emitted by the nucleus with A minus the neutrons emitted before (after a pre-equilibrium neutron)", rng, cond=T.bdd_and(e.pc, pe.n))
    # ---- records: the fragment enters with its initial momentum and leaves with the recoiled one
    F = ctx.sym(m, ctx.fn(m, "recordEmittedParticlesFission"))
    fe = F.vals[0]
    bs = [e for e in calls(F, "boost") if e.pc != T.FALSE]
    if len(bs) != 1:
        rep.undecided("C16:record", "%d boosts" % len(bs))
    else:
        b = bs[0]
        mem = final(F)
        for i in range(3):
            pre = read(F, fe, ["preFragmentMomentum", i])
            rel(rep, "C16:record:pre%d" % i, F, elem(F, b.mem, b.args[0], i) - pre, b.where, "the emissions start from the fragment's momentum after scission")
            post = read(F, fe, ["postFragmentMomentum", i], mem)
            got = elem(F, mem, b.args[0], i)
            rel(rep, "C16:record:post%d" % i, F, post - got, b.where, "the recorded final momentum is the one left after the last emission")
            compare(rep, "C16:record:keep%d" % i, F, read(F, fe, ["preFragmentMomentum", i], mem), pre, b.where, "the initial momentum is kept")
        rep.count("records")
    from props import c14
    rep.part("C16:compound", c14.conditions, ctx, ctx.module(c14.MC), Part(rep, "C14:boost:"))
    rep.floor("emission routine", 1)
    rep.assumptions += ["real arithmetic (rounding is not modelled)", "the output arrays do not overlap"]
