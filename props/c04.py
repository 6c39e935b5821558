"""Only reactions CGMF has data for are calculated: spontaneous fission (energy 0) of Pu-238/240/242/244 and
Cf-252/254, and fission induced by neutrons of 0 < E <= 20 MeV on U-233/234/235/238, Np-237, Pu-239/241; any other
isotope or energy (NaN included) ends the process with a failure status before a fragment is sampled, in events and in yields mode.

Rule: the path condition of the fragment generator's construction, a decision diagram over comparisons of the two
inputs, is compared with the specification at one point of every cell its comparisons cut the input plane into;
NaN is decided by conditional constant propagation with the energy bound to NaN."""
from props.lib import *
from fractions import Fraction

SF = {94238, 94240, 94242, 94244, 98252, 98254}
NF = {92233, 92234, 92235, 92238, 93237, 94239, 94241}
INL = lambda f: C.qual(f) == "cgmfEvent::checkInput"


def spec(iso, e):
    if e == 0:
        return True if iso in SF else (None if -iso in SF else False)
    return 0 < e <= 20 and iso in NF


def roots(n, a, out, other, seen=None):
    """comparison constants of atom a in the diagram n (and in the values nested in its conditions)"""
    for v in T.bdd_support(n):
        c = T.cond_of(v)
        for x in c[1:]:
            polys(x, a, out, other)


def polys(x, a, out, other):
    if isinstance(x, Poly):
        at = x.atoms()
        if at == {a} or list(at) == [a]:
            if set(x.t) <= {((a, 1),), ()}:
                out.add(-x.t.get((), Fraction(0)) / x.t[((a, 1),)])
            else:
                other.append(x)
        else:
            for b in at:
                t = T.atom_of(b)
                if t[0] == "ite":
                    roots(t[1].n, a, out, other)
                    polys(t[2], a, out, other); polys(t[3], a, out, other)
                    d = x - Poly({((b, 1),): x.t.get(((b, 1),), 0)}) if ((b, 1),) in x.t else None
                    if d is not None and d.const() is not None:
                        k = -d.const() / x.t[((b, 1),)]
                        out.add(k); out.add(-k)
                elif b != a and a in T.deep_atoms(T.unkey(b) if False else Poly({((b, 1),): Fraction(1)})):
                    other.append(x)
                    k = x.t.get((), Fraction(0))
                    out.add(k); out.add(-k)


def run(ctx, rep, tier):
    m = ctx.module(INL)
    entry(ctx, rep, m, "event", [x for x in ctx.fns(m, "cgmfEvent::cgmfEvent") if len(x.args) == 5][0])
    ys = ctx.fns(m, "cgmfYields::cgmfYields")
    if not ys:
        raise AnalysisBroken("cgmfYields constructor not found")
    entry(ctx, rep, m, "yields", ys[0])
    window(ctx, rep, m)
    driver(ctx, rep, m)


def entry(ctx, rep, m, nm, f):
    F = ctx.sym(m, f)
    gen = [e for e in calls(F, lambda q: q == "FissionFragments::FissionFragments") if e.pc != T.FALSE and len(e.args) == 4]
    if not gen:
        raise AnalysisBroken("%s: no fragment generator constructed" % nm)
    iso, eng = F.vals[1], F.vals[2]
    ia, ea = iso.single(), eng.single()
    pcs = T.FALSE
    for e in gen:
        pcs = T.bdd_or(pcs, e.pc)
        compare(rep, "C04:%s:isotope" % nm, F, e.args[1], iso, e.where, "fragments are generated for the isotope asked for")
        compare(rep, "C04:%s:energy" % nm, F, e.args[2], eng, e.where, "fragments are generated for the energy asked for")
    ri, re_, other = set(), {Fraction(0), Fraction(20)}, []
    roots(pcs, ia, ri, other); roots(pcs, ea, re_, other)
    ri |= {Fraction(x) for x in SF | NF} | {Fraction(-x) for x in SF | NF} | {Fraction(0)}
    pts = sorted({int(x) + d for x in ri if x.denominator == 1 for d in (-1, 0, 1)} | {10**6, -10**6})
    r = sorted(re_)
    es = set(r) | {r[0] - 1, r[-1] + 1} | {(a + b) / 2 for a, b in zip(r, r[1:])} | {x + d for x in r for d in (Fraction(1, 10**7), -Fraction(1, 10**7))}
    nbad = 0
    und = 0
    for i in pts:
        n1 = T.dsubst(Bd(pcs), {ia: P(i)}).n
        for e in sorted(es):
            want = spec(i, e)
            if want is None:
                continue
            rep.count("input cells (%s)" % nm)
            got = n1 if n1 <= 1 else T.dsubst(Bd(n1), {ea: P(e)}).n
            if want and got != T.TRUE:
                if got == T.FALSE:
                    nbad += 1
                    if nbad <= 5:
                        rep.bad("C04:%s:rejects:%d" % (nm, i), gen[0].where, "isotope %d at %s MeV is a supported reaction but no fragment is generated" % (i, float(e)))
                else:
                    und += 1
            if not want and got != T.FALSE:
                if got == T.TRUE or free(got):
                    nbad += 1
                    if nbad <= 5:
                        rep.bad("C04:%s:accepts:%d" % (nm, i), gen[0].where, "isotope %d at %s MeV is not supported but fragments are generated" % (i, float(e)))
                else:
                    und += 1
    if und:
        rep.undecided("C04:%s:cells" % nm, "%d input cells undecided" % und)
    elif not nbad:
        rep.ok("C04:%s:cells" % nm, "fragments are generated exactly for the supported reactions (%d isotope x %d energy cells)" % (len(pts), len(es)))
    if other:
        rep.assumptions.append("%s: %d comparisons are not linear in one input; they were decided at the listed points only" % (nm, len(other)))
    # status of the exits that depend on the inputs
    for e in F.effects:
        if e.kind == "call" and e.callee in ("exit", "_exit", "_Exit", "quick_exit") and e.pc != T.FALSE:
            rep.count("exits")
            c = e.args[0].const() if isinstance(e.args[0], Poly) else None
            rep.decide("C04:%s:status:%s" % (nm, e.inst.line), None if c is None else int(c) % 256 != 0, e.where, "a rejected input ends the process with a failure status", show(e.args[0]))
    # NaN: with the energy's not-a-number flag set no comparison of the energy has a free outcome any more
    N = sym.FnSym(f, ctx.summ(m), nan={ea})
    gen = [e for e in calls(N, lambda q: q == "FissionFragments::FissionFragments") if e.pc != T.FALSE and len(e.args) == 4]
    pcs = T.FALSE
    for e in gen:
        pcs = T.bdd_or(pcs, e.pc)
    fl = T.bdd_top(T.bvar("nan", ea))[0]
    n0 = T.bdd_cofactor(pcs, fl, True)
    acc = [i for i in pts if T.dsubst(Bd(n0), {ia: P(i)}).n != T.FALSE]
    dep = any(ea in T.deep_atoms(x) for v in T.bdd_support(n0) for x in T.cond_of(v)[1:])
    sure = [i for i in acc if T.dsubst(Bd(n0), {ia: P(i)}).n == T.TRUE or free(T.dsubst(Bd(n0), {ia: P(i)}).n)]
    rep.decide("C04:%s:nan" % nm, None if acc and (dep or other or not sure) else not acc, gen[0].where, "an energy that is not a number is rejected",
               "the fragment generator is reached with a NaN energy (isotope %s)" % acc[:3])


def free(n):
    """what is left of the condition is a comparison of other arguments, which the caller may choose, and it can hold"""
    for v in T.bdd_support(n):
        c = T.cond_of(v)
        ps = [x for x in c[1:] if isinstance(x, Poly)]
        if c[0] not in ("lt", "eq") or not ps:
            return False
        if any(T.atom_of(a)[0] != "arg" for x in ps for a in T.deep_atoms(x)):
            return False
    r = lin.cases([], [], conds=[n])
    return bool(r) and any(x[2][0] == T.TRUE for x in r)


def window(ctx, rep, m):
    F = ctx.sym(m, "readUserInput")
    ex = [e for e in F.effects if e.kind == "call" and e.callee in F.mod.noreturn and e.pc != T.FALSE and not e.loops]
    rs = [e for e in F.effects if e.kind == "ret"]
    if not rs:
        raise AnalysisBroken("readUserInput never returns")
    v = read(F, glob(F, "timeCoincidenceWindow"), [], rs[-1].mem)
    a = v.single()
    if a is None:
        rep.undecided("C04:window", "time window is %s" % show(v))
        return
    ne = noexit(F)
    for x, want in ((Fraction(-2), False), (Fraction(-1) - Fraction(1, 10**7), False), (Fraction(-1) + Fraction(1, 10**7), False), (Fraction(-1, 10**9), False),
                    (Fraction(-1), True), (Fraction(0), True), (Fraction(1, 10**8), True), (Fraction(10), True)):
        got = T.dsubst(Bd(ne), {a: P(x)}).n
        rep.count("time window cells")
        good = None
        if got == T.TRUE:
            good = want
        elif got == T.FALSE:
            good = not want
        elif want:
            good = True     # other conditions may end the run
        rep.decide("C04:window:%s" % float(x), good, ex[0].where if ex else where(F), "a time window of %g is %s" % (float(x), "accepted" if want else "rejected"))
    rep.floor("time window cells", 8)


def driver(ctx, rep, m):
    """the command line's isotope and energy are the ones passed on"""
    M = ctx.sym(m, "main")
    n = 0
    for e in M.effects:
        if e.kind != "call" or e.pc == T.FALSE:
            continue
        q = cq(M, e)
        if q in ("cgmfEvent::cgmfEvent", "cgmfYields::cgmfYields") and len(e.args) == 5:
            n += 1
            compare(rep, "C04:driver:%s:isotope" % q, M, e.args[1], read(M, glob(M, "ZAIDt"), [], e.mem), e.where, "the driver passes on the isotope asked for")
            compare(rep, "C04:driver:%s:energy" % q, M, e.args[2], read(M, glob(M, "incidentEnergy"), [], e.mem), e.where, "the driver passes on the energy asked for")
    if n < 2:
        raise AnalysisBroken("driver: %d generator constructions" % n)
