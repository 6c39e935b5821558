"""A constructed event lists its particles completely: for every number of neutrons and photons the light
fragment emitted (n1) and the heavy one emitted (n2), entry k of every neutron (photon) list is entry k of the
light fragment's list for k < n1 and entry k - n1 of the heavy fragment's for n1 <= k < n1 + n2.

Rule: term for element k of each array after the event constructor (loops inverted), compared case by case.
"""
from props.lib import *

N = {"neutronEnergies": "neutronEnergies", "neutronDircosu": "neutronDircosu", "neutronDircosv": "neutronDircosv",
     "neutronDircosw": "neutronDircosw", "cmNeutronEnergies": "cmNeutronEnergies", "cmNeutronDircosu": "cmNeutronDircosu",
     "cmNeutronDircosv": "cmNeutronDircosv", "cmNeutronDircosw": "cmNeutronDircosw", "neutronAges": None}
G = {"photonEnergies": "photonEnergies", "photonDircosu": "photonDircosu", "photonDircosv": "photonDircosv",
     "photonDircosw": "photonDircosw", "photonAges": "photonAges"}
SCAL = ["A", "Z", "U", "spin", "parity", "KE"]
INL = lambda f: C.qual(f) in ("cgmfEvent::allocateMemory", "cgmEvent::allocateMemory")


def arrptr(F, this, name, mem, assume):
    """the array the member points to, under the assumption that it was allocated"""
    v = F.load(mem, Ptr(this.base, this.off + P(member(F.types, "cgmfEvent", name)[0]), this.ty), "ptr")
    cs = lin.cases([v], assume)
    if cs is None:
        raise Unresolved(name)
    out = {}
    for l, (p,), _ in cs:
        while p.base[0] == "ite":
            p = p.base[2]  # resolved below
        out[p] = l
    return out


def ptr_cases(p):
    if p.base[0] == "ite":
        _, c, a, b = p.base
        return [(T.bdd_and(c.n, x), q) for x, q in ptr_cases(a)] + [(T.bdd_and(T.bdd_not(c.n), x), q) for x, q in ptr_cases(b)]
    return [(T.TRUE, p)]


def event_ctor(ctx, m):
    f = [x for x in ctx.fns(m, "cgmfEvent::cgmfEvent") if len(x.args) == 5]
    if not f:
        raise AnalysisBroken("event constructor not found")
    return ctx.sym(m, f[0])


def run(ctx, rep, tier):
    m = ctx.module(INL)
    F = event_ctor(ctx, m)
    this = F.vals[0]
    tm = F.vals[3]
    mem = final(F)
    w = where(F)
    k = T.var("k")
    rd = lambda *p: read(F, this, list(p), mem)
    spec = calls(F, "specMCMainFission")
    if len(spec) != 2:
        rep.bad("C11:deexcite", w, "each fragment is de-excited exactly once: %d calls" % len(spec))
        return
    for kind, tab, nn in (("neutron", N, "nu"), ("photon", G, "nug")):
        n1 = rd("eventLF", nn); n2 = rd("eventHF", nn)
        tot = rd(kind + "Nu")
        compare(rep, "C11:%s:count" % kind, F, tot, n1 + n2, w, "%s multiplicity of the event is light + heavy" % kind)
        assume = lits(T.bdd_not(T.ilt0(k)), T.ilt0(k - n1 - n2), T.bdd_not(T.ilt0(n1)), T.bdd_not(T.ilt0(n2)))
        for arr, src in sorted(tab.items()):
            oid = "C11:%s" % arr
            rep.count("lists")
            p = F.load(mem, Ptr(this.base, this.off + P(member(F.types, "cgmfEvent", arr)[0]), this.ty), "ptr")
            exp1 = rd("eventLF", src, k) if src else ZERO
            exp2 = rd("eventHF", src, k - n1) if src else ZERO
            if arr.endswith("Ages"):
                exp1 = exp1 + tm; exp2 = exp2 + tm
            exp = T.ite(T.ilt0(k - n1), exp1, exp2)
            try:
                for c, q in ptr_cases(p):
                    if c != T.TRUE and not any(cc[2][0] == T.TRUE for cc in (lin.cases([], assume, conds=[c]) or [])):
                        continue
                    if q.base[0] != "heap":
                        rep.undecided(oid, "array is %r" % q)
                        continue
                    al = [e for e in F.effects if e.kind == "call" and e.res == q]
                    if al:
                        compare(rep, oid + ":size", F, al[0].args[0], (n1 + n2) * P(8), al[0].where, "%s has room for every %s" % (arr, kind), assume, c)
                    got = content(F, q.base, (), k)
                    compare(rep, oid, F, got, exp, w, "%s[k] is the light fragment's particle k, then the heavy one's particle k - n(light)" % arr, assume, c)
            except Unresolved as u:
                rep.undecided(oid, str(u))
    rep.floor("lists", 14)
    # fragments handed to de-excitation are the sampled ones
    gen = calls(F, lambda q: q.endswith("::generateInitialFissionFragmentHistories"))
    if len(gen) != 1:
        rep.bad("C11:sample", w, "fragments are sampled %d times" % len(gen))
        return
    lf, hf = gen[0].args[1], gen[0].args[2]
    frag = member(F.types, "cgmfEvent", "eventLF")[0], member(F.types, "cgmfEvent", "eventHF")[0]
    seen = set()
    for e in spec:
        a = e.args[0]
        which = None
        for nm, off in (("eventLF", frag[0]), ("eventHF", frag[1])):
            if a == Ptr(this.base, this.off + P(off)):
                which = nm
        if which is None or which in seen:
            rep.bad("C11:deexcite:%s" % which, e.where, "each of the two fragments is de-excited once; this call gets %r" % a)
            continue
        seen.add(which)
        src = lf if which == "eventLF" else hf
        for s in SCAL:
            got = read(F, this, [which, s], e.mem)
            exp = read(F, Ptr(src.base, src.off, src.ty), [s], e.mem)
            rep.count("fragment quantities")
            compare(rep, "C11:%s:%s" % (which, s), F, got, exp, e.where, "the %s fragment starts its decay with the sampled %s" % (which, s))
        for i in range(3):
            got = read(F, this, [which, "preFragmentMomentum", i], e.mem)
            exp = read(F, Ptr(src.base, src.off, src.ty), ["preMomentum", i], e.mem)
            compare(rep, "C11:%s:p%d" % (which, i), F, got, exp, e.where, "the %s fragment starts with the sampled momentum" % which)
    rep.floor("fragment quantities", 12)
    # what the decay stored is not changed afterwards
    for nm, off in (("eventLF", frag[0]), ("eventHF", frag[1])):
        k0 = [F.effects.index(x) for x in spec if x.args[0] == Ptr(this.base, this.off + P(off))]
        late = [x for x in F.effects[k0[0] + 1:] if x.kind == "store" and x.pc != T.FALSE and x.loc.base == this.base
                and any(c[0] == "f" and c[2] == nm for c in x.loc.comps)] if k0 else []
        rep.decide("C11:%s:kept" % nm, not late, late[0].where if late else w, "what the decay of the fragment produced is not changed before it is listed", "%s is written after its decay" % nm)
    # pre-fission neutrons
    ff = gen[0].args[0]
    npf = rd("preFissionNeutronNu")
    exp = read(F, ff, ["Ac0"], gen[0].mem) if False else None
    a0 = F.load(mem, Ptr(ff.base, ff.off + P(member(F.types, "FissionFragments", "Ac0")[0]), ff.ty), "i32")
    a1 = F.load(mem, Ptr(ff.base, ff.off + P(member(F.types, "FissionFragments", "Ac")[0]), ff.ty), "i32")
    compare(rep, "C11:prefission:count", F, npf, a0 - a1, w, "pre-fission neutrons = neutrons the compound nucleus lost before scission")
    assume = lits(T.bdd_not(T.ilt0(k)), T.ilt0(k - npf))
    v = [read(F, Ptr(ff.base, ff.off, "FissionFragments"), ["labVelocities_pfn", k, i], mem) for i in range(3)]
    v2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    MN = P(1.00866491578) * P(931.494013)
    want = {"preFissionNeutronEnergies": T.div(MN * v2, P(2))}
    for i, c in enumerate("uvw"):
        want["preFissionNeutronDircos" + c] = T.div(v[i], T.fn("sqrt", v2))
    for arr, exp in want.items():
        rep.count("lists")
        p = F.load(mem, Ptr(this.base, this.off + P(member(F.types, "cgmfEvent", arr)[0]), this.ty), "ptr")
        try:
            for c, q in ptr_cases(p):
                if c != T.TRUE and not any(cc[2][0] == T.TRUE for cc in (lin.cases([], assume, conds=[c]) or [])):
                    continue
                got = content(F, q.base, (), k)
                compare(rep, "C11:" + arr, F, got, exp, w, "%s[k] from the lab velocity of pre-fission neutron k" % arr, assume, c)
        except Unresolved as u:
            rep.undecided("C11:" + arr, str(u))
    rep.assumptions += ["integer arithmetic does not overflow", "new[] either returns or terminates"]
