"""Energy is conserved from the compound nucleus to the last photon.

Rule: terms of Q, TXE, Ul + Uh, KEl, KEh, the excitation energy of the fissioning nucleus and the energies recorded at
every decay step satisfy the energy balance; each step starts from the state the previous one reached.
"""
from props.phys import *
from props.c14 import MC, settle

MCP = (("n", 0, "i32"), ("p", 4, "i32"), ("j", 8, "i32"), ("k", 12, "i32"), ("e", 16, "double"), ("l", 24, "i8"))


def point(F, mem, p):
    """components of the MCPoint at p (a by-value copy or a result slot)"""
    o = {}
    for nm, off, ty in MCP:
        try:
            mo, mt = member(F.types, "MCPoint", nm)
        except AnalysisBroken:
            mo = off
        o[nm] = F.load(mem, Ptr(p.base, p.off + P(mo), p.ty), ty)
    return o


def num(v):
    return T.ite(v.n, ONE, ZERO) if isinstance(v, Bd) else v


def q_txe(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "FissionFragments::computeFragmentInitialConditions"))
    this, TKE, Zl, Al, Zh, Ah = F.vals[:6] if isinstance(F.vals, list) else [F.vals[i] for i in range(6)]
    Ul, Uh, Er = F.vals[6], F.vals[7], F.vals[12]
    w = where(F)
    mem = final(F)
    r = lambda n: read(F, this, [n])
    Q = r("massExcessCompound") - ME(P(1000) * Zl + Al) - ME(P(1000) * Zh + Ah)
    rel(rep, "C15:Q", F, F.load(mem, Er, "double") - Q, w, "energy release = mass excess of the fissioning nucleus - those of the two fragments")
    TXE = Q + r("incidentEnergy") + r("SnCompound") - TKE
    cs = [e for e in calls(F, "FissionFragments::computeFragmentExcitationEnergy") if e.pc != T.FALSE]
    if len(cs) != 1:
        rep.undecided("C15:TXE", "%d calls of computeFragmentExcitationEnergy" % len(cs))
        return
    e = cs[0]
    rel(rep, "C15:TXE", F, e.args[1] - TXE, e.where, "energy shared by the fragments = energy release + excitation of the fissioning nucleus - TKE", cond=e.pc)
    for k, (n, v) in enumerate((("Zl", Zl), ("Al", Al), ("Zh", Zh), ("Ah", Ah))):
        compare(rep, "C15:share:" + n, F, e.args[2 + k], v, e.where, "shared between the sampled fragments (%s)" % n)
    for k, (n, v) in enumerate((("Ul", Ul), ("Uh", Uh))):
        rep.decide("C15:share:" + n, same(e.args[6 + k], v), e.where, "light and heavy energy not interchanged (%s)" % n)
    # exactly when energy is available
    neg = T.eq0(ONE)
    neg = T.dsubst(Bd(e.pc), {}).n
    TX = masses(F, e.args[1])
    got = masses(F, T.ite(e.pc, ONE, ZERO))
    compare(rep, "C15:TXE:available", F, got, T.ite(T.lt0(TX), ZERO, ONE), e.where, "energy is shared exactly when it is not negative")
    # both zero otherwise
    for n, v in (("Ul", Ul), ("Uh", Uh)):
        st = [x for x in F.effects if x.kind == "store" and x.pc != T.FALSE and x.loc.base == v.base]
        c = T.FALSE
        for x in st:
            c = T.bdd_or(c, x.pc)
            compare(rep, "C15:rejected:" + n, F, x.val, ZERO, x.where, "a pair without energy gets none (%s)" % n, cond=x.pc)
        compare(rep, "C15:rejected:%s:all" % n, F, masses(F, T.ite(c, ONE, ZERO)), T.ite(T.lt0(TX), ONE, ZERO), w, "a pair without energy is marked by %s = 0, no other is" % n)
    rep.count("sites", 4)


def sharing(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "FissionFragments::computeFragmentExcitationEnergy"))
    TXE, Ul, Uh = F.vals[1], F.vals[6], F.vals[7]
    mem = final(F)
    # the option no supported isotope selects
    cond = T.TRUE
    used = options(ctx, m, rep)
    if "maxEntropy" not in used:
        for e in F.effects:
            if e.kind == "call" and len(e.args) == 2 and cstr(F, e.args[1]) == "maxEntropy" and isinstance(e.res, (Bd, Poly)) and not e.loops:
                b = e.res.n if isinstance(e.res, Bd) else T.bdd_not(T.eq0(e.res))
                # compare() == 0 means equal, operator== true means equal
                if "compare" in (cq(F, e) or ""):
                    b = T.bdd_not(b)
                cond = T.bdd_and(cond, T.bdd_not(b))
    else:
        rep.bad("C15:share:option", where(F), "the maximum-entropy option, which keeps part of the energy back, is selected")
    ex = [e for e in F.effects if e.kind == "ret"]
    ul, uh = F.load(mem, Ul, "double"), F.load(mem, Uh, "double")
    d = ul + uh - TXE
    cs = lin.cases([d], [], conds=[T.bdd_and(cond, returns(F))])
    bad = und = None
    for ls, (x,), c in cs or ():
        if c and c[0] == T.FALSE:
            continue
        x = T.clear(x)
        if not x.t:
            continue
        carried = [a for a in T.deep_atoms(x) if T.atom_of(a)[0] == "phix"]
        k = kept(F, x, carried) if carried else None
        if k is True:
            continue
        if isinstance(k, Poly):
            bad = (k, ls)
            continue
        if carried and refuted(F, x, carried):
            bad = (x, ls)
        elif len(carried) > 1 or unknown(F, x, T.deep_atoms(TXE)) and not carried:
            und = x
        else:
            bad = (x, ls)
    w = where(F)
    if cs is None or und is not None:
        rep.undecided("C15:share:sum", "Ul + Uh - TXE = %s" % show(und if und is not None else d))
    elif bad:
        rep.bad("C15:share:sum", w, "Ul + Uh differs from the energy shared by %s" % show(bad[0]))
    else:
        rep.ok("C15:share:sum", "the two fragments' energies add up to the energy shared")


def refuted(F, x, carried):
    """x is still there after the first iteration, with what the callees returned to it left arbitrary"""
    ini, lat = {}, {}
    for a in carried:
        t = T.atom_of(a)
        info = F.li.get(t[2]) if t[1] == F.fn.name else None
        ph = T.atom("phi", *t[1:])
        if info is None or ph not in info.deltas:
            return False
        ini[a] = info.deltas[ph][0]
        lat[a] = latch(F, t[2], ph)
    x1 = T.dsubst(x, lat)
    mp = {}
    for h in {T.atom_of(a)[2] for a in carried}:
        for a, (v, _) in F.li[h].deltas.items():
            if isinstance(v, Poly):
                mp[a] = v
    d = norm(T.clear(T.dsubst(x1, mp)))
    if not d.t:
        return False
    for a in T.deep_atoms(d):
        t = T.atom_of(a)
        if t[0] in ("phi", "phix", "undef", "op", "ldx", "mix", "ex", "ins"):
            return False
    return True


def kept(F, x, carried):
    """x vanishes on leaving the loop because it does for the initial values and after every iteration"""
    ini, lat = {}, {}
    for a in carried:
        t = T.atom_of(a)
        info = F.li.get(t[2]) if t[1] == F.fn.name else None
        ph = T.atom("phi", *t[1:])
        if info is None or ph not in info.deltas:
            return False
        ini[a] = info.deltas[ph][0]
        lat[a] = latch(F, t[2], ph)
    i0 = norm(T.clear(T.dsubst(x, ini)))
    x1 = T.dsubst(x, lat)
    if i0.t:
        return None
    if not norm(T.clear(x1)).t:
        return True
    mp = {}
    for h in {T.atom_of(a)[2] for a in carried}:
        for a, (v, _) in F.li[h].deltas.items():
            if isinstance(v, Poly):
                mp[a] = v
    d = norm(T.clear(T.dsubst(x1, mp)))      # after the first iteration
    if d.t and not any(T.atom_of(a)[0] in ("phi", "phix", "undef") for a in T.deep_atoms(d)):
        return d
    return None


def options(ctx, m, rep):
    """string constants ever assigned to energySortingOption by the constructor in use"""
    out = set()
    F = ctx.sym(m, ctx.fn(m, "FissionFragments::setOptions"))
    try:
        off, _ = member(F.types, "FissionFragments", "energySortingOption")
    except AnalysisBroken:
        return {"maxEntropy"}
    n = 0
    for e in F.effects:
        if e.kind == "call" and e.args and isinstance(e.args[0], Ptr) and e.args[0].base == F.vals[0].base and e.args[0].off.const() == off and len(e.args) > 1:
            s = cstr(F, e.args[1])
            n += 1
            out.add(s)
    rep.count("sorting options", n)
    return out


def system(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "FissionFragments::constructYields"))
    this = F.vals[0]
    w = where(F)
    sfv = read(F, this, ["sf_flag"])
    sf = sfv.n if isinstance(sfv, Bd) else T.bdd_not(T.eq0(sfv))
    cs = [e for e in calls(F, "FissionFragments::getPrefissionNeutronEnergy") if e.pc != T.FALSE]
    if len(cs) != 1 or cs[0].pc != T.TRUE:
        rep.undecided("C15:system", "%d calls of getPrefissionNeutronEnergy" % len(cs))
        return
    e = cs[0]
    X = e.args[1]
    compare(rep, "C15:system:start", F, F.load(e.mem, X, "double"), read(F, glob(F, "ncl"), [0, "max_energy"]), e.where, "pre-fission emission starts from the excitation energy of the compound nucleus")
    mem = final(F)
    after = F.load(mem, X, "double")
    r = lambda n: read(F, this, [n], mem)
    rel(rep, "C15:system:E", F, T.ite(sf, ZERO, r("incidentEnergy") + r("SnCompound") - after), w, "incident energy + separation energy = excitation energy left after the pre-fission neutrons")
    rel(rep, "C15:system:mass", F, T.ite(sf, ZERO, r("massExcessCompound") - ME(P(1000) * r("Zc") + r("Ac"))), w, "the energy release is computed from the mass of the nucleus that fissions")
    r0 = lambda n: read(F, this, [n])
    rel(rep, "C15:system:sf:E", F, T.ite(sf, r("incidentEnergy") - r0("incidentEnergy0"), ZERO), w, "spontaneous fission adds no energy")
    rel(rep, "C15:system:sf:Sn", F, T.ite(sf, r("SnCompound") - r0("SnCompound0"), ZERO), w, "spontaneous fission adds no separation energy")
    rel(rep, "C15:system:sf:mass", F, T.ite(sf, r("massExcessCompound") - r0("massExcessCompound"), ZERO), w, "and keeps the compound nucleus")
    rep.count("sites")


def initial(ctx, m, rep):
    """constructor and buildYields: mass excess, separation energy and excitation energy of the compound nucleus"""
    F = [ctx.sym(m, f) for f in ctx.fns(m, "FissionFragments::FissionFragments") if f.dem.endswith("(int, double, double)")][0]
    this = F.vals[0]
    cs = [e for e in F.effects if e.kind == "call" and cq(F, e) in ("FissionFragments::setOptions", "FissionFragments::init", "FissionFragments::buildYields")]
    mem = cs[0].mem
    r = lambda n: read(F, this, [n], mem)
    rel(rep, "C15:compound:mass", F, r("massExcessCompound") - ME(r("ZAIDc")), where(F), "mass excess of the compound nucleus")
    F = ctx.sym(m, ctx.fn(m, "FissionFragments::buildYields"))
    this = F.vals[0]
    w = where(F)
    r0 = lambda n: read(F, this, [n])
    Sn = -ME(P(1000) * r0("Zc") + r0("Ac")) + ME(P(1000) * r0("Zc") + r0("Ac") - ONE) + ME(ONE)
    exp = T.ite(T.eq0(r0("incidentEnergy")), ZERO, Sn)
    st = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.comps and e.loc.comps[-1][0] == "f"]
    s0 = [e for e in st if e.loc.comps[-1][2] == "SnCompound0"]
    if not s0:
        rep.undecided("C15:compound:Sn", "separation energy is not stored in buildYields")
    for e in s0[-1:]:
        rel(rep, "C15:compound:Sn", F, e.val - exp, e.where, "separation energy of the compound nucleus (0 for spontaneous fission)")
    mx = [e for e in st if e.loc.comps[-1][2] == "max_energy"]
    for e in mx:
        rel(rep, "C15:compound:E", F, e.val - r0("incidentEnergy") - exp, e.where, "excitation energy of the compound nucleus = incident energy + separation energy")
        rep.count("sites")
    if not mx:
        rep.undecided("C15:compound:E", "excitation energy is not stored in buildYields")


def prefission(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "FissionFragments::getPrefissionNeutronEnergy"))
    this, X = F.vals[0], F.vals[1]
    w = where(F)
    mem = final(F)
    n0 = read(F, this, ["n_pfn"])
    n1 = read(F, this, ["n_pfn"], mem)
    E0, E1 = F.load(F.mem0, X, "double"), F.load(mem, X, "double")
    ne = read(F, this, ["nemit"])
    st = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base == X.base]
    # neutrons that count <=> energy lowered (nemit = 0: none can have been sampled)
    wr = T.FALSE
    for e in st:
        wr = T.bdd_or(wr, e.pc)
        exp = None
        t = [T.atom_of(a) for a in e.val.atoms()] if isinstance(e.val, Poly) else []
        t = [x for x in t if x[0] == "ld" and any(c[0] == "f" and c[2] == "excitation" for a in T.deep_atoms(x[1]) for c in (T.atom_of(a)[2] if T.atom_of(a)[0] == "ld" else ()))]
        if len(t) == 1 and T.equal(e.val, Poly({((T.atom(*t[0]), 1),): Fraction(1)})):
            k = [c for c in t[0][2] if c[0] == "i"][0][1]
            exp = read(F, glob(F, "ncl"), [n1, "excitation", k], e.mem)
            compare(rep, "C15:prefission:left", F, e.val, exp, e.where, "the energy left is an energy of the nucleus that remains", cond=e.pc)
        else:
            rep.undecided("C15:prefission:left", "energy left is %s" % show(e.val))
    some = T.bdd_not(T.eq0(n1))
    compare(rep, "C15:prefission:all", F, T.ite(wr, ONE, ZERO), ONE, w, "whenever pre-fission neutrons are counted the excitation energy is lowered", cond=T.bdd_and(some, T.bdd_not(T.eq0(ne))))
    cm = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and any(c[0] == "f" and c[2] == "cmEnergy_pfn" for c in e.loc.comps)]
    asm = lits(T.bdd_not(T.ilt0(n0 - ONE)))
    covered_pfn(rep, F, cm, n1, n0, ne, w)
    carried_bin(rep, F, cm, st)


def covered_pfn(rep, F, cm, n1, n0, ne, w):
    k = T.var("elem", "pfn")
    u = T.FALSE
    for e in cm:
        try:
            c, _ = __import__("props.lib", fromlist=["_invert"])._invert(F, e, [c for c in e.loc.comps if c[0] == "i"][-1][1], k)
        except Unresolved as x:
            rep.undecided("C15:prefission:energies", str(x))
            return
        u = T.bdd_or(u, c)
        rep.count("pre-fission energies")
    asm = lits(T.bdd_not(T.ilt0(k)), T.ilt0(k - n0), T.bdd_not(T.eq0(ne)), T.bdd_not(T.ilt0(n0)))
    compare(rep, "C15:prefission:energies", F, T.ite(u, ONE, ZERO), ONE, w, "every counted pre-fission neutron gets an energy", asm, cond=T.bdd_not(T.eq0(n1)))


def carried_bin(rep, F, cm, st):
    """the energy each pre-fission neutron takes away is that of the bin the excitation energy left is read from"""
    fin = set()
    for e in st:
        for a in T.deep_atoms(e.val):
            t = T.atom_of(a)
            if t[0] == "phix" and t[1] == F.fn.name:
                fin.add(t)
    if len(fin) != 1:
        return
    t = fin.pop()
    ph = T.atom("phi", *t[1:])
    h = t[2]
    info = F.li.get(h)
    if info is None or ph not in info.deltas:
        return
    for e in cm:
        if e.val.const() is not None:
            continue
        ld = [T.atom_of(a) for a in e.val.atoms()]
        ld = [x for x in ld if x[0] == "ld" and any(c[0] == "i" for c in x[2]) and x[1] and x[1][0] != "G"]
        if len(ld) != 1:
            rep.undecided("C15:prefission:bin", "energy of unknown form at %s" % e.where)
            continue
        k = [c for c in ld[0][2] if c[0] == "i"][0][1]
        if h in e.loops:
            exp = latch(F, h, ph)
        elif e.loops:
            continue
        else:
            exp = info.deltas[ph][0]
        compare(rep, "C15:prefission:bin:%d" % cm.index(e), F, k, exp, e.where, "the energy a pre-fission neutron takes away is that of the bin the nucleus is left in", cond=e.pc)
        rep.count("pre-fission bins")


def kinetic(ctx, m, rep):
    for f in ctx.fns(m, "FissionFragments::sampleFissionFragments"):
        F = ctx.sym(m, f)
        tag = "C15:sample%d" % len(F.fn.args)
        this, l, h = F.vals[0], F.vals[1], F.vals[2]
        w = where(F)
        mem = final(F)
        g = lambda fr, n: read(F, fr, [n], mem)
        ci = [e for e in calls(F, "FissionFragments::computeFragmentInitialConditions") if e.pc != T.FALSE]
        if len(ci) != 1:
            rep.undecided(tag, "%d calls of computeFragmentInitialConditions" % len(ci))
            continue
        e = ci[0]
        TKE = g(l, "TKE")
        tk = e.args[1]
        ex = {}
        for hh in e.loops:
            ex.update({a: v for a, v in F.li[hh].exitmap.items() if isinstance(a, int) and isinstance(v, Poly)})
        tk = T.dsubst(tk, ex) if ex else tk
        rel(rep, tag + ":TKE", F, TKE - tk, e.where, "the recorded TKE is the one the energies were computed with", free=T.deep_atoms(tk))
        rel(rep, tag + ":TKEh", F, g(h, "TKE") - TKE, w, "both fragments record the same TKE", free=T.deep_atoms(TKE))
        fr = T.deep_atoms(TKE)
        rel(rep, tag + ":KE", F, g(l, "KE") + g(h, "KE") - TKE, w, "the fragments' kinetic energies add up to TKE", free=fr)
        Ml, Mh = mass(g(l, "Z"), g(l, "A")), mass(g(h, "Z"), g(h, "A"))
        rel(rep, tag + ":KEratio", F, g(l, "KE") * Ml - g(h, "KE") * Mh, w, "kinetic energies share TKE inversely to the masses", free=fr)
        for fr_, n in ((l, "light"), (h, "heavy")):
            got = read(F, fr_, ["energyRelease"], mem)
            exp = F.load(mem, e.args[12], "double")
            rel(rep, tag + ":Q:" + n, F, got - exp, w, "recorded energy release is the one computed (%s)" % n)
            rel(rep, "%s:mass:%s" % (tag, n), F, g(fr_, "mass") - mass(g(fr_, "Z"), g(fr_, "A")), w, "recorded mass is that of the fragment (%s)" % n)
        rep.count("samplers")


def separation(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "statSetupInitSystem"))
    N = glob(F, "ncl")
    nemit = F.vals[0]
    idx = lambda e: [c for c in e.loc.comps if c[0] == "i"]

    def channel(e):
        """nucleus whose channel table is written"""
        for a in T.deep_atoms(e.loc.base):
            t = T.atom_of(a)
            if t[0] == "ld" and t[2] and t[2][-1][0] == "f" and t[2][-1][2] == "cdt":
                ii = [c for c in t[2] if c[0] == "i"]
                return ii[0][1] if ii else None
    last = lambda e: e.loc.comps[-1][2] if e.loc.comps and e.loc.comps[-1][0] == "f" else None
    st = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE]
    for e in st:
        if last(e) == "mass_excess" and any(c[0] == "f" and c[1] == "Nucleus" for c in e.loc.comps):
            k = idx(e)[0][1]
            z, a = read(F, N, [k, "za", "Z"], e.mem), read(F, N, [k, "za", "A"], e.mem)
            rel(rep, "C15:chain:mass", F, e.val - ME(P(1000) * z + a), e.where, "mass excess of nucleus k is that of its own Z and A")
            rep.count("chain writes")
    sepa = {}
    b = [e for e in st if last(e) == "binding_energy" and not (isinstance(e.val, Poly) and not e.val.t)]
    ne = None
    for e in b:
        k = channel(e)
        if k is None:
            rep.undecided("C15:chain:Sn", "channel of unknown nucleus at %s" % e.where)
            continue
        exp = read(F, N, [k + ONE, "mass_excess"], e.mem) + P(8.071431) - read(F, N, [k, "mass_excess"], e.mem)
        compare(rep, "C15:chain:Sn", F, settle(F, e.val), exp, e.where, "separation energy of nucleus k = mass excess of k+1 and a neutron - that of k")
        ne = e
        rep.count("chain writes")
    if not b:
        rep.undecided("C15:chain:Sn", "separation energies are not set here")
    else:
        covered(rep, "C15:chain:Sn:all", F, [e for e in b if channel(e) is not None], channel, ZERO, nemit - ONE, where(F), "every nucleus of the chain has its separation energy", lits(T.bdd_not(T.ilt0(nemit))))
    for e in st:
        if last(e) == "max_energy":
            k = idx(e)[0][1]
            exp = read(F, N, [k - ONE, "max_energy"], e.mem) - (read(F, N, [k, "mass_excess"], e.mem) + P(8.071431) - read(F, N, [k - ONE, "mass_excess"], e.mem))
            compare(rep, "C15:chain:E", F, settle(F, e.val), exp, e.where, "the most energy nucleus k can have is that of k-1 less the separation energy")
            rep.count("chain writes")


def steps(ctx, m, rep):
    # the recorded energy of one step
    F = ctx.sym(m, ctx.fn(m, "mcStoreHistory"))
    m0, m1 = point(F, F.mem0, F.vals[1]), point(F, F.mem0, F.vals[2])
    samen = T.eq0(m0["n"] - m1["n"])
    Sn = read(F, glob(F, "ncl"), [m0["n"], "cdt", 1, "binding_energy"])
    exp = m0["e"] - m1["e"] - T.ite(samen, ZERO, Sn)
    np0 = F.load(F.mem0, glob(F, "np"), "i32")
    n = 0
    tot = T.FALSE
    for e in F.effects:
        if e.kind != "store" or e.pc == T.FALSE or not e.loc.comps or e.loc.comps[-1][0] != "f":
            continue
        nm = e.loc.comps[-1][2]
        if nm not in ("ep", "id") or e.loc.base != glob(F, "hs").base:
            continue
        k = [c for c in e.loc.comps if c[0] == "i"][0][1]
        compare(rep, "C15:step:slot", F, k, np0, e.where, "one history entry per step", cond=e.pc)
        if nm == "ep":
            compare(rep, "C15:step:energy", F, e.val, exp, e.where, "recorded energy = energy before - energy after - separation energy if a neutron left", cond=e.pc)
            tot = T.bdd_or(tot, e.pc)
        else:
            ic = F.vals[0]
            icb = ic.n if isinstance(ic, Bd) else T.bdd_not(T.eq0(ic))
            exid = T.ite(samen, T.ite(icb, P(8), ZERO), ONE)
            compare(rep, "C15:step:kind", F, e.val, exid, e.where, "kind of the emitted particle", cond=e.pc)
        rep.count("recorded steps")
    compare(rep, "C15:step:always", F, T.ite(tot, ONE, ZERO), ONE, where(F), "every step is recorded")
    compare(rep, "C15:step:count", F, F.load(final_any(F), glob(F, "np"), "i32"), np0 + ONE, where(F), "and counted once")

    # where a step leads
    F = ctx.sym(m, ctx.fn(m, "mcFindNext"))
    off = 1 if len(F.fn.args) == 5 else 0
    c0, c1 = F.vals[off], F.vals[off + 1]
    mem = final(F)
    if off:
        pt = point(F, mem, F.vals[0])
        state(rep, "C15:next", F, pt, mem, where(F))
        N = glob(F, "ncl")
        stt = read(F, N, [c0, "cdt", 1, "status"])
        op = T.bdd_not(T.eq0(num(stt)))
        exp = T.ite(T.eq0(pt["n"] - c0), c0, T.ite(op, c1, c0))
        compare(rep, "C15:next:nucleus", F, pt["n"], exp, where(F), "a step stays in the nucleus or, if neutron emission is possible, leads to the next one")
    else:
        rep.undecided("C15:next", "mcFindNext returns its result in an unknown way")


def final_any(F):
    rs = [e for e in F.effects if e.kind == "ret" and e.pc != T.FALSE]
    if len(rs) != 1:
        raise AnalysisBroken("%s has %d returns" % (F.fn.dem, len(rs)))
    return rs[0].mem


def state(rep, oid, F, pt, mem, w, accept=None):
    """a decay state carries the energy of the bin (continuum) or level (discrete) it names"""
    N = glob(F, "ncl")
    l = num(pt["l"])
    # prune: split on the ites of the components first
    cs = lin.cases([pt["n"], pt["k"], pt["e"], l, pt["j"], pt["p"]], [])
    if cs is None:
        rep.undecided(oid, "too many cases")
        return
    bad = und = None
    seen = 0
    for ls, (n, k, e, dl, j, p), _ in cs:
        if accept is not None and accept(n, k, e, dl, j, p):
            seen += 1
            continue
        if dl.const() is None:
            for c, pol in ls:
                if c[0] == "eq" and T.equal(c[1], dl):
                    dl = ZERO if pol else ONE
                    break
            if dl.const() is not None and accept is not None and accept(n, k, e, dl, j, p):
                seen += 1
                continue
        if dl.const() is None:
            und = und or "discrete flag %s" % show(dl)
            continue
        try:
            if dl.const():
                ex = [("energy", e, read(F, N, [n, "lev", k, "energy"], mem)),
                      ("spin", j, T.fn("toint", read(F, N, [n, "lev", k, "spin"], mem))),
                      ("parity", p, read(F, N, [n, "lev", k, "parity"], mem))]
            else:
                ex = [("energy", e, read(F, N, [n, "excitation", k], mem))]
        except AnalysisBroken as x:
            und = und or str(x)
            continue
        seen += 1
        for nm, got, want in ex:
            d = lin.difference(got, want, ls)
            if d is None:
                continue
            got = T.dsubst(got, {})
            if d[0] != "limit" and not opaque_rel(d[1], d[2]):
                bad = bad or "%s %s where the state is that of energy %s when [%s]" % (nm, show(d[1]), show(d[2]), lin.showlits(ls)[:300])
            else:
                und = und or "%s %s against %s" % (nm, show(d[1]) if d[0] != "limit" else "?", show(d[2]) if d[0] != "limit" else "?")
    rep.count("states", seen)
    if bad:
        rep.bad(oid, w, bad)
    elif und:
        rep.undecided(oid, und)
    else:
        rep.ok(oid, "the energy of a state reached is that of the bin or level it names")


def latch(F, h, a):
    """value of loop-carried atom a at the end of an iteration"""
    info = F.li[h]
    if a not in info.deltas:
        return None
    return info.deltas[a][1] + Poly({((a, 1),): Fraction(1)})


def phi_of(v):
    if isinstance(v, Bd):
        ls = T.implied_literals(v.n)
        if len(ls) == 1:
            c, pol = ls[0]
            if c[0] in ("eq0",):
                return None
        return None
    s = v.single() if isinstance(v, Poly) else None
    if s is not None and T.atom_of(s)[0] == "phi":
        return s
    return None


def history(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "mcHistoryLoop"))
    w = where(F)
    cs = [e for e in calls(F, "mcStoreHistory") if e.pc != T.FALSE]
    if len(cs) != 1 or len(cs[0].loops) != 1:
        rep.undecided("C15:history", "%d calls of mcStoreHistory" % len(cs))
        return
    e = cs[0]
    h = e.loops[0]
    rep.decide("C15:history:every", True if e.pc == F.iterpc[h] or e.pc == T.TRUE else None, e.where, "every step of the cascade is recorded")
    a, b = point(F, e.mem, e.args[1]), point(F, e.mem, e.args[2])
    init = point(F, F.mem0, F.vals[0])
    for nm in ("n", "p", "j", "k", "e"):
        ph = phi_of(a[nm])
        if ph is None or T.atom_of(ph)[2] != h:
            rep.undecided("C15:history:" + nm, "state before the step: %s" % show(a[nm]))
            continue
        ini, _ = F.li[h].deltas.get(ph, (None, None))
        if ini is None:
            rep.undecided("C15:history:" + nm, "no value carried over")
            continue
        compare(rep, "C15:history:start:" + nm, F, ini, init[nm], e.where, "the first step starts from the initial state (%s)" % nm)
        lv = latch(F, h, ph)
        d = lin.difference(lv, b[nm])
        if d is None:
            rep.ok("C15:history:" + nm, "the next step starts where this one ended (%s)" % nm)
        elif d[0] == "limit":
            rep.undecided("C15:history:" + nm, "too many cases")
        else:
            # both sides are values of this very iteration
            rep.bad("C15:history:" + nm, e.where, "the next step starts from %s = %s but this step ended in %s (when [%s])" % (nm, show(d[1]), show(d[2]), lin.showlits(d[0])[:300]))
        rep.count("carried components")
    fn = [x for x in calls(F, "mcFindNext") if x.pc != T.FALSE and x.seq < e.seq]
    if len(fn) == 1 and isinstance(fn[0].args[0], Ptr):
        x = fn[0]
        compare(rep, "C15:history:find:n", F, x.args[1], a["n"], x.where, "the next state is sampled for the current nucleus")
        compare(rep, "C15:history:find:next", F, x.args[2], read(F, glob(F, "ncl"), [a["n"], "cdt", 1, "next"], x.mem), x.where, "and its neutron daughter")
        nx = [y for y in F.effects if y.seq is not None and y.seq > x.seq and y.mem is not None]
        # what the callee returned
        y = min(nx, key=lambda q: q.seq)
        res = point(F, y.mem, x.args[0])
        rn, rk, re_, rl = res["n"], res["k"], res["e"], num(res["l"])

        def acc(n, k, en, dl, j, p):
            if T.equal(n, rn) and T.equal(k, rk):
                if T.equal(en, re_):
                    return True          # the sampled state itself
                if dl.const() == 0:
                    return True          # its energy spread within the bin
            return False
        state_hist(rep, "C15:history:reached", F, b, e.mem, e.where, acc, rl)
        rp = [z for z in calls(F, "mcRestorePopulation") if z.pc != T.FALSE]
        if len(rp) == 1:
            z = rp[0]
            pz = point(F, z.mem, z.args[0])
            compare(rep, "C15:history:restore:e", F, pz["e"], a["e"], z.where, "the decay probabilities are computed for the current energy")
            compare(rep, "C15:history:restore:n", F, pz["n"], a["n"], z.where, "and the current nucleus")
            compare(rep, "C15:history:restore:j", F, pz["j"], a["j"], z.where, "and the current spin")
            compare(rep, "C15:history:restore:p", F, pz["p"], a["p"], z.where, "and the current parity")
            sz = F.types.size("Nucleus")
            nc = F.load(z.mem, glob(F, "ncl"), "ptr")
            rep.decide("C15:history:restore:nucleus", True if z.args[1].base == nc.base and T.equal(z.args[1].off - nc.off, P(sz) * a["n"]) else None, z.where, "of the current nucleus' tables")
    else:
        rep.undecided("C15:history:find", "%d calls of mcFindNext" % len(fn))
    G = ctx.sym(m, ctx.fn(m, "mcRestorePopulation"))
    p = point(G, G.mem0, G.vals[0])
    n0, n1 = G.vals[1], G.vals[2]
    st = [x for x in G.effects if x.kind == "store" and x.pc != T.FALSE and x.loc.comps and x.loc.comps[-1][0] == "f" and x.loc.comps[-1][2] == "max_energy"]
    if not st:
        rep.undecided("C15:restore", "energies are not set in mcRestorePopulation")
    for x in st:
        if x.loc.base == n0.base:
            compare(rep, "C15:restore:parent", G, x.val, p["e"], x.where, "the parent's energy is the current one")
        elif x.loc.base == n1.base:
            compare(rep, "C15:restore:daughter", G, x.val, p["e"] - read(G, n0, ["cdt", 1, "binding_energy"]), x.where, "the daughter's energy is that less the separation energy")
        rep.count("sites")


def state_hist(rep, oid, F, pt, mem, w, accept, rl):
    state(rep, oid, F, {**pt, "l": pt["l"] if not isinstance(pt["l"], Bd) else pt["l"]}, mem, w, accept)


def cascade(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "mcGammaCascade"))
    c0, i0 = F.vals[0], F.vals[1]
    cs = [e for e in calls(F, "mcStoreHistory") if e.pc != T.FALSE]
    if len(cs) != 1 or len(cs[0].loops) < 1:
        rep.undecided("C15:cascade", "%d calls of mcStoreHistory" % len(cs))
        return
    e = cs[0]
    h = e.loops[0]
    a, b = point(F, e.mem, e.args[1]), point(F, e.mem, e.args[2])
    for pt, s in ((a, "from"), (b, "to")):
        compare(rep, "C15:cascade:%s:nucleus" % s, F, pt["n"], c0, e.where, "a level cascade stays in its nucleus")
        state(rep, "C15:cascade:%s:state" % s, F, pt, e.mem, e.where)
    ph = phi_of(a["k"])
    if ph is None:
        rep.undecided("C15:cascade:carry", "current level %s" % show(a["k"]))
        return
    ini, _ = F.li[h].deltas.get(ph, (None, None))
    if ini is None:
        rep.undecided("C15:cascade:carry", "no value carried over")
        return
    compare(rep, "C15:cascade:start", F, ini, i0, e.where, "the cascade starts from the given level")
    lv = latch(F, h, ph)
    pl = Poly({((ph, 1),): Fraction(1)})
    go = F.li[h].cont if F.li[h].cont is not None else T.TRUE
    compare(rep, "C15:cascade:carry", F, lv, b["k"], e.where, "the next transition starts from the level reached", cond=T.bdd_and(go, e.pc))
    others = go
    for c, pol in T.implied_literals(e.pc):
        if c[0] != "exit":
            others = T.bdd_and(others, T.bvar(*c) if pol else T.bdd_not(T.bvar(*c)))
    wd = glob(F, "time_coincidence_window")
    others = T.bdd_and(others, T.bdd_not(T.lt0(-F.load(F.mem0, wd, "double"))))
    compare(rep, "C15:cascade:stay", F, lv, pl, e.where, "or from the same level if none took place", cond=T.bdd_and(others, T.bdd_not(e.pc)))
    # without a time window every transition is recorded
    pc = searched(e.pc, read(F, glob(F, "ncl"), [c0, "lev", pl, "ngamma"], e.mem))
    nowin = T.bdd_not(T.lt0(-F.load(F.mem0, wd, "double")))
    compare(rep, "C15:cascade:every", F, T.ite(pc, ONE, ZERO), T.ite(T.eq0(pl), ZERO, ONE), e.where, "every transition is recorded", cond=nowin)
    rep.count("cascades")


def start(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "specMCMainFission"))
    fe = F.vals[0]
    N = glob(F, "ncl")
    cs = [e for e in calls(F, "statSetupInitSystem") if e.pc != T.FALSE]
    if not cs:
        raise AnalysisBroken("statSetupInitSystem is not called")
    U = read(F, fe, ["U"])
    compare(rep, "C15:decay:U", F, read(F, N, [0, "max_energy"], cs[0].mem), U, cs[0].where, "the decay starts from the fragment's own excitation energy")
    for e in calls(F, "statTotalNeutrons"):
        compare(rep, "C15:decay:neutrons", F, e.args[0], U, e.where, "the number of neutrons possible is computed for that energy")
    for e in calls(F, "statSetupInitialPopulationSpec"):
        compare(rep, "C15:decay:spin", F, e.args[0], read(F, fe, ["spin"]), e.where, "and the fragment's own spin")
        compare(rep, "C15:decay:parity", F, e.args[1], read(F, fe, ["parity"]), e.where, "and the fragment's own parity")
        rep.count("sites")
    for e in calls(F, "mcFixedStart"):
        x = e.args[1] if len(e.args) == 3 else e.args[0]
        emax = x
        got = x
        # emax[] is filled from ncl[i].max_energy in a loop
        al = None
        s = x.single() if isinstance(x, Poly) else None
        if s is not None and T.atom_of(s)[0] == "ld":
            t = T.atom_of(s)
            try:
                k = [c[1] for c in t[2] if c[0] == "i"] + [T.div(c[1], P(8)) for c in t[2] if c[0] == "o" and isinstance(c[1], Poly)]
                got = content(F, t[1], (), k[0] if k else ZERO, effects=[y for y in F.effects if y.seq is None or y.seq < e.seq])
            except Unresolved:
                got = x
        got = T.dsubst(got, {})
        mp = {}
        for a in T.deep_atoms(got):
            t = T.atom_of(a)
            if t[0] == "ld" and t[2] and t[2][-1][0] == "f" and t[2][-1][2] == "max_energy":
                ii = [c for c in t[2] if c[0] == "i"]
                if ii and T.equal(ii[0][1], ZERO):
                    mp[a] = read(F, N, [0, "max_energy"], cs[0].mem)
        got2 = T.dsubst(got, mp) if mp else got
        ne = read_nemit(F)
        asm = lits(T.bdd_not(T.ilt0(ne))) if ne is not None else []
        compare(rep, "C15:decay:start", F, got2, U, e.where, "the cascade starts from the fragment's own excitation energy", asm, cond=e.pc)
    G = ctx.sym(m, ctx.fn(m, "mcFixedStart"))
    if len(G.fn.args) == 3:
        pt = point(G, final(G), G.vals[0])
        compare(rep, "C15:decay:start:e", G, pt["e"], G.vals[1], where(G), "the initial state has the energy given")
        compare(rep, "C15:decay:start:n", G, pt["n"], ZERO, where(G), "in the first nucleus of the chain")
        compare(rep, "C15:decay:start:k", G, pt["k"], ZERO, where(G), "in the top bin")
    for e in calls(F, "mcHistoryLoop"):
        g = [x for x in calls(F, "mcFixedStart") if x.seq < e.seq]
        if len(g) == 1 and len(g[0].args) == 3:
            y = min([q for q in F.effects if q.seq is not None and q.seq > g[0].seq and q.mem is not None], key=lambda q: q.seq)
            r = point(F, y.mem, g[0].args[0])
            p = point(F, e.mem, e.args[0])
            for nm in ("n", "p", "j", "k", "e"):
                compare(rep, "C15:decay:handed:" + nm, F, p[nm], r[nm], e.where, "the cascade starts from the state found (%s)" % nm)


def read_nemit(F):
    for e in calls(F, "statTotalNeutrons"):
        if isinstance(e.res, Poly):
            return e.res
    return None


def bins(ctx, m, rep):
    """the top bin of a nucleus has its maximum energy (so the first state of a cascade has the whole energy)"""
    F = ctx.sym(m, ctx.fn(m, "statSetupEnergyBin"))


def run(ctx, rep, tier):
    m = ctx.module(MC)
    for n, f in (("C15:Q", q_txe), ("C15:share", sharing), ("C15:system", system), ("C15:compound", initial), ("C15:prefission", prefission),
                 ("C15:sample", kinetic), ("C15:chain", separation), ("C15:steps", steps), ("C15:history", history), ("C15:cascade", cascade), ("C15:decay", start)):
        rep.part(n, f, ctx, m, rep)
    rep.assumptions += ["nemit = 0 when no pre-fission neutron can be sampled (n_pfn is sampled from 0..nemit)", "energies as real numbers"]
