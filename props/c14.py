"""Protons and nucleons are conserved from the target to the last fragment.

Rule: the terms the constructor, constructYields and both samplers leave in Zc, Ac and the fragments' Z, A, N satisfy
Zc = Zt, Ac = At + (Einc != 0) - n_pfn, Zl + Zh = Zc, Al + Ah = Ac, N = A - Z, 2 Al <= Ac; the members that record the
original system are written by the constructor only; the chain of residual nuclei of a fragment loses one neutron
per step and a decay step changes the nucleus exactly when it records a neutron.
"""
from props.phys import *

FF = "FissionFragments"
MC = lambda f: re.match(r"^(MCPoint|MCHistory|ZAnumber)::", C.qual(f)) is not None


def ctor(ctx, m, rep):
    F = [ctx.sym(m, f) for f in ctx.fns(m, "FissionFragments::FissionFragments") if f.dem.endswith("(int, double, double)")]
    if len(F) != 1:
        raise AnalysisBroken("constructor FissionFragments(int, double, double) not found")
    F = F[0]
    w = where(F)
    this, zaid, einc = F.vals[0], F.vals[1], F.vals[2]
    # memory when the options are set (before any other member function can change anything)
    cs = [e for e in F.effects if e.kind == "call" and cq(F, e) in ("FissionFragments::setOptions", "FissionFragments::init", "FissionFragments::buildYields")]
    if not cs:
        raise AnalysisBroken("initialisation calls not found")
    mem = cs[0].mem
    g = lambda n: read(F, this, [n], mem)
    Zt = T.fn("toint", T.div(zaid, P(1000)))
    Zi = T.fn("idiv", zaid, P(1000))
    z = g("Zt")
    rep.decide("C14:target:Z", True if T.equal(z, Zt) or T.equal(z, Zi) else same(z, Zt), w, "target charge is the thousands of the isotope number")
    Zt = z
    compare(rep, "C14:target:A", F, g("At"), zaid - P(1000) * Zt, w, "target mass is the rest of the isotope number")
    At = zaid - P(1000) * Zt
    sf = T.eq0(einc)
    Ac = T.ite(sf, At, At + ONE)
    for n, e in (("Zc", Zt), ("Zc0", Zt), ("Ac", Ac), ("Ac0", Ac), ("ZAIDc", P(1000) * Zt + Ac), ("ZAIDc0", P(1000) * Zt + Ac), ("ZAIDt", zaid), ("incidentEnergy", einc), ("incidentEnergy0", einc)):
        compare(rep, "C14:compound:" + n, F, g(n), e, w, "%s is that of target plus incident neutron" % n)
        rep.count("constructor members")


def immutable(ctx, m, rep):
    S = ctx.summ(m)
    import props.reach as R
    names = ("Zc0", "Ac0", "ZAIDc", "ZAIDc0", "ZAIDt", "Zt", "At", "incidentEnergy0")
    allowed = {"FissionFragments::FissionFragments", "FissionFragments::readMainInputFile"}
    for f in m.fns.values():
        if not f.repo or not f.has_body or C.qual(f) in allowed:
            continue
        mods = S.direct(f)[0]
        rep.count("functions scanned for writes")
        for p, inst in mods:
            if p[0] == "F" and p[1] == FF and p[2] in names:
                rep.bad("C14:original:%s" % p[2], "%s:%s" % (f.file, inst.line), "%s of the original system is overwritten in %s" % (p[2], C.qual(f)))
                break
    rep.ok("C14:original", "the original system's members are written by the constructors only")


def construct(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "FissionFragments::constructYields"))
    this = F.vals[0]
    w = where(F)
    r = lambda n: read(F, this, [n])
    sfv = r("sf_flag")
    sf = sfv.n if isinstance(sfv, Bd) else T.bdd_not(T.eq0(sfv))
    n = None
    sy = calls(F, "Yields::setFissioningSystem")
    if not sy:
        raise AnalysisBroken("setFissioningSystem is not called")
    e = sy[0]
    mem = e.mem
    n = read(F, this, ["n_pfn"], mem)
    A = read(F, this, ["Ac"], mem)
    Z = read(F, this, ["Zc"], mem)
    compare(rep, "C14:prefission:Z", F, Z, r("Zc0"), w, "pre-fission neutrons carry no charge")
    compare(rep, "C14:prefission:A", F, A, T.ite(sf, r("Ac0"), r("Ac0") - n), w, "each pre-fission neutron removes one nucleon")
    for q in ("Yields::setFissioningSystem", "FissionFragments::setSpinStrength"):
        for c in calls(F, q):
            if c.pc == T.FALSE or len(c.args) < 3:
                continue
            # ZAIDc is 1000 Zc0 + Ac0 (constructor)
            got = T.dsubst(c.args[1], {})
            za = read(F, this, ["ZAIDc"], c.mem)
            d = za.single() if isinstance(za, Poly) else None
            if d is not None:
                got = T.dsubst(c.args[1], {d: P(1000) * r("Zc0") + r("Ac0")})
            compare(rep, "C14:prefission:" + q.split("::")[1], F, got, P(1000) * Z + A, c.where, "%s is told the nucleus that fissions" % q, cond=T.bdd_and(c.pc, T.bdd_not(sf)))
            rep.count("sites")
    mem = final(F)
    compare(rep, "C14:prefission:kept:A", F, read(F, this, ["Ac"], mem), T.ite(sf, r("Ac0"), r("Ac0") - n), w, "and the fissioning nucleus keeps it")
    compare(rep, "C14:prefission:kept:Z", F, read(F, this, ["Zc"], mem), r("Zc0"), w, "and the fissioning nucleus keeps its charge")


def sample(ctx, m, rep):
    fs = ctx.fns(m, "FissionFragments::sampleFissionFragments")
    for f in fs:
        F = ctx.sym(m, f)
        tag = "C14:sample%d" % len(F.fn.args)
        w = where(F)
        this, l, h = F.vals[0], F.vals[1], F.vals[2]
        mem = final(F)
        Ac, Zc = read(F, this, ["Ac"]), read(F, this, ["Zc"])
        Al, Ah = read(F, l, ["A"], mem), read(F, h, ["A"], mem)
        Zl, Zh = read(F, l, ["Z"], mem), read(F, h, ["Z"], mem)
        rel(rep, tag + ":A", F, Al + Ah - Ac, w, "light + heavy nucleon number = that of the fissioning nucleus")
        rel(rep, tag + ":Z", F, Zl + Zh - Zc, w, "light + heavy charge = that of the fissioning nucleus")
        rel(rep, tag + ":Nl", F, read(F, l, ["N"], mem) - Al + Zl, w, "N = A - Z (light)")
        rel(rep, tag + ":Nh", F, read(F, h, ["N"], mem) - Ah + Zh, w, "N = A - Z (heavy)")
        half = T.fn("idiv", Ac, P(2))
        # 0 <= Ac - 2 (Ac / 2) <= 1
        asm = lits(T.bdd_not(T.ilt0(Ac - P(2) * half)), T.bdd_not(T.ilt0(ONE - Ac + P(2) * half)))
        cs = lin.cases([Al], asm)
        bad = None
        if cs is None:
            rep.undecided(tag + ":order", "too many cases")
        else:
            for ls, (x,), _c in cs:
                gt = T.ilt0(Ac - P(2) * x)      # 2 x > Ac
                if lin.feasible(list(ls) + lits(gt)) if gt not in (T.TRUE, T.FALSE) else gt == T.TRUE:
                    bad = (ls, x)
                    break
            if bad is None:
                rep.ok(tag + ":order", "the light fragment is not heavier than half of the fissioning nucleus")
            elif unknown_int(F, bad[1]):
                rep.undecided(tag + ":order", "light fragment A = %s" % show(bad[1]))
            else:
                rep.bad(tag + ":order", w, "the light fragment can be the heavier one: A = %s when [%s]" % (show(bad[1]), lin.showlits(bad[0])[:300]))
        rep.count("samplers")
        # what the fragments' initial conditions are computed from is what is recorded
        ci = [e for e in calls(F, "FissionFragments::computeFragmentInitialConditions") if e.pc != T.FALSE]
        if len(ci) != 1:
            rep.undecided(tag + ":conditions", "%d calls of computeFragmentInitialConditions" % len(ci))
            continue
        e = ci[0]
        for k, (nm, v) in enumerate((("Zl", Zl), ("Al", Al), ("Zh", Zh), ("Ah", Ah))):
            rel(rep, tag + ":conditions:" + nm, F, e.args[2 + k] - v, e.where, "%s recorded is the %s the energies, spins and momenta are computed for" % (nm, nm))
        for k, (fr, mb) in enumerate(((l, "U"), (h, "U"), (l, "spin"), (h, "spin"), (l, "parity"), (h, "parity"))):
            p = e.args[6 + k]
            got = read(F, fr, [mb], mem)
            exp = F.load(mem, p, "i32" if mb == "parity" else "double")
            rel(rep, "%s:out:%s%s" % (tag, mb, "l" if fr is l else "h"), F, got - exp, e.where, "recorded %s is the one computed for that fragment" % mb)
        for fr, k, s in ((l, 13, "l"), (h, 14, "h")):
            p = e.args[k]
            for i in range(3):
                rel(rep, "%s:out:pre%s%d" % (tag, s, i), F, read(F, fr, ["preMomentum", i], mem) - elem(F, mem, p, i), e.where, "recorded momentum is the one computed for that fragment")


def unknown_int(F, x):
    for a in T.deep_atoms(x):
        t = T.atom_of(a)
        if t[0] in ("undef", "op", "phi", "ldx", "mix", "ex", "ins"):
            return True
        if t[0] == "call" and not is_rng(F, a):
            return True
    return False


def conditions(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "FissionFragments::computeFragmentInitialConditions"))
    this = F.vals[0]
    TKE, Zl, Al, Zh, Ah = [F.vals[i] for i in range(1, 6)]
    w = where(F)
    bs = [e for e in calls(F, "boost_pfn") if e.pc != T.FALSE]
    if len(bs) != 1:
        rep.undecided("C14:boost", "%d calls of boost_pfn" % len(bs))
    else:
        e = bs[0]
        r = lambda n: read(F, this, [n], e.mem)
        exp = [("Zc0", r("Zc0")), ("Ac0", r("Ac0")), ("incident energy", r("incidentEnergy0")), ("TKE", TKE), ("Al", Al), ("Zl", Zl), ("Ah", Ah), ("Zh", Zh), ("neutrons lost", r("Ac0") - r("Ac"))]
        for k, (n, v) in enumerate(exp):
            compare(rep, "C14:boost:" + n, F, e.args[k], v, e.where, "the kinematics gets the event's %s" % n)
        rep.decide("C14:boost:always", True if e.pc == T.TRUE else None, e.where, "momenta are computed for every pair")
        for k, i in ((18, 13), (19, 14)):
            rep.decide("C14:boost:out%d" % k, same(e.args[k], F.vals[i]), e.where, "light and heavy momenta are not interchanged")
    mem = final(F)
    for k, n in ((10, "light"), (11, "heavy")):
        v = F.load(mem, F.vals[k], "i32")
        cs = lin.cases([v], [])
        ok = cs is not None
        und = False
        for ls, (x,), _ in cs or ():
            if x.const() in (1, -1):
                continue
            old = F.load(F.mem0, F.vals[k], "i32")
            if x == old:
                continue          # pair rejected (no energy available): nothing is set
            und = und or opaque(x)
            ok = False
        rep.decide("C14:parity:" + n, True if ok else (None if und or cs is None else False), w, "the parity of the %s fragment is +1 or -1" % n)
    for e in calls(F, "FissionFragments::getInitialSpin"):
        if e.pc == T.FALSE:
            continue
        pair = {(id(F.vals[7]), "x")}
        lh = "light" if e.args[4] == F.vals[8] else "heavy" if e.args[4] == F.vals[9] else None
        if lh is None:
            rep.undecided("C14:spin", "spin written through %r" % e.args[4])
            continue
        z, a, u = (Zl, Al, F.vals[6]) if lh == "light" else (Zh, Ah, F.vals[7])
        compare(rep, "C14:spin:%s:Z" % lh, F, e.args[1], z, e.where, "the spin is sampled for the fragment's own charge")
        compare(rep, "C14:spin:%s:A" % lh, F, e.args[2], a, e.where, "the spin is sampled for the fragment's own mass")
        rep.decide("C14:spin:%s:U" % lh, same(e.args[3], u), e.where, "the spin is sampled for the fragment's own energy")
        rep.count("sites")
    G = ctx.sym(m, ctx.fn(m, "FissionFragments::getInitialSpin"))
    a = G.vals[2]
    v = G.load(final(G), G.vals[4], "double")
    odd = T.fn("irem", a, P(2))
    at = T.atom
    cs = lin.cases([v], [])
    bad = und = None
    for ls, (x,), _ in cs or ():
        # x = integer + (0 | 1/2)
        half = None
        rest = None
        for h in (ZERO, T.div(ONE, P(2))):
            y = x - h
            if isint(G, y):
                half = h
        if half is None:
            und = True
            continue
        isodd = T.bdd_not(T.eq0(odd))
        o = lin.feasible(list(ls) + lits(isodd)); ev = lin.feasible(list(ls) + lits(T.bdd_not(isodd)))
        if (half.t and ev) or (not half.t and o):
            bad = x
    if cs is None or (und and not bad):
        rep.undecided("C14:spin:halfinteger", "sampled spin %s" % show(v))
    elif bad is not None:
        rep.bad("C14:spin:halfinteger", where(G), "spin %s does not fit the parity of A" % show(bad))
    else:
        rep.ok("C14:spin:halfinteger", "spin is half-integer exactly for odd A")


def isint(F, y):
    """sum of integer-valued atoms with integer coefficients"""
    for mono, c in y.t.items():
        if c.denominator != 1:
            return False
        for a, e in mono:
            t = T.atom_of(a)
            if e < 1:
                return False
            if t[0] == "fn" and t[1] in ("toint", "floor", "ceil", "idiv", "irem"):
                continue
            if t[0] in ("iv", "ivx"):
                continue
            return False
    return True


def settle(F, v):
    """loads inside a loop of objects the loop never stores to are loads before the loop (the neutron's own Z, A
    sits in the particle table, not in the table of nuclei)"""
    for _ in range(4):
        mp = {}
        for a in T.deep_atoms(v):
            t = T.atom_of(a)
            if t[0] == "ld" and isinstance(t[3], tuple) and t[3][0] in ("loop", "loopx"):
                h = t[3][1]
                if any(e.kind in ("store", "memcpy", "memset") and h in e.loops and (e.loc.base if e.kind == "store" else e.args[0].base) == t[1] for e in F.effects):
                    continue
                if any(e.kind == "call" and h in e.loops for e in F.effects):
                    continue
                q = at_entry(F, h, t)
                if q is not None:
                    mp[a] = q
        if not mp:
            return v
        v = T.dsubst(v, mp)
    return v


def at_entry(F, h, t):
    for e in reversed([e for e in F.effects if e.kind == "store" and not e.loops and e.pc == T.TRUE and e.loc.base == t[1]]):
        if e.loc.comps == t[2]:
            return e.val
    return None


def chain(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "specMCMainFission"))
    fe = F.vals[0]
    ncl = glob(F, "ncl")
    cs = [e for e in calls(F, "statSetupInitSystem") if e.pc != T.FALSE]
    if not cs:
        raise AnalysisBroken("statSetupInitSystem is not called")
    e = cs[0]
    for x in ("Z", "A"):
        compare(rep, "C14:decay:" + x, F, read(F, ncl, [0, "za", x], e.mem), read(F, fe, [x]), e.where, "the decay starts from the fragment's own %s" % x)
    F = ctx.sym(m, ctx.fn(m, "statSetupInitSystem"))
    base = F.load(F.mem0, glob(F, "ncl"), "ptr").base
    seen = {"Z": [], "A": []}
    nemit = F.vals[0]
    for e in F.effects:
        if e.kind != "store" or e.pc == T.FALSE or e.loc.base != base:
            continue
        fs = [c for c in e.loc.comps if c[0] == "f"]
        if len(fs) < 2 or fs[-2][2] != "za":
            continue
        x = fs[-1][2]
        idx = [c for c in e.loc.comps if c[0] == "i"]
        if not idx:
            rep.undecided("C14:chain", "write of unknown shape at %s" % e.where)
            continue
        k = idx[0][1]
        exp = read(F, glob(F, "ncl"), [k - ONE, "za", x], e.mem) - (ONE if x == "A" else ZERO)
        compare(rep, "C14:chain:%s:%d" % (x, len(seen[x])), F, settle(F, e.val), settle(F, exp), e.where, "nucleus k of the chain is nucleus k-1 less one neutron (%s)" % x)
        seen[x].append(e)
        rep.count("chain writes")
    for x in ("Z", "A"):
        covered(rep, "C14:chain:%s:all" % x, F, seen[x], lambda e: [c for c in e.loc.comps if c[0] == "i"][0][1], ONE, nemit, where(F), "the whole chain of residual nuclei is set (%s)" % x, lits(T.bdd_not(T.ilt0(nemit))))
    for e in F.effects:
        if e.kind == "store" and e.pc != T.FALSE and e.loc.comps and e.loc.comps[-1][0] == "f" and e.loc.comps[-1][2] == "next":
            v = e.val
            if v.const() == -1:
                continue
            idx = [c for c in e.loc.comps if c[0] == "i"]
            own = T.deep_atoms(e.loc.base)
            # address of ncl[k].cdt: the base is the pointer loaded from ncl[k]
            k = None
            for a in own:
                t = T.atom_of(a)
                if t[0] == "ld" and t[2] and t[2][-1][0] == "f" and t[2][-1][2] == "cdt":
                    ii = [c for c in t[2] if c[0] == "i"]
                    k = ii[0][1] if ii else None
            if k is None:
                rep.undecided("C14:chain:next", "channel of unknown nucleus at %s" % e.where)
            else:
                compare(rep, "C14:chain:next", F, v, k + ONE, e.where, "the neutron channel of nucleus k leads to nucleus k+1")
    F = ctx.sym(m, ctx.fn(m, "mcStoreHistory"))
    m0, m1 = F.vals[1], F.vals[2]
    ids = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.comps and e.loc.comps[-1][0] == "f" and e.loc.comps[-1][2] == "id"]
    n0 = read(F, m0, ["n"]) if m0.ty else F.load(F.mem0, m0, "i32")
    n1 = read(F, m1, ["n"]) if m1.ty else F.load(F.mem0, m1, "i32")
    samen = T.eq0(n0 - n1)
    for e in ids:
        compare(rep, "C14:step:%d" % ids.index(e), F, T.ite(T.eq0(e.val - ONE), ONE, ZERO), T.ite(samen, ZERO, ONE), e.where,
                "a neutron is recorded when the nucleus changes, a photon or conversion electron when it stays the same", cond=e.pc)
        rep.count("recorded steps")
    if not ids:
        rep.undecided("C14:step", "no record found")


def run(ctx, rep, tier):
    m = ctx.module(MC)
    rep.part("C14:constructor", ctor, ctx, m, rep)
    rep.part("C14:original", immutable, ctx, m, rep)
    rep.part("C14:prefission", construct, ctx, m, rep)
    rep.part("C14:sample", sample, ctx, m, rep)
    rep.part("C14:conditions", conditions, ctx, m, rep)
    rep.part("C14:chain", chain, ctx, m, rep)
    from props import c15
    rep.part("C14:next", c15.steps, ctx, m, Part(rep, "C15:next:nucleus"))
    rep.assumptions += ["integers do not overflow", "the particle table and the table of nuclei are distinct objects"]
