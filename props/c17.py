"""Every emitted particle is recorded once, with its own energy and a direction of unit length.

Rule: the recording routine partitions the decay history by particle kind (filter loops: counter and element stores guarded
by the same kind; the history is empty when a decay starts and ends with exactly one entry for the final state), hands exactly these lists to the boost and copies what the boost returned, element by element; the
boost draws isotropic directions and Doppler-shifts photons with the speed of the nucleus that is left.
"""
from props.phys import *
from props.c14 import MC


def ivp(info):
    return Poly({((info.iv, 1),): Fraction(1)})


def after(F, e):
    ys = [y for y in F.effects if y.seq is not None and y.mem is not None and y.seq > e.seq]
    return min(ys, key=lambda y: y.seq).mem if ys else final(F)


def kind(F, mem, i):
    return read(F, glob(F, "hs"), [i, "id"], mem)


def record(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "recordEmittedParticlesFission"))
    fe = F.vals[0]
    w = where(F)
    bs = [e for e in calls(F, "boost") if e.pc != T.FALSE]
    if len(bs) != 1:
        rep.undecided("C17:record", "%d calls of boost" % len(bs))
        return
    b = bs[0]
    mem1 = after(F, b)
    np_ = F.load(F.mem0, glob(F, "np"), "i32")
    # whose neutrons
    n0 = F.load(F.mem0, Ptr(glob(F, "hs").base, P(member(F.types, "MCHistory", "mp")[0]), None), "i32")
    for i, q in ((1, "Z"), (2, "A")):
        alts = [read(F, glob(F, "ncl"), [n0, "za", q]), read(F, glob(F, "ncl"), [0, "za", q]), read(F, fe, [q])]
        v = b.args[i]
        if any(T.equal(v, x) for x in alts if isinstance(x, Poly)):
            rep.ok("C17:emitter:" + q, "particles are emitted by the fragment itself (%s)" % q)
        else:
            rep.decide("C17:emitter:" + q, None if opaque_rel(v, alts[0]) else False, b.where, "particles are emitted by the fragment itself (%s), not %s" % (q, show(v)))
    lists = {}
    for nm, k, cnt, arr in (("neutron", 1, 3, 4), ("photon", 0, 8, 9)):
        lists[nm] = partition(rep, F, b, nm, k, b.args[cnt], b.args[arr], np_)
    times(rep, F, fe, b, lists.get("photon"), np_)
    mem = final(F)
    compare(rep, "C17:count:neutron", F, read(F, fe, ["nu"], mem), b.args[3], w, "the neutron multiplicity recorded is the number of neutrons boosted")
    compare(rep, "C17:count:photon", F, read(F, fe, ["nug"], mem), b.args[8], w, "the photon multiplicity recorded is the number of photons boosted")
    k = T.var("elem", "C17")
    E = lambda i: F.load(mem1, Ptr(b.args[i].base, b.args[i].off + P(8) * k, b.args[i].ty), "double")
    V = lambda i, c: F.load(mem1, Ptr(b.args[i].base, b.args[i].off + P(24) * k + P(8 * c), b.args[i].ty), "double")
    for nm, cnt, e_cm, e_lab, v_cm, v_lab in (("neutron", 3, 4, 5, 6, 7), ("photon", 8, 9, 10, 11, 12)):
        N = b.args[cnt]
        asm = lits(T.bdd_not(T.ilt0(k)), T.ilt0(k - N))
        cap = nm.capitalize()
        for fld, ex in ((nm + "Energies", E(e_lab)), ("cm" + cap + "Energies", E(e_cm))):
            element(rep, F, fe, fld, k, ex, asm, b)
        for pre, vi in ((nm, v_lab), ("cm" + cap, v_cm)):
            v = [V(vi, c) for c in range(3)]
            s = T.fn("sqrt", v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
            for c, u in enumerate("uvw"):
                element(rep, F, fe, "%sDircos%s" % (pre, u), k, T.div(v[c], s), asm, b)
    # the boost leaves the energies it is given
    G = ctx.sym(m, ctx.fn(m, "boost"))
    for i, nm in ((4, "neutron"), (9, "photon")):
        st = [e for e in G.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base == G.vals[i].base]
        for e in st[:1]:
            rep.bad("C17:boost:cm:" + nm, e.where, "the boost overwrites the %s's energy in the fragment's frame" % nm)
        if not st:
            rep.ok("C17:boost:cm:" + nm, "the boost leaves the energies in the fragment's frame")
    kepost(rep, F, fe, b, mem)
    rep.count("records")


def element(rep, F, fe, fld, k, exp, asm, b):
    oid = "C17:list:" + fld
    off, ty = member(F.types, "fissionEventType", fld)
    st = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base == fe.base and any(c[0] == "f" and c[2] == fld for c in e.loc.comps)]
    if not st:
        rep.bad(oid, where(F), "%s is never recorded" % fld)
        return
    pre = st[0].loc.comps[:-1]
    try:
        got = content(F, fe.base, pre, k)
    except Unresolved as x:
        rep.undecided(oid, str(x))
        return
    rep.count("lists")
    exp = T.distribute(exp)
    got = T.distribute(got)
    # memory after the boost is only changed by the copies themselves
    compare(rep, oid, F, latest(F, got, b), latest(F, exp, b), st[0].where, "element i of %s is what the boost returned for particle i" % fld, asm, cond=b.pc)


def latest(F, v, b):
    """loads from the arrays handed to the boost, whatever later version of the memory they use (nothing else writes them)"""
    arrs = {x.base for x in b.args if isinstance(x, Ptr)}
    wr = {e.loc.base for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.seq is not None and e.seq > b.seq}
    for _ in range(4):
        mp = {}
        for a in T.deep_atoms(v):
            t = T.atom_of(a)
            if t[0] == "ld" and t[1] in arrs and t[1] not in wr and t[3] != "boosted":
                mp[a] = Poly({((T.atom("ld", t[1], t[2], "boosted"), 1),): Fraction(1)})
        if not mp:
            break
        v = T.dsubst(v, mp)
    return v


def partition(rep, F, b, nm, k, count, arr, np_):
    """the list handed to the boost is the sub-list of kind k of the history, in order"""
    oid = "C17:select:" + nm
    st = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base == arr.base and len(e.loops) == 1 and (e.seq is None or e.seq < b.seq)]
    st = [e for e in st if any(T.atom_of(a)[0] == "phi" for a in T.deep_atoms(e.loc.comps[-1][1] if e.loc.comps and isinstance(e.loc.comps[-1][1], Poly) else ZERO))]
    if len(st) != 1:
        rep.undecided(oid, "%d writes of the list of %ss" % (len(st), nm))
        return None
    e = st[0]
    h = e.loops[0]
    info = F.li[h]
    i = ivp(info)
    idx = e.loc.comps[-1][1]
    if e.loc.comps[-1][0] == "o":
        idx = T.div(idx, P(8))
    s = idx.single()
    if s is None or s not in info.deltas:
        rep.undecided(oid, "index %s" % show(idx))
        return None
    ini, dl = info.deltas[s]
    kd = kind(F, F.mem0, i)
    is_k = T.eq0(kd - P(k))
    rng = lits(T.bdd_not(T.ilt0(i)))
    compare(rep, oid + ":range", F, info.trip if info.trip is not None else T.var("trip", h), np_ - ONE, e.where, "all entries of the history but the final state are looked at", lits(T.bdd_not(T.ilt0(np_ - ONE))))
    # iteration visits entry iv?  the term of the energy tells
    compare(rep, oid + ":energy", F, e.val, read(F, glob(F, "hs"), [i, "ep"]), e.where, "the energy of a %s is that of its own step" % nm, rng, cond=e.pc)
    body = T.bdd_and(F.iterpc[h], T.bdd_not(T.ilt0(i)))
    inr = T.ilt0(i - np_ + ONE)
    compare(rep, oid + ":kind", F, T.ite(e.pc, ONE, ZERO), T.ite(is_k, ONE, ZERO), e.where, "exactly the steps that emitted a %s are listed" % nm, rng, cond=inr)
    compare(rep, oid + ":first", F, ini, ZERO, e.where, "the list of %ss starts at 0" % nm)
    compare(rep, oid + ":next", F, dl, T.ite(is_k, ONE, ZERO), e.where, "and grows by one with every %s" % nm, rng, cond=inr)
    ex = info.exitmap.get(s)
    if isinstance(ex, Poly):
        compare(rep, oid + ":count", F, count, ex, b.where, "as many %ss are boosted as were listed" % nm)
    rep.count("kinds")
    return (e, h, s)


def times(rep, F, fe, b, ph, np_):
    oid = "C17:age"
    if ph is None:
        return
    e0, h, s = ph
    off, ty = member(F.types, "fissionEventType", "photonAges")
    st = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base == fe.base and any(c[0] == "f" and c[2] == "photonAges" for c in e.loc.comps)]
    if len(st) != 1:
        rep.undecided(oid, "%d writes of photonAges" % len(st)) if st else rep.bad(oid, where(F), "photon ages are never recorded")
        return
    e = st[0]
    k = T.var("elem", "C17")
    try:
        got = content(F, fe.base, e.loc.comps[:-1], k)
    except Unresolved as x:
        rep.undecided(oid, str(x))
        return
    # must be element k of one local list
    src = None
    for a in T.deep_atoms(got):
        t = T.atom_of(a)
        if t[0] == "ld" and t[1][0] == "al":
            src = t
    if src is None:
        rep.undecided(oid, "photon age is %s" % show(got))
        return
    ix = src[2][-1][1]
    if src[2][-1][0] == "o":
        ix = T.div(P(ix), P(8))
    N = b.args[8]
    compare(rep, oid + ":element", F, T.dsubst(got, {}), Poly({((T.atom(*src), 1),): Fraction(1)}), e.where, "photon i gets the i-th time", lits(T.bdd_not(T.ilt0(k)), T.ilt0(k - N)), cond=e.pc if not e.loops else b.pc)
    compare(rep, oid + ":index", F, ix, k, e.where, "photon i gets the i-th time")
    ws = [x for x in F.effects if x.kind == "store" and x.pc != T.FALSE and x.loc.base == src[1]]
    fill = [x for x in ws if isinstance(x.val, Poly) and not x.val.t]
    put = [x for x in ws if x not in fill]
    if len(put) != 1 or put[0].loops != [h] and list(put[0].loops) != [h]:
        rep.undecided(oid, "%d writes of photon times" % len(put))
        return
    x = put[0]
    i = ivp(F.li[h])
    xi = x.loc.comps[-1][1]
    if x.loc.comps[-1][0] == "o":
        xi = T.div(xi, P(8))
    compare(rep, oid + ":slot", F, xi, Poly({((s, 1),): Fraction(1)}), x.where, "the time of a photon is stored in its own place")
    try:
        exp = read(F, glob(F, "gammaTimeStamp"), [i])
        compare(rep, oid + ":time", F, x.val, exp, x.where, "the time of a photon is that of its own transition", lits(T.bdd_not(T.ilt0(i))), cond=x.pc)
    except AnalysisBroken:
        rep.undecided(oid + ":time", "gammaTimeStamp not found")
    # for every photon between discrete levels (earlier ones are prompt: 0)
    disc = F.load(F.mem0, Ptr(glob(F, "hs").base, i * P(F.types.size("MCHistory")) + P(member(F.types, "MCHistory", "mp")[0] + member(F.types, "MCPoint", "l")[0]), None), "i8")
    db = disc.n if isinstance(disc, Bd) else T.bdd_not(T.eq0(disc))
    inr = T.bdd_and(T.ilt0(i - np_ + ONE), T.eq0(kind(F, F.mem0, i)))
    compare(rep, oid + ":discrete", F, T.ite(x.pc, ONE, ZERO), T.ite(db, ONE, ZERO), x.where, "exactly the photons emitted by a discrete level have a time", lits(T.bdd_not(T.ilt0(i))), cond=inr)
    rep.count("ages")


def kepost(rep, F, fe, b, mem):
    got = masses(F, read(F, fe, ["KEpost"], mem))
    zero = {a: ZERO for a in T.deep_atoms(got) if T.atom_of(a)[0] == "ld" and T.atom_of(a)[1] == fe.base and T.atom_of(a)[2][-1][-1] == "KEpost" and T.atom_of(a)[3] == 0}
    got = T.dsubst(got, zero) if zero else got
    p = [read(F, fe, ["postFragmentMomentum", i], mem) for i in range(3)]
    p2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2]
    Z, A = b.args[1], b.args[2]
    good = masses(F, T.div(p2, P(2) * mass(Z, A - b.args[3])))
    pre = masses(F, T.div(p2, P(2) * mass(Z, A)))
    isz = lambda d: all((c and c[0] == T.FALSE) or not norm(x).t for l, (x,), c in (lin.cases([d], [], conds=[b.pc]) or [((), (T.var("x"),), ())]))
    where_ = where(F)
    if isz(got - pre):
        rep.bad("C17:KEpost:mass", where_, "the kinetic energy after emission is computed with the mass of the fragment before emission: p^2 / (2 M(Z,A)) instead of M(Z,A-nu)")
    else:
        rel(rep, "C17:KEpost", F, got - good, where_, "kinetic energy after emission = p^2 / (2 M) of the residual nucleus", cond=b.pc)
    rep.count("kinetic energies")


def fresh(ctx, m, rep):
    """the kinetic energy is accumulated: it starts from 0 in every new event"""
    fs = ctx.fns(m, "fissionEventType::fissionEventType")
    if not fs:
        rep.undecided("C17:KEpost:start", "no constructor of fissionEventType")
        return
    for f in fs:
        if len(f.args) != 1:
            continue
        F = ctx.sym(m, f)
        compare(rep, "C17:KEpost:start", F, read(F, F.vals[0], ["KEpost"], final(F)), ZERO, where(F), "the kinetic energy accumulated starts from 0")


def direction(rep, oid, F, comps, N, w, what):
    """comps / N is isotropic: one component 2u - 1, the azimuth 2 pi v, u and v different draws"""
    draws = lambda v: [a for a in T.deep_atoms(v) if is_rng(F, a)]
    u = None
    bad = und = None
    pol = None
    for c, v in enumerate(comps):
        d = norm(v)
        ds = draws(d)
        if len(ds) != 1:
            continue
        a = ds[0]
        A, B = ZERO, ZERO
        for mo, co in d.t.items():
            if (a, 1) in mo:
                A = A + Poly({tuple(x for x in mo if x != (a, 1)): co})
            else:
                B = B + Poly({mo: co})
        if a in T.deep_atoms(A) or a in T.deep_atoms(B) or not A.t:
            continue
        pol, u = c, a
        fac = B
        if norm(A + P(2) * B).t or norm(B * B - N * N).t:
            bad = "the polar component is (%s)*u + (%s): not uniform in [-1,1]" % (show(A), show(B))
    if pol is None:
        why = moments(F, comps, N)
        if why:
            rep.bad(oid, w, "%s is not isotropic: %s" % (what, why))
            return
        rep.undecided(oid, "%s: no component is linear in a random number" % what)
        return
    rep.count("directions")
    rest = [c for c in range(3) if c != pol]
    N = fac
    az = {}
    for c in rest:
        d = norm(comps[c])
        tr = [a for a in d.atoms() if T.atom_of(a)[0] == "fn" and T.atom_of(a)[1] in ("sin", "cos")]
        if len(tr) != 1:
            und = "component %d is %s" % (c, show(d))
            continue
        t = T.atom_of(tr[0])
        x = t[2][0]
        ds = x.atoms()
        if len(ds) != 1 or not is_rng(F, list(ds)[0]):
            und = "azimuth %s" % show(x)
            continue
        a = list(ds)[0]
        al = x.t.get(((a, 1),), 0)
        if abs(abs(float(al)) - PI2) > 1e-6:
            bad = bad or "the azimuth is %s times a random number: not uniform over the circle" % float(al)
        if a == u:
            bad = bad or "polar angle and azimuth use the same random number"
        az[c] = (t[1], a, al)
    if not bad and len(az) == 2:
        (f1, a1, l1), (f2, a2, l2) = az.values()
        if a1 != a2 or l1 != l2:
            bad = "the two transverse components use different azimuths"
        elif f1 == f2:
            bad = "both transverse components are %s of the azimuth" % f1
        else:
            U = Poly({((u, 1),): Fraction(1)})
            s = T.fn("sqrt", norm(ONE - (P(2) * U - ONE) * (P(2) * U - ONE)))
            for c, (f, a, l) in az.items():
                g = T.fn(f, Poly({((a, 1),): Fraction(l)}))
                x, y = norm(comps[c] - N * s * g), norm(comps[c] + N * s * g)
                if x.t and y.t:
                    q = norm(comps[c] * comps[c] - N * N * s * s * g * g)
                    if q.t:
                        bad = bad or "component %d is %s" % (c, show(norm(comps[c])))
                    else:
                        und = und or "sign of component %d" % c
    if bad:
        rep.bad(oid, w, "%s is not isotropic: %s" % (what, bad))
    elif und:
        why = moments(F, comps, N)
        if why:
            rep.bad(oid, w, "%s is not isotropic: %s" % (what, why))
        else:
            rep.undecided(oid, "%s: %s" % (what, und))
    else:
        rep.ok(oid, "%s is isotropic" % what)


def isotropy(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "neutron_emission_boost"))
    w = where(F)
    mem = final(F)
    E, pe, cv = F.vals[3], F.vals[6], F.vals[5]
    cs = [elem(F, mem, cv, i) for i in range(3)]
    pen = pe.n if isinstance(pe, Bd) else T.bdd_not(T.eq0(pe))
    r = lin.cases(cs, [], conds=[T.bdd_not(pen)])
    if r is None:
        rep.undecided("C17:isotropic:neutron", "too many cases")
    for l, vs, c in r or ():
        if c and c[0] == T.FALSE:
            continue
        direction(rep, "C17:isotropic:neutron", F, vs, T.fn("sqrt", T.div(E * P(2), MN)), w, "the direction of an evaporated neutron in its fragment's frame")
    # photons
    F = ctx.sym(m, ctx.fn(m, "boost"))
    cmE, labE, cmV, labV = F.vals[9], F.vals[10], F.vals[11], F.vals[12]
    N, ng = F.vals[3], F.vals[8]

    def stores(p):
        return [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base == p.base]
    sv = {}
    for nm, p, es in (("cmV", cmV, 24), ("labV", labV, 24), ("labE", labE, 8)):
        for e in stores(p):
            sv.setdefault(nm, []).append(e)
    k = T.var("elem", "C17p")
    asm = lits(T.bdd_not(T.ilt0(k)), T.ilt0(k - ng))
    val = {}
    for nm, es in (("cmV", 3), ("labV", 3), ("labE", 1)):
        for e in sv.get(nm, []):
            ii = [c[1] for c in e.loc.comps if c[0] == "i"]
            comp = 0
            if es == 3:
                if len(ii) != 2 or ii[1].const() is None:
                    rep.undecided("C17:photon:" + nm, "write at %s" % e.where)
                    return
                comp = int(ii[1].const())
            elif len(ii) != 1:
                rep.undecided("C17:photon:" + nm, "write at %s" % e.where)
                return
            try:
                cond, v = _inv(F, e, ii[0], k)
            except Unresolved as x:
                rep.undecided("C17:photon:" + nm, str(x))
                return
            compare(rep, "C17:photon:%s:%d:all" % (nm, comp), F, T.ite(cond, ONE, ZERO), ONE, e.where, "every photon gets its own value", asm)
            val[(nm, comp)] = (v, e)
    need = [("cmV", c) for c in range(3)] + [("labV", c) for c in range(3)] + [("labE", 0)]
    if any(x not in val for x in need):
        rep.undecided("C17:photon", "not all components are set in boost")
        return
    Eg = F.load(F.mem0, Ptr(cmE.base, cmE.off + P(8) * k, cmE.ty), "double")
    cm = [val[("cmV", c)][0] for c in range(3)]
    lab = [val[("labV", c)][0] for c in range(3)]
    El, ee = val[("labE", 0)]
    mp = {}
    for v in cm + lab + [El]:
        for a in T.deep_atoms(v):
            t = T.atom_of(a)
            if t[0] == "ld" and t[1] == cmE.base and t[3] != 0:
                mp[a] = F.load(F.mem0, Ptr(cmE.base, cmE.off + P(8) * [c for c in t[2] if c[0] == "i"][0][1], cmE.ty), "double")
    sub = lambda v: T.dsubst(v, mp) if mp else v
    cm, lab, El = [sub(v) for v in cm], [sub(v) for v in lab], sub(El)
    we = ee.where
    direction(rep, "C17:isotropic:photon", F, cm, Eg, we, "the direction of a photon in its fragment's frame")
    rel(rep, "C17:photon:speed", F, cm[0] * cm[0] + cm[1] * cm[1] + cm[2] * cm[2] - Eg * Eg, we, "the photon's momentum in the fragment's frame is its energy")
    for c in range(3):
        rel(rep, "C17:photon:lab%d" % c, F, lab[c] * Eg - cm[c] * El, we, "the photon keeps its direction, with the momentum of its lab energy")
    # Doppler shift with the speed of the residual nucleus
    p = [elem(F, ee.mem, F.vals[0], i) for i in range(3)]
    p2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2]
    M = masses(F, mass(F.vals[1], F.vals[2] - N))
    beta2 = T.div(p2, M * M)
    beta = T.div(T.fn("sqrt", p2), M)
    pol = None
    for c in range(3):
        d = norm(cm[c])
        ds = [a for a in T.deep_atoms(d) if is_rng(F, a)]
        if len(ds) == 1 and not any(T.atom_of(a)[0] == "fn" for a in d.atoms()):
            pol = T.div(d, Eg)
    if pol is None:
        rep.undecided("C17:photon:doppler", "no polar component")
    else:
        r = masses(F, El * El * (ONE - beta * pol) * (ONE - beta * pol) - Eg * Eg * (ONE - beta2))
        rel(rep, "C17:photon:doppler", F, r, we, "lab energy = energy * sqrt(1 - b^2) / (1 - b cos), b the speed of the nucleus left after the last neutron", lits(T.bdd_not(T.ilt0(N))))
    rep.count("photon kinematics")


from props.lib import _invert as _inv


PUSH = ("mcStoreHistory", "mcGammaCascade", "mcHistoryLoop")


def whole(ctx, m, rep):
    """the history holds the steps of one decay and, last, its final state"""
    for q in ("mcHistoryLoop", "specMCMainFission"):
        F = ctx.sym(m, ctx.fn(m, q))
        g = glob(F, "np")
        at = {id(e): i for i, e in enumerate(F.effects)}
        pos = lambda e: at[id(e)]
        rec = [e for e in calls(F, "recordEmittedParticlesFission") if e.pc != T.FALSE]
        ends = rec if q == "specMCMainFission" else [e for e in F.effects if e.kind == "ret" and e.pc != T.FALSE]
        if q == "specMCMainFission":
            for e in calls(F, lambda n: n in ("mcHistoryLoop", "mcGammaCascade")):
                if e.pc == T.FALSE:
                    continue
                compare(rep, "C17:whole:empty:%s" % cq(F, e), F, F.load(e.mem, g, "i32"), ZERO, e.where, "the history is empty when a decay starts", cond=e.pc)
                rep.count("decays started")
                after_ = [x for x in rec if pos(x) > pos(e) and T.bdd_and(x.pc, e.pc) != T.FALSE]
                rep.decide("C17:whole:recorded:%s" % cq(F, e), len(after_) == 1 and T.bdd_implies(e.pc, after_[0].pc), e.where, "its particles are recorded, once")
        for r in ends:
            st = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base == g.base and not e.loops and T.bdd_and(e.pc, r.pc) != T.FALSE and pos(e) < pos(r)]
            last = [e for e in F.effects if e.kind == "call" and e.pc != T.FALSE and cq(F, e) in PUSH and not e.loops and T.bdd_and(e.pc, r.pc) != T.FALSE and pos(e) < pos(r)]
            byloop = any(cq(F, e) == "mcHistoryLoop" and T.bdd_implies(r.pc, e.pc) for e in last)
            if byloop:
                continue                      # mcHistoryLoop appends the final state itself
            st = [e for e in st if not (isinstance(e.val, Poly) and e.val == ZERO)]
            tot = T.FALSE
            twice = False
            for e in st:
                twice = twice or T.bdd_and(T.bdd_and(tot, e.pc), r.pc) != T.FALSE
                tot = T.bdd_or(tot, e.pc)
                compare(rep, "C17:whole:%s:step" % q, F, e.val, F.load(e.mem, g, "i32") + ONE, e.where, "the final state is one entry of the history", cond=e.pc)
                if any(pos(x) > pos(e) and T.bdd_and(x.pc, e.pc) != T.FALSE for x in last):
                    rep.undecided("C17:whole:%s:order" % q, "entries after the final state")
            unk = [e for e in F.effects if e.kind == "call" and e.pc != T.FALSE and cq(F, e) not in PUSH and not e.loops and T.bdd_and(e.pc, r.pc) != T.FALSE and ("G", "np") in ctx.summ(m).mod_.get(e.callee, ())] if hasattr(ctx.summ(m), "mod_") else []
            if unk:
                rep.undecided("C17:whole:%s" % q, "history changed by %s" % cq(F, unk[0]))
                continue
            good = not twice and T.bdd_implies(r.pc, tot)
            rep.decide("C17:whole:%s:final" % q, good, r.where, "after the last transition the history gets exactly one more entry, the final state, on every path", "it gets %s when %s" % ("two" if twice else "none", lin.showlits(T.implied_literals(T.bdd_and(r.pc, T.bdd_not(tot))))[:200] if not twice else "?"))
            rep.count("decays ended")
    rep.floor("decays ended", 2)


def run(ctx, rep, tier):
    m = ctx.module(MC)
    for n, f in (("C17:record", record), ("C17:KEpost", fresh), ("C17:isotropic", isotropy), ("C17:whole", whole)):
        rep.part(n, f, ctx, m, rep)
    from props import c15
    rep.part("C15:step", c15.steps, ctx, m, Part(rep, "C15:step:kind", "C15:step:slot", "C15:step:always", "C15:step:count"))
    rep.assumptions += ["real arithmetic", "the output arrays do not overlap"]
