"""Emission times of photons and the coincidence window.

Rule: in the level cascade the clock starts at 0 and advances by -ln(u) T1/2 / ln 2 exactly at levels with a half-life; a
transition takes place exactly when the window is not positive or not exceeded; the time stored belongs to the history entry
written next; the window of an event is installed before its fragments decay.
"""
from props.phys import *
from props.c14 import MC
from props.c15 import point, phi_of
LN2 = 0.6931471805599453


def cascade(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "mcGammaCascade"))
    c0 = F.vals[0]
    W = F.load(F.mem0, glob(F, "time_coincidence_window"), "double")
    gt = glob(F, "gammaTimeStamp")
    hist = [e for e in calls(F, "mcStoreHistory") if e.pc != T.FALSE]
    st = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base == gt.base]
    if len(hist) != 1 or not hist[0].loops:
        rep.undecided("C18:cascade", "%d calls of mcStoreHistory" % len(hist))
        return
    e = hist[0]
    h = e.loops[0]
    info = F.li[h]
    lev = phi_of(point(F, e.mem, e.args[1])["k"])
    if not st:
        rep.bad("C18:time", where(F), "emission times are never stored")
        return
    if len(st) != 1 or lev is None:
        rep.undecided("C18:time", "%d writes of emission times" % len(st))
        return
    x = st[0]
    rep.count("cascades")
    np_ = F.load(e.mem, glob(F, "np"), "i32")
    compare(rep, "C18:time:slot", F, x.loc.comps[-1][1] if x.loc.comps[-1][0] == "i" else T.div(x.loc.comps[-1][1], P(8)), np_, x.where, "the time is stored for the photon recorded next", cond=x.pc)
    compare(rep, "C18:time:every", F, T.ite(x.pc, ONE, ZERO), ONE, x.where, "every transition gets a time", cond=e.pc)
    rep.decide("C18:time:before", True if F.effects.index(x) < F.effects.index(e) else None, x.where, "before it is recorded")
    # the clock
    ck = [a for a in T.deep_atoms(x.val) if T.atom_of(a)[0] == "phi" and a != lev and a in info.deltas]
    if len(ck) != 1:
        rep.undecided("C18:clock", "time is %s" % show(x.val)) if ck else no_clock(rep, F, x, info, lev)
        return
    t = ck[0]
    ini, dl = info.deltas[t]
    tp = Poly({((t, 1),): Fraction(1)})
    lp = Poly({((lev, 1),): Fraction(1)})
    compare(rep, "C18:clock:start", F, ini, ZERO, x.where, "the clock starts at 0")
    hl = read(F, glob(F, "ncl"), [c0, "lev", lp, "halflife"], x.mem)
    step = x.val - tp
    cs = lin.cases([step], lits(T.lt0(-hl)))
    for l, (s,), _ in cs or ():
        if t in s.atoms():
            rep.bad("C18:clock:advance", x.where, "the time of a transition adds to that of the earlier ones; here it is %s" % show(s + tp))
            continue
        advance(rep, F, s, hl, x.where)
    cs0 = lin.cases([step], lits(T.bdd_not(T.lt0(-hl))))
    for l, (s,), _ in cs0 or ():
        rep.decide("C18:clock:prompt", True if not s.t else (None if unknown(F, s) else False), x.where, "a level without half-life decays at once, not after %s" % show(s))
    if cs is None or cs0 is None:
        rep.undecided("C18:clock", "too many cases")
    compare(rep, "C18:clock:carry", F, tp + dl, x.val, x.where, "the clock keeps the time of the last transition", cond=e.pc)
    # the cut
    pc = searched(e.pc, read(F, glob(F, "ncl"), [c0, "lev", lp, "ngamma"], e.mem))
    late = T.bdd_and(T.lt0(-W), T.lt0(W - x.val))
    cont = T.bdd_and(T.bdd_not(T.eq0(lp)), T.bdd_not(late))
    compare(rep, "C18:cut", F, T.ite(pc, ONE, ZERO), T.ite(cont, ONE, ZERO), e.where, "a transition takes place exactly when its time is within the window (or no window is set)")


def no_clock(rep, F, x, info, lev):
    if unknown(F, x.val) and not [a for a in T.deep_atoms(x.val) if is_rng(F, a)]:
        rep.undecided("C18:clock", "time is %s" % show(x.val))
    else:
        rep.bad("C18:clock", x.where, "the emission time does not include the time of the earlier transitions: %s" % show(x.val))


def advance(rep, F, s, hl, w):
    """s = -ln(u) hl / ln 2"""
    lg = [a for a in s.atoms() if T.atom_of(a)[0] == "fn" and T.atom_of(a)[1] in ("log", "log1p", "log2")]
    if len(s.t) != 1 or len(lg) != 1:
        # no random number in it at all, or nothing but known quantities
        det = not [a for a in T.deep_atoms(s) if is_rng(F, a)] and len(s.atoms()) == len([a for a in s.atoms() if T.atom_of(a)[0] == "ld"])
        rep.decide("C18:clock:advance", False if det else None, w, "a level with a half-life delays its transition, by %s" % show(s))
        return
    a = lg[0]
    t = T.atom_of(a)
    (mono, co), = s.t.items()
    rest = Poly({tuple(y for y in mono if y != (a, 1)): Fraction(1)})
    want = -1.0 / LN2 if t[1] == "log" else (-1.0 if t[1] == "log2" else None)
    arg = t[2][0]
    dr = [b for b in arg.atoms() if is_rng(F, b)]
    okarg = len(dr) == 1 and (arg.t == {((dr[0], 1),): 1} or arg.t == {((dr[0], 1),): -1, (): 1})
    d = lin.difference(rest, hl)
    if d is not None and (d[0] == "limit" or opaque_rel(d[1], d[2])):
        rep.undecided("C18:clock:advance", "delay %s" % show(s))
        return
    if want is None or not okarg:
        rep.decide("C18:clock:advance", None if want is None else (False if len(dr) == 1 or not arg.atoms() else None), w, "the delay is exponential: -ln(u), u uniform; not %s" % show(s))
        return
    good = d is None and abs(float(co) - want) < 1e-6
    rep.decide("C18:clock:advance", good, w, "mean delay = half-life of the level / ln 2, not %s" % show(s))


def window(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "set_time_coincidence_window"))
    g = glob(F, "time_coincidence_window")
    compare(rep, "C18:window:set", F, F.load(final(F), g, "double"), F.vals[0], where(F), "the window set is the one asked for")
    F = [ctx.sym(m, f) for f in ctx.fns(m, "cgmfEvent::cgmfEvent") if len(f.args) == 5]
    if len(F) != 1:
        rep.undecided("C18:window", "constructor of cgmfEvent not found")
        return
    F = F[0]
    tw = F.vals[4]
    dec = [e for e in calls(F, "specMCMainFission") if e.pc != T.FALSE]
    cs = [e for e in calls(F, "set_time_coincidence_window") if e.pc != T.FALSE]
    w = where(F)
    if not dec:
        rep.undecided("C18:window", "no fragment is de-excited here")
        return
    if not cs:
        rep.bad("C18:window:installed", w, "the time window of an event is never installed")
        return
    pos = {id(e): i for i, e in enumerate(F.effects)}
    first = min(dec, key=lambda e: pos[id(e)])
    late = [e for e in cs if pos[id(e)] > pos[id(first)] or e.loops]
    if late:
        rep.bad("C18:window:order", late[0].where, "the time window is installed after the first fragment has decayed")
    # value in force when the fragments decay; a non-positive window of the event means none
    W = T.var("earlier window")
    for e in sorted(cs, key=lambda z: pos[id(z)]):
        W = T.ite(e.pc, e.args[0], W)
    has = T.lt0(-tw)
    d = lin.difference(T.ite(has, W, ZERO), T.ite(has, tw, ZERO), where=first.pc)
    report(rep, "C18:window:installed", d, w, "the window in force is the event's own")
    d = cond_none(W, tw, first.pc)
    report(rep, "C18:window:none", d, w, "without a window of its own an event has none")
    rep.count("installations", len(cs))


def cond_none(W, tw, pc):
    cs = lin.cases([W], lits(T.bdd_not(T.lt0(-tw))), conds=[pc])
    for l, (v,), c in cs or ():
        if c and c[0] == T.FALSE:
            continue
        if T.equal(v, tw):
            continue
        k = v.const()
        if k is not None and k <= 0:
            continue
        return (l, v, ZERO)
    return None if cs is not None else ("limit",)


def report(rep, oid, d, w, text):
    if d is None:
        rep.ok(oid, text)
    elif d[0] == "limit":
        rep.undecided(oid, text)
    else:
        rep.bad(oid, w, "%s; but when [%s] it is %s" % (text, lin.showlits(d[0])[:300], show(d[1])))


def run(ctx, rep, tier):
    m = ctx.module(MC)
    rep.part("C18:cascade", cascade, ctx, m, rep)
    rep.part("C18:window", window, ctx, m, rep)
    from props import c17
    rep.part("C18:age", c17.record, ctx, m, Part(rep, "C17:age"))
    rep.assumptions += ["real arithmetic", "half-lives in the level tables are not judged"]
