"""Every record of a history file has the documented layout, for every event: the two fragment lines, momentum lines,
and the neutron, photon and pre-fission neutron lists, each with as many entries as the multiplicity printed for
it, light fragment first, photon ages exactly when the header's time window is negative.

Rule: the text the writer prints is derived as a symbolic stream (literal text, conversions with their argument
terms, guards, counted loops) and compared with the layout in every case of its guards."""
from props.lib import *
from props.stream import Node, nodes, compare_streams, fmt
from props import api
from props.c12 import expected


def getter(F, base, name, idx=None):
    spec = api.CPP.get("cgmfEvent::" + name) or api.CPP["cgmEvent::" + name]
    return expected(F, base, spec, idx)


def layout(F, ev, tw):
    g = lambda n, i=None: getter(F, ev, n, i)
    neg = T.lt0(tw)
    out = []

    def vec(names, trip, off, guard, extra=None):
        iv = T.var("x", len(out))
        a = iv.single()
        four = fmt("%.3f %.3f %.3f %.3f ", [g(n, iv + off) for n in names])
        if extra:
            five = fmt("%.3f %.3f %.3f %.3f %g ", [g(n, iv + off) for n in names] + [g(extra, iv + off)])
            body = [Node(neg, five), Node(T.bdd_not(neg), four)]
        else:
            body = [Node(T.TRUE, four)]
        out.append(Node(guard, trip=trip, iv=a, body=body))
        out.append(Node(T.bdd_and(guard, T.bdd_not(T.ilt0(trip - ONE))), fmt("\n", [])))
    n1 = g("getLightFragmentNeutronNu"); g1 = g("getLightFragmentPhotonNu")
    for s in ("Light", "Heavy"):
        f = lambda n: g("get%sFragment%s" % (s, n))
        npre = g("getPreFissionNeutronNu")
        a = [f("Mass"), f("Charge"), f("ExcitationEnergy"), f("Spin"), f("Parity"), f("KineticEnergy"), f("KineticEnergyPost"), f("NeutronNu"), f("PhotonNu")]
        if s == "Light":
            out.append(Node(T.TRUE, fmt(" %i %i %.3f %.1f %i %.3f %.3f %i %i 0\n", a)))
        else:
            out.append(Node(T.TRUE, fmt(" %i %i %.3f %.1f %i %.3f %.3f %i %i %i\n", a + [npre])))
        out.append(Node(T.TRUE, fmt(" %.3f %.3f %.3f %.3f %.3f %.3f\n", [f(w + "Momentum" + c) for w in ("Pre", "Post") for c in "XYZ"])))
        o = ZERO if s == "Light" else n1
        og = ZERO if s == "Light" else g1
        vec(["getCmNeutronDircosu", "getCmNeutronDircosv", "getCmNeutronDircosw", "getCmNeutronEnergy"], f("NeutronNu"), o, T.TRUE)
        vec(["getNeutronDircosu", "getNeutronDircosv", "getNeutronDircosw", "getNeutronEnergy"], f("NeutronNu"), o, T.TRUE)
        vec(["getPhotonDircosu", "getPhotonDircosv", "getPhotonDircosw", "getPhotonEnergy"], f("PhotonNu"), og, T.TRUE, "getPhotonAge")
    vec(["getPreFissionNeutronDircosu", "getPreFissionNeutronDircosv", "getPreFissionNeutronDircosw", "getPreFissionNeutronEnergy"], g("getPreFissionNeutronNu"), ZERO, T.TRUE)
    return out


def invariants(F, ev):
    """facts every constructed event satisfies (decided by C11)"""
    r = lambda *p: read(F, ev, list(p))
    n1, n2, g1, g2 = r("eventLF", "nu"), r("eventHF", "nu"), r("eventLF", "nug"), r("eventHF", "nug")
    nn, gg = r("neutronNu"), r("photonNu")
    return lits(T.eq0(nn - n1 - n2), T.eq0(gg - g1 - g2), T.bdd_not(T.ilt0(n1)), T.bdd_not(T.ilt0(n2)),
                T.bdd_not(T.ilt0(g1)), T.bdd_not(T.ilt0(g2)), T.bdd_not(T.ilt0(r("preFissionNeutronNu"))))


def run(ctx, rep, tier):
    m = ctx.module(GETTERS)
    F = ctx.sym(m, "printEventToFile")
    fp, ev, tw = F.vals[0], F.vals[1], F.vals[2]
    try:
        got = nodes(F, fp)
    except Unresolved as u:
        rep.undecided("C08:record", str(u))
        return
    exp = layout(F, ev, tw)
    d = compare_streams(got, exp, invariants(F, ev))
    rep.count("printed segments", len(exp))
    report(rep, "C08:record", d, F, "an event record has the documented layout")
    # header
    M = ctx.sym(m, "main")
    pe = calls(M, "printEventToFile")
    fo = calls(M, "fopen")
    if not pe or not fo:
        raise AnalysisBroken("driver does not print events")
    e = pe[0]
    fpv = e.args[0]
    ops = [x for x in fo if x.res == fpv]
    if not ops:
        rep.undecided("C08:file", "history file handle %r" % fpv)
    else:
        md = cstr(M, ops[0].args[1])
        rep.decide("C08:mode", None if md is None else md.startswith("w"), ops[0].where, "the history file is started afresh", repr(md))
    try:
        hd = nodes(M, fpv, [x for x in M.effects if x not in pe])
    except Unresolved as u:
        rep.undecided("C08:header", str(u))
        hd = None
    if hd is not None:
        k = M.effects.index(e)
        late = [x for x in M.effects[k:] if x.kind == "call" and x.callee in ("fprintf", "fputs", "fputc", "fputs") and x.pc != T.FALSE and x.args and fpv in x.args]
        if late:
            rep.bad("C08:header:order", late[0].where, "the driver writes to the history file after the first record")
        z = lambda n: read(M, glob(M, n), [], e.mem)
        ex = [Node(T.bdd_not(T.ilt0(z("nevents"))), fmt("# %5i %g %g\n", [z("ZAIDt"), z("incidentEnergy"), z("timeCoincidenceWindow")]))]
        ne = noexit(M)
        for x in hd + ex:
            x.guard = T.bdd_and(x.guard, ne)
        report(rep, "C08:header", compare_streams(hd, ex), M, "the history file starts with one header line: target, energy, time window")
    # the record printed is the event just generated, every time, with the header's window
    ct = [x for x in M.effects if x.kind == "call" and cq(M, x) == "cgmfEvent::cgmfEvent" and len(x.args) == 5 and x.pc != T.FALSE]
    for x in pe:
        rep.decide("C08:printed", any(x.args[1] == y.args[0] and x.loops == y.loops and x.pc == y.pc for y in ct) and len(pe) == len(ct), x.where,
                   "every generated event is printed exactly once")
        compare(rep, "C08:window", M, x.args[2], read(M, glob(M, "timeCoincidenceWindow"), [], x.mem), x.where, "records use the time window of the header")
    rep.assumptions += ["class invariants of a constructed event (multiplicities are the two fragments' sums): C11", "no NaN time window"]


def report(rep, oid, diffs, F, text):
    if not diffs:
        rep.ok(oid, text)
    for k, (w, t, und) in enumerate(diffs[:8]):
        if und:
            rep.undecided("%s:%d" % (oid, k), text + ": " + t)
        else:
            rep.bad("%s:%d" % (oid, k) if k else oid, w or where(F), text + "; " + t)
