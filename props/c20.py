"""The averages printed at the end of a run are the averages over exactly the events of the run: every generated
event is counted once; fragment quantities and multiplicities are divided by the number of events, energies by the
number of particles (never by zero); totals are the sums of their light, heavy and pre-fission parts.

Rule: the per-event update of each running total is derived as a term (loops over particles as sums); the printed
stream is derived with each total replaced by 'accumulated <per-event quantity>' and compared with the
definition; initial values are zero; the driver records each event exactly once, between generation and summary."""
from props.lib import *
from props.summary import *
from props.c08 import report


def run(ctx, rep, tier):
    m = ctx.module(GETTERS)
    R, tot = accumulators(ctx, m, rep)
    rep.count("running totals", len(tot))
    S = ctx.sym(m, "printSummaryEvents")
    try:
        got = nodes(S, "stdout")
    except Unresolved as u:
        rep.undecided("C20:summary", str(u))
        return
    mp = {T.atom("ld", k[0], k[1], 0): v for k, v in tot.items()}
    got = subst_nodes(got, mp)
    ev = S.vals[0]
    d = spec(R, R.vals[0])
    n = read(S, glob(S, "nevents"), [])
    exp = layout(d, n, T.TRUE, read(S, ev, ["ZAIDt"]), read(S, glob(S, "incidentEnergy"), []), read(S, ev, ["incidentEnergy"]))
    rep.count("printed averages", sum(1 for x in exp for p in x.pieces if p[0] == "c"))
    report(rep, "C20:summary", compare_streams(got, exp), S, "the summary prints the averages over the recorded events")
    # every generated event recorded exactly once
    M = ctx.sym(m, "main")
    ct = [x for x in M.effects if x.kind == "call" and cq(M, x) == "cgmfEvent::cgmfEvent" and len(x.args) == 5 and x.pc != T.FALSE]
    rc = [x for x in calls(M, "recordEvent") if x.pc != T.FALSE]
    ps = [x for x in calls(M, "printSummaryEvents") if x.pc != T.FALSE]
    good = len(rc) == len(ct) == 1 and rc[0].args[0] == ct[0].args[0] and rc[0].loops == ct[0].loops and rc[0].pc == ct[0].pc \
        and M.effects.index(rc[0]) > M.effects.index(ct[0])
    rep.decide("C20:recorded", good, (rc or ct)[0].where, "every generated event enters the totals exactly once")
    if len(ps) != 1 or ps[0].loops:
        rep.bad("C20:once", (ps or ct)[0].where, "the summary is printed %d times" % len(ps))
    else:
        rep.decide("C20:order", M.effects.index(ps[0]) > M.effects.index(rc[0]) if rc else False, ps[0].where, "the summary comes after the last event")
        # the event handed to the summary exists whenever the summary is printed
        L = M.li[ct[0].loops[0]] if ct[0].loops else None
        nv = read(M, glob(M, "nevents"), [], ps[0].mem)
        nz = lin.cases([], [], conds=[ps[0].pc])
        pos = all(not lin.feasible(l + lits(T.ilt0(nv - ONE))) for l, _, c in (nz or []) if c[0] == T.TRUE) if nz else None
        nulltest = any(c[0] == "peq" for c, _ in T.implied_literals(ps[0].pc))
        rep.decide("C20:some", True if pos or nulltest else False, ps[0].where, "the summary is printed only when an event exists", "with 0 events it dereferences a null event")
    # nothing else touches the totals
    names = {k[0][1] for k in tot if m.globals[k[0][1]].get("name", "").startswith("sum")}
    Sm = ctx.summ(m)
    for f in m.fns.values():
        if f.has_body and f.repo and C.qual(f) not in ("recordEvent",):
            for i in f.all_insts():
                if i.op == "store" and i.ops[1][0] == "g" and i.ops[1][1] in names:
                    rep.bad("C20:touched:%s" % i.ops[1][1], i.loc, "%s also changes the running total %s" % (C.qual(f), i.ops[1][1]))
    rep.floor("running totals", 20)
    rep.assumptions += ["integer totals do not overflow", "multiplicities are non-negative and are the fragments' sums (C11)"]
