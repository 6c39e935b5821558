"""A parallel run reports one summary, over all ranks: every total printed is the sum over ranks of that rank's
total, divided by the number of events of all ranks; every rank takes part in every reduction; only the
root rank prints, and each rank writes its own history file, named after its rank, with the header only from rank 0.

Rule: same derivation as C20 on the MPI build, each reduction checked (all ranks, matching type, count 1, sum,
root 0) and modelled as 'sum over ranks of x'."""
from props.lib import *
from props.summary import *
from props.c08 import report

TYPES = {"int": "ompi_mpi_int", "double": "ompi_mpi_double"}


def red(p):
    """sum over ranks (linear)"""
    r = ZERO
    for m, c in P(p).t.items():
        r = r + T.var("red", Poly({m: 1})) * P(c)
    return r


def run(ctx, rep, tier):
    m = ctx.module(GETTERS, mpi=True)
    R, tot = accumulators(ctx, m, rep)
    S = ctx.sym(m, "printSummaryEvents")
    gm = {T.atom("ld", k[0], k[1], 0): v for k, v in tot.items()}
    mp = {}
    for e in S.effects:
        if e.kind != "call" or not e.callee or not e.callee.startswith("MPI_"):
            continue
        if e.callee == "MPI_Reduce" or e.callee == "MPI_Allreduce":
            rep.count("reductions")
            al = e.callee == "MPI_Allreduce"
            if al:
                snd, rcv, cnt, ty, op, comm = e.args
                root = ZERO
            else:
                snd, rcv, cnt, ty, op, root, comm = e.args
            nm = S.mod.globals.get(snd.base[1], {}).get("name") if snd.base[0] == "g" else None
            oid = "C19:reduce:%s" % (nm or "?")
            sty = S.loc(snd, 8 if "double" in (S.basety(snd)[0] or "") else 4).ty
            if not e.pc == T.TRUE or e.loops:
                rep.bad(oid, e.where, "reduction of %s is not reached by every rank (only when %s)" % (nm, T.show_cond(e.pc)))
            tn = ty.base[1] if ty.base[0] == "g" else None
            on = op.base[1] if op.base[0] == "g" else None
            cn = comm.base[1] if comm.base[0] == "g" else None
            bad = None
            if cnt.const() != 1:
                bad = "count is %s" % show(cnt)
            elif TYPES.get(sty) and tn and TYPES[sty] != tn:
                bad = "a %s is sent as %s" % (sty, tn)
            elif on != "ompi_mpi_op_sum":
                bad = "the operation is %s" % on
            elif root != ZERO:
                bad = "the root is rank %s" % show(root)
            elif cn != "ompi_mpi_comm_world":
                bad = "the communicator is %s" % cn
            rty = S.basety(rcv)[0] if rcv.base[0] in ("al", "g") else None
            if rty and sty and rty.split("[")[0] != sty:
                bad = "a %s total is received into a %s" % (sty, rty)
            if bad:
                rep.bad(oid, e.where, "reduction of %s: %s" % (nm, bad))
            else:
                rep.ok(oid, "all ranks, one %s, sum, root 0" % sty)
            llty = {"int": "i32", "double": "double"}.get(sty)
            if llty is None:
                rep.undecided(oid, "type %s" % sty)
                continue
            v = S.load(e.mem, snd, llty)
            v = T.dsubst(T.dsubst(v, mp), gm) if isinstance(v, Poly) else v
            loc = S.loc(rcv, 8 if llty == "double" else 4)
            mp[T.atom("ld", loc.base, loc.comps, ("call", e.callee, e.inst.id))] = red(v)
            if rcv.base[0] == "g" and rcv == snd:
                pass
        elif e.callee in ("MPI_Comm_rank", "MPI_Comm_size"):
            p = e.args[1]
            loc = S.loc(p, 4)
            mp[T.atom("ld", loc.base, loc.comps, ("call", e.callee, e.inst.id))] = T.var("rank" if e.callee.endswith("rank") else "size")
            if e.pc != T.TRUE:
                rep.bad("C19:%s" % e.callee, e.where, "not every rank asks %s" % e.callee)
    try:
        got = nodes(S, "stdout")
    except Unresolved as u:
        rep.undecided("C19:summary", str(u))
        return
    got = subst_nodes(got, mp)
    got = subst_nodes(got, gm)
    ev = S.vals[0]
    d = {k: red(v) for k, v in spec(R, R.vals[0]).items()}
    root = T.eq0(T.var("rank"))
    n = read(S, glob(S, "nevents"), []) * T.var("size")
    exp = layout(d, n, root, read(S, ev, ["ZAIDt"]), read(S, glob(S, "incidentEnergy"), []), read(S, ev, ["incidentEnergy"]))
    rep.count("printed averages", sum(1 for x in exp for p in x.pieces if p[0] == "c"))
    report(rep, "C19:summary", compare_streams(got, exp), S, "the root prints the averages over the events of all ranks, other ranks print nothing")
    rep.floor("reductions", 15)
    driver(ctx, rep, m)
    rep.assumptions += ["all ranks run the same number of events", "MPI_Reduce(MPI_SUM) adds over ranks"]


def driver(ctx, rep, m):
    M = ctx.sym(m, "main")
    rk = calls(M, "MPI_Comm_rank"); ini = calls(M, "MPI_Init"); fin = calls(M, "MPI_Finalize")
    order = lambda e: M.effects.index(e)
    ok = ini and rk and order(ini[0]) < order(rk[0]) and ini[0].pc == T.TRUE and rk[0].pc == T.TRUE
    rep.decide("C19:init", bool(ok), (ini or rk or M.effects)[0].where, "MPI is initialised before the rank is read")
    rets = [e for e in M.effects if e.kind == "ret"]
    rep.decide("C19:finalize", bool(fin) and T.bdd_implies(T.bdd_and(noexit(M), returns(M)), fin[-1].pc) and not fin[-1].loops, (fin[-1].where if fin else where(M)), "every rank that returns finalises MPI")
    if not rk:
        return
    rp = rk[0].args[1]
    ri = calls(M, "readUserInput")
    if ri:
        compare(rep, "C19:rank", M, ri[0].args[2], M.load(ri[0].mem, rp, "i32"), ri[0].where, "the file name is built from this rank")
        rep.decide("C19:rank:order", order(ri[0]) > order(rk[0]), ri[0].where, "the rank is known before the file name is built")
    # history header only by rank 0, events by every rank
    pe = [e for e in calls(M, "printEventToFile") if e.pc != T.FALSE]
    if pe:
        fpv = pe[0].args[0]
        for e in calls(M, "fprintf"):
            if e.args[0] == fpv:
                r = M.load(e.mem, rp, "i32")
                z = lin.cases([], [], conds=[e.pc])
                okk = all(not lin.feasible(l + [(c, p) for c, p in lits(T.bdd_not(T.eq0(r)))]) for l, _, c in z if c[0] == T.TRUE)
                rep.decide("C19:header", okk, e.where, "only rank 0 writes the header line")
        for e in pe:
            r = M.load(e.mem, rp, "i32").single()
            dep = any(r in T.deep_atoms(c) for v in T.bdd_support(e.pc) for c in T.cond_of(v)[1:])
            rep.decide("C19:events", not dep, e.where, "every rank writes its own events")
    ps = [e for e in calls(M, "printSummaryEvents") if e.pc != T.FALSE]
    for e in ps:
        r = M.load(e.mem, rp, "i32").single()
        dep = any(r in T.deep_atoms(c) for v in T.bdd_support(e.pc) for c in T.cond_of(v)[1:])
        rep.decide("C19:collective", not dep, e.where, "every rank enters the summary (it contains collective operations)")
    U = ctx.sym(m, "readUserInput")
    # rank suffix: the rank argument reaches the name
    sip = [e for e in U.effects if e.kind == "call" and e.callee and ("_ZNSolsEi" in e.callee or "to_string" in (dem(U, e)) or e.callee in ("sprintf", "snprintf")) and any(a == U.vals[2] for a in e.args)]
    rep.decide("C19:suffix", True if sip and sip[0].pc == T.TRUE else (None if not sip else False), sip[0].where if sip else where(U), "output file names carry the rank")


def dem(F, e):
    g = F.mod.fns.get(e.callee)
    return g.dem if g is not None else (e.callee or "?")
