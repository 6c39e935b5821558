"""Event number i of a run (rank r, n events per rank, starting event s) is generated from the random stream seeded
with exactly s + r*n + i, and yields from the stream seeded with s: the seed is set before each event, on the
generator that the library then draws from, so any event is reproduced by restarting at its number.

Rule: typestate over the driver's effects, per loop iteration: seed(R, x) -> wrap R -> install -> generate; x is
compared as a term with s + r*n + i; loop bounds give i in [0, n).  Generator class: the engine seeded by
the constructor / set_seed is the one drawn from, uniformly on [0,1)."""
import re
from props.lib import *
from props import reach


def before(F, e, pred):
    """effects before e on the same iteration, nearest first, that are executed whenever e is"""
    k = F.effects.index(e)
    out = []
    for x in reversed(F.effects[:k]):
        if x.kind == "call" and pred(x):
            out.append(x)
    return out


def always(e, x):
    """x executed in the same iteration whenever e is (x.loops is a prefix of e.loops)"""
    return e.loops[:len(x.loops)] == x.loops and T.bdd_implies(e.pc, x.pc)


def dem(F, e):
    g = F.mod.fns.get(e.callee)
    return g.dem if g is not None else (e.callee or "?")


def changed(ctx, F, L, gn):
    """False: some instruction reachable from the loop body writes the variable; None: not known"""
    summ = ctx.summ(F.mod)
    live = reach.reachable(F.mod, cut=("readUserInput", "printSummaryEvents"))
    live = {n for n in live if not F.mod.fns.get(n) or C.qual(F.mod.fns[n]) not in ("readUserInput", "printSummaryEvents")}
    for f in F.mod.fns.values():
        if f.name in live and f.repo and f.has_body and any(p == ("G", gn) for p, _ in summ.direct(f)[0]):
            return False
    return None


def run(ctx, rep, tier):
    for mpi in (False, True):
        m = ctx.module(mpi=mpi)
        cfg = "mpi" if mpi else "serial"
        F = ctx.sym(m, "main")
        rank = ZERO
        if mpi:
            rk = calls(F, "MPI_Comm_rank")
            if not rk:
                rep.bad("C03:mpi:rank", where(F), "the driver never asks for its rank")
                continue
        gens = [e for e in F.effects if e.kind == "call" and e.pc != T.FALSE and cq(F, e) in ("cgmfEvent::cgmfEvent", "cgmfYields::cgmfYields") and len(e.args) >= 5]
        ev = [e for e in gens if cq(F, e) == "cgmfEvent::cgmfEvent"]
        yl = [e for e in gens if cq(F, e) == "cgmfYields::cgmfYields"]
        if not ev or not yl:
            raise AnalysisBroken("driver: %d event and %d yields constructions" % (len(ev), len(yl)))
        for e in gens:
            yields = e in yl
            oid = "C03:%s:%s" % (cfg, "yields" if yields else "event")
            rep.count("generation sites")
            inst = before(F, e, lambda x: cq(F, x) == "set_rng")
            if not inst or not always(e, inst[0]):
                rep.bad(oid + ":install", e.where, "no generator is installed before every generation")
                continue
            s = inst[0]
            obj = s.args[0]
            mk = before(F, s, lambda x: re.search(r"^std::function<double \(\)>::function", dem(F, x)) and x.args and x.args[0] == obj)
            if not mk:
                rep.undecided(oid + ":wrap", "the installed object is not built from a generator here: %r" % obj)
                continue
            w = mk[0]
            R = w.args[1] if len(w.args) > 1 else None
            byref = "reference_wrapper" in dem(F, w)
            if byref:
                rep.undecided(oid + ":wrap", "generator installed by reference")
                continue
            if not byref and s.loops != e.loops:
                rep.bad(oid + ":install", s.where, "the generator is copied once, outside the event loop: events share one stream")
                continue
            lim = e if byref else w
            sd = before(F, lim, lambda x: cq(F, x) == "UniformRNG::set_seed" and x.args[0] == R)
            if not sd:
                rep.bad(oid + ":seed", lim.where, "the installed generator is not seeded before it is copied")
                continue
            sd = sd[0]
            if sd.loops != e.loops or not always(e, sd):
                rep.bad(oid + ":seed", sd.where, "the generator is not seeded for every event")
                continue
            if mpi:
                ptr = calls(F, "MPI_Comm_rank")[0].args[1]
                rank = F.load(sd.mem, ptr, "i32")
            start = read(F, glob(F, "startingEvent"), [], sd.mem)
            nev = read(F, glob(F, "nevents"), [], sd.mem)
            if yields:
                compare(rep, oid + ":value", F, sd.args[1], start, sd.where, "yields use seed = starting event")
            else:
                if len(e.loops) != 1:
                    rep.undecided(oid, "event loop nest %s" % (e.loops,))
                    continue
                L = F.li[e.loops[0]]
                iv = Poly({((L.iv, 1),): 1})
                compare(rep, oid + ":value", F, sd.args[1], start + rank * nev + iv, sd.where, "event i of rank r uses seed start + r*n + i")
                if L.trip is None:
                    rep.undecided(oid + ":count", "event loop bound")
                else:
                    n1 = read(F, glob(F, "nevents"), [], L.mem_in)
                    for gn, now in (("startingEvent", start), ("nevents", nev)):
                        rep.decide(oid + ":fixed:" + gn, same(now, read(F, glob(F, gn), [], L.mem_in)) or changed(ctx, F, L, gn), sd.where, "%s keeps its value while events are generated" % gn, "%s is changed inside the event loop" % gn)
                    compare(rep, oid + ":count", F, L.trip, n1, e.where, "a rank generates exactly n events", assume=lits(T.bdd_not(T.ilt0(n1))))
            # what is generated
            za = read(F, glob(F, "ZAIDt"), [], e.mem); en = read(F, glob(F, "incidentEnergy"), [], e.mem)
            compare(rep, oid + ":target", F, e.args[1], za, e.where, "generation uses the requested nucleus")
            compare(rep, oid + ":energy", F, e.args[2], en, e.where, "generation uses the requested energy")
            if yields:
                compare(rep, oid + ":n", F, e.args[3], -nev, e.where, "yields are generated for -n samples")
            else:
                tw = read(F, glob(F, "timeCoincidenceWindow"), [], e.mem)
                compare(rep, oid + ":t0", F, e.args[3], ZERO, e.where, "events start at time 0")
                compare(rep, oid + ":window", F, e.args[4], tw, e.where, "events use the requested time window")
        rep.floor("generation sites", 2)
    m = ctx.module()
    # installing: both overloads assign the object the library draws from
    n = 0
    for f in ctx.fns(m, "set_rng"):
        F = ctx.sym(m, f)
        tgt = [e for e in F.effects if e.kind == "call" and re.search(r"std::function<double \(\)>::(operator=|swap)|std::enable_if.*operator=", dem(F, e))
               and any(isinstance(a, Ptr) and a.base[0] == "g" and m.globals[a.base[1]].get("name") == "rng_cgm" for a in e.args)]
        n += 1
        src_ok = True
        if not tgt:
            rep.bad("C03:install:%s" % f.dem, where(F), "%s does not replace the generator the library draws from" % f.dem)
        elif tgt[0].pc != T.TRUE:
            rep.bad("C03:install:%s" % f.dem, tgt[0].where, "%s replaces the generator only when %s" % (f.dem, T.show_cond(tgt[0].pc)))
        else:
            rep.ok("C03:install:%s" % f.dem, "always replaces the library's generator")
    if n < 2:
        raise AnalysisBroken("set_rng overloads: %d" % n)
    # nobody else seeds or installs
    raw = ctx.raw()
    allowed = {"set_rng": {"main", "setrngdptr"}, "UniformRNG::set_seed": {"main"}}
    for f in m.fns.values():
        if not (f.has_body and f.repo):
            continue
        for i in f.all_insts():
            if i.op in ("call", "invoke") and i.callee in m.fns:
                q = C.qual(m.fns[i.callee])
                if q in allowed and C.qual(f) not in allowed[q]:
                    rep.bad("C03:other:%s" % C.qual(f), i.loc, "%s calls %s: the library changes the stream it was given" % (C.qual(f), q))
                if q.startswith("std::mersenne_twister_engine") and q.endswith("::seed") and not C.qual(f).startswith("UniformRNG::"):
                    rep.bad("C03:other:%s" % C.qual(f), i.loc, "engine seeded in %s" % C.qual(f))
    # the generator class
    cls(ctx, rep, m)
    rep.assumptions += ["std::function copies its target", "std::mt19937 seeded with equal values produces equal streams"]


def cls(ctx, rep, m):
    draw = ctx.sym(m, "UniformRNG::operator()")
    this = draw.vals[0]
    dc = [e for e in draw.effects if e.kind == "call" and re.search(r"uniform_real_distribution<double>::operator\(\)", dem(draw, e))]
    if len(dc) != 1:
        rep.bad("C03:draw", where(draw), "a draw is not one sample of the uniform distribution (%d samples)" % len(dc))
        return
    eng = dc[0].args[1].off
    dist = dc[0].args[0].off
    g = same(ret(draw), dc[0].res)
    rep.decide("C03:draw:value", g, where(draw), "a draw returns the uniform sample itself", show(ret(draw)))
    if dc[0].args[1].base != this.base:
        rep.bad("C03:draw:engine", where(draw), "draws use an engine that is not the generator's own")
    after = {}
    for q, an in (("UniformRNG::set_seed", "set_seed"), ("UniformRNG::UniformRNG", "constructor")):
        F = ctx.sym(m, q)
        own = lambda p: isinstance(p, Ptr) and p.base == F.vals[0].base and p.off == eng
        # a whole engine copied over the generator's own one carries its seed along
        via = [e.args[1] for e in F.effects if e.kind == "memcpy" and own(e.args[0]) and e.pc == T.TRUE]
        sd = [e for e in F.effects if e.kind == "call" and re.search(r"mersenne_twister_engine<.*>::(seed|mersenne_twister_engine)\(unsigned long\)", dem(F, e))
              and (own(e.args[0]) or e.args[0] in via) and e.pc == T.TRUE]
        if not sd:
            rep.bad("C03:%s:seed" % an, where(F), "the generator's %s does not seed the engine it draws from" % an)
            continue
        compare(rep, "C03:%s:value" % an, F, sd[-1].args[1], F.vals[1], sd[-1].where, "%s seeds the engine with exactly the given seed" % an)
        # what else is done to the engine once it is seeded
        k = F.effects.index(sd[-1])
        after[an] = [(dem(F, e).split("(")[0], tuple(repr(x) for x in e.args[1:]), e.where) for e in F.effects[k + 1:] if e.kind == "call" and e.pc != T.FALSE
                     and any(own(x) or x in via for x in e.args) and not re.search(r"operator=|::~", dem(F, e))]
    if len(after) == 2:
        a, b = ([x[:2] for x in after[k]] for k in ("constructor", "set_seed"))
        w = (after["set_seed"] or after["constructor"] or [(0, 0, where(draw))])[0][2]
        rep.decide("C03:same", a == b, w, "reseeding leaves the engine where construction with that seed does", "after seeding, the constructor does %s and set_seed %s" % ([x[0] for x in a], [x[0] for x in b]))
    F = ctx.sym(m, "UniformRNG::UniformRNG")
    dd = [e for e in F.effects if e.kind == "call" and "uniform_real_distribution<double>::uniform_real_distribution" in dem(F, e) and isinstance(e.args[0], Ptr) and e.args[0].base == F.vals[0].base]
    if not dd:
        rep.undecided("C03:range", "distribution not constructed")
    else:
        a = dd[-1].args[1:]
        good = not a or (len(a) == 2 and a[0] == ZERO and a[1] == ONE) or (len(a) == 1 and isinstance(a[0], Poly) and a[0] == ZERO)
        rep.decide("C03:range", good, dd[-1].where, "draws are uniform on [0,1)", repr(a))
