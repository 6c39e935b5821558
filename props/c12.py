"""Every public C++ accessor of an event returns the member that stores the named quantity, and an
indexed accessor returns the stored element exactly when 0 <= index < the matching multiplicity and
-1 otherwise (so no index, for any event, reads outside the per-event arrays).

Rule: the accessor's return value, as a term over `this` and the index (dataflow over the IR, joins kept
as case distinctions), equals the expected term.
"""
from props.lib import *
from props import api


def expected(F, base, spec, idx):
    if spec[0] == "s":
        return read(F, base, list(spec[1]))
    n = read(F, base, [spec[1]])
    v = read(F, base, [spec[2], idx])
    inr = T.bdd_and(T.bdd_not(T.ilt0(idx)), T.ilt0(idx - n))
    return T.ite(inr, v, P(-1))


def run(ctx, rep, tier):
    m = ctx.module()
    for q, spec in sorted(api.CPP.items()):
        fn = ctx.fn(m, q, required=False)
        if fn is None:
            # header-inline accessors never used in the library are not emitted: instantiate through the C API / driver
            rep.undecided(q, "accessor not emitted in any translation unit")
            continue
        F = ctx.sym(m, fn)
        base = F.vals[0]
        if base.ty not in F.types.rec:
            raise AnalysisBroken("class of %s" % q)
        idx = F.vals.get(1)
        exp = expected(F, base, spec, idx)
        got = ret(F)
        rep.count("accessors")
        rep.decide("C12:" + q, same(got, exp), "%s:%s" % (fn.file, fn.line), "%s returns %s" % (q, show(exp)), "it returns " + show(got))
        st = [e for e in F.effects if e.kind == "store" and e.loc.base[0] != "al"]
        if st:
            rep.bad("C12:%s:writes" % q, st[0].where, "accessor %s modifies state" % q)
    rep.floor("accessors", 40)
    rep.assumptions += ["integer arithmetic does not overflow", "no NaN in comparisons"]
