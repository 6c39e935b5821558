"""Every C accessor reports exactly the quantity the corresponding C++ accessor reports for the most recently
generated event: same member, same index guard, no other state; the generating entry points forward their
arguments unchanged and make the new event current.

Rule: with the C++ accessors inlined, the return term of each C function over (current event, index) equals the
term of the quantity its name denotes; cgmf_genfissevent's constructor call receives (za, energy, time, window)
in order and its result is stored in the current-event pointer on every path.
"""
from props.lib import *
from props import api
from props.c12 import expected


def run(ctx, rep, tier):
    m = ctx.module(GETTERS)
    for name, q in sorted(api.CAPI.items()):
        fn = ctx.fn(m, name, required=False)
        if fn is None:
            rep.bad("C10:" + name, "libcgmf/include/cgmfEvents_capi.h", "declared C accessor %s has no definition" % name)
            continue
        F = ctx.sym(m, fn)
        ev = F.load(F.mem0, glob(F, "cgmf_fevent"), "ptr")
        ev = Ptr(ev.base, ev.off, "cgmfEvent")
        idx = F.vals.get(0)
        exp = expected(F, ev, api.CPP[q], idx)
        got = ret(F)
        rep.count("accessors")
        rep.decide("C10:" + name, same(got, exp), "%s:%s" % (fn.file, fn.line), "%s() == %s of the current event" % (name, q), "it returns %s instead of %s" % (show(got), show(exp)))
        if any(e.kind == "store" and e.loc.base[0] != "al" for e in F.effects):
            rep.bad("C10:%s:writes" % name, fn.file, "C accessor %s modifies state" % name)
    rep.floor("accessors", 50)
    # generation
    gen = ctx.fn(m, "cgmf_genfissevent")
    F = ctx.sym(m, gen)
    cs = calls(F, "cgmfEvent::cgmfEvent")
    cs = [e for e in cs if len(e.args) == 5]
    if not cs:
        raise AnalysisBroken("cgmf_genfissevent constructs no event")
    tot = FALSE
    for e in cs:
        tot = T.bdd_or(tot, e.pc)
        for k, nm in ((1, "za"), (2, "energy"), (3, "time"), (4, "window")):
            want = F.vals[k - 1]
            rep.decide("C10:genfissevent:%s" % nm, same(e.args[k], want), e.where, "event constructed with the caller's %s" % nm, "got " + show(e.args[k]))
        rep.count("constructions")
    rep.decide("C10:genfissevent:always", tot == TRUE, cs[0].where, "every call generates a new event")
    out = [e for e in F.effects if e.kind == "ret"][0]
    cur = F.load(out.mem, glob(F, "cgmf_fevent"), "ptr")
    rep.decide("C10:genfissevent:current", isinstance(cur, Ptr) and cur.base[0] == "heap" and any(e.args[0] == cur for e in cs), cs[0].where,
               "the new event becomes the current event", "current event after the call: " + show(cur))
    # rng installation
    s = ctx.fn(m, "setrngdptr", required=False)
    if s is not None:
        F = ctx.sym(m, s)
        cs = calls(F, "set_rng")
        rep.decide("C10:setrngdptr", len(cs) == 1 and cs[0].pc == TRUE and cs[0].args and cs[0].args[0] == F.vals[0], "%s:%s" % (s.file, s.line),
                   "setrngdptr installs the caller's generator")
    # every declared C function is defined
    import os
    from cg.ir import REPO
    hdr = os.path.join(REPO, "libcgmf/include/cgmfEvents_capi.h")
    txt = re.sub(r"/\*.*?\*/|//[^\n]*", "", open(hdr).read(), flags=re.S)
    raw = ctx.raw()
    defined = {}
    for f in raw.fns.values():
        if f.has_body:
            defined.setdefault(C.qual(f), []).append(f)
    for mm in re.finditer(r"\b([A-Za-z_]\w*)\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)\s*;", txt):
        nm = mm.group(1)
        rep.count("declarations")
        ds = defined.get(nm, [])
        key = "C10:declared:" + nm
        # a declaration inside extern "C" must be defined under its unmangled name
        rep.decide(key, bool(ds) and any(f.name == nm for f in ds), "libcgmf/include/cgmfEvents_capi.h", "%s is defined with C linkage" % nm)
    rep.floor("declarations", 60)
