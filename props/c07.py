"""C07: records of fixed capacity are never indexed outside their extent"""
from props.lib import *
from props.bounds import Bounds, TOP

FLOOR = 600


def pure(B, k, seen=None):
    """a counter: every contribution is a constant or the counter itself plus a constant"""
    seen = seen if seen is not None else set()
    if k in seen:
        return True
    seen.add(k)
    js = [j for j in B.jobs if j[0] == k]
    if not js or k in B.top:
        return False
    g = k[-1]
    for _, F, v, pc in js:
        if F is None:
            if not pure(B, v, seen):
                return False
            continue
        cs = B.cases(F, v, pc)
        if cs is None:
            return False
        for l, x in cs:
            at = list(x.atoms())
            if not at:
                continue
            if len(at) > 1 or x.t.get(((at[0], 1),)) != 1:
                return False
            q = B.akey(F, at[0])
            if q is None or q[-1] != g or not pure(B, q, seen):
                return False
    return True


def imprecise(v):
    return any(T.atom_of(a)[0] in ("ivx", "phix") for a in v.atoms())


def name(loc):
    fs = [c[2] for c in loc.comps if c[0] == "f"]
    if fs:
        return fs[-1]
    if loc.base[0] in ("g", "al"):
        return str(loc.base[1])
    return show_base(loc.base)


def show_base(b):
    try:
        return show(Ptr(b, ZERO, None))[:60]
    except Exception:
        return str(b)[:60]


def run(ctx, rep, tier):
    for mpi in (False,):
        m = ctx.module((), mpi=mpi, unroll=False)
        B = Bounds(ctx, m)
        rep.count("functions analysed", len(B.F))
        rep.count("functions not summarised (their effects count as unknown)", len(B.failed))
        rep.count("contributions to the interval fixed point", len(B.jobs))
        rep.part("array accesses", accesses, B, rep)
        rep.part("library calls that fill a buffer", fills, B, rep)


def accesses(B, rep):
    seen = {}
    und = ok = nolen = 0
    for F, x, b, idx, n, loc in B.accesses():
        if n is None:
            nolen += 1
            continue
        r = B.range(F, idx, F.pc(b))
        if r is None:
            continue
        lo, hi = r
        if lo is not None and lo >= 0 and hi is not None and hi < n:
            ok += 1
            continue
        w = "%s (%s)" % (x.loc, F.fn.dem.split("(")[0])
        why = None
        a = B.attained(F, idx, F.pc(b))
        lo, hi = a if a is not None else TOP
        if hi is not None and hi >= n:
            why = "index reaches %d" % hi
        elif lo is not None and lo < 0 and not imprecise(idx):
            why = "index reaches %d" % lo
        elif r[1] is None:
            a = list(idx.atoms())
            if len(a) == 1:
                k = B.akey(F, a[0])
                if k is not None and k[0][0] in "gf" and B.I.get(k, TOP)[1] is None and pure(B, k):
                    why = "the counter %s is not limited" % k[-1]
        if why is None:
            und += 1
            continue
        key = "%s:%s[%s]" % (F.fn.dem.split("(")[0], name(loc), show(idx)[:60])
        if key not in seen:
            seen[key] = 1
            rep.bad(key, w, "%s has %d elements; %s (index %s)" % (name(loc), n, why, show(idx)[:120]))
    rep.ok("in-range", "%d accesses within their extent" % ok)
    rep.count("accesses proved within the extent", ok)
    rep.count("accesses whose index depends on input data or computed quantities (not decided)", und)
    rep.count("accesses through pointers of unknown extent (not decided)", nolen)
    rep.floor("accesses proved within the extent", FLOOR)


BUF = {"std::istream::getline": (1, 2), "std::basic_istream<char, std::char_traits<char> >::getline": (1, 2), "fgets": (0, 1), "memset": (0, 2), "snprintf": (0, 1), "strncpy": (0, 2)}


def fills(B, rep):
    n = 0
    for f in B.fns:
        F = B.F.get(f.name)
        if F is None:
            continue
        for e in F.effects:
            if e.pc == T.FALSE:
                continue
            if e.kind == "call" and e.callee:
                g = B.m.fns.get(e.callee)
                d = (g.dem if g is not None else e.callee).split("(")[0]
                k = next((v for q, v in BUF.items() if d == q or d.endswith(q)), None)
                if k is None or k[1] >= len(e.args):
                    continue
                p, z = e.args[k[0]], e.args[k[1]]
            elif e.kind in ("memset", "memcpy"):
                p, z = e.ptr, e.args[2] if len(e.args) > 2 else None
            else:
                continue
            if not isinstance(p, Ptr) or not isinstance(z, Poly):
                continue
            for q in B._split(p):
                size = bytes_at(B, F, q)
                r = B.range(F, z, e.pc)
                if size is None or r is None or r[1] is None:
                    continue
                n += 1
                w = "%s (%s)" % (e.inst.loc, F.fn.dem.split("(")[0])
                rep.decide("fill:%s:%d" % (F.fn.dem.split("(")[0], n), r[1] <= size, w,
                           "a library call fills up to %s bytes of a buffer of %s" % (r[1], size), "")
    rep.count("library calls that fill a buffer of known size", n)
    return n


def bytes_at(B, F, p):
    c = p.off.const()
    if c is None:
        return None
    try:
        ty, indexed = F.basety(p)
    except Exception:
        return None
    if ty is None:
        return None
    if indexed:
        n = B.length(F, p.base)
        return None if n is None else n * B.types.size(ty) - int(c)
    s = B.types.size(ty)
    return None if not s else s - int(c)
