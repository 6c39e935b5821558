"""Three-valued comparison of two toolkit terms: equal, certainly different, not decided."""
from itertools import permutations
from cg import pyterm as P

LEAF = {"num", "str", "none", "bool", "p", "NE", "tok", "tokn", "b"}


def hard(a, b):
    return [("hard", "%s where %s is required" % (short(a), short(b)))]


def soft(a, b):
    return [("soft", "%s against %s" % (short(a), short(b)))]


def short(t):
    s = P.show(t)
    return s if len(s) < 160 else s[:157] + "..."


def byprov(a, b):
    pa, pb = P.prov(a), P.prov(b)
    if pa != pb:
        f = lambda s: ", ".join("%s (%s rows)" % x for x in sorted(s)) or "nothing"
        return [("hard", "computed from %s, where %s is required" % (f(pa), f(pb)))]
    return soft(a, b)


def segs_prov(s):
    return ("seq", tuple(s))


def kids(a, b, xs, ys):
    out = []
    for x, y in zip(xs, ys):
        out += diff(x, y)
    return out


def diff(a, b):
    """a: the code's term, b: the required one"""
    if a == b:
        return []
    k = a[0]
    if k != b[0]:
        if k in LEAF and b[0] in LEAF and not {k, b[0]} <= {"tok", "tokn"}:
            return hard(a, b)
        if k == "call" and a[1] in ("int", "round", "floor", "ceil", "rint", "trunc") and a[2] and a[2][0] == b and b[0] == "p":
            return hard(a, b)
        if "poly" in (k, b[0]):
            return dpoly(a, b)
        return byprov(a, b)
    if k == "cell":
        if a[1] != b[1]:
            return hard(a, b)
        return hard(a, b)
    if k in ("tok", "tokn"):
        return hard(a, b)
    if k == "str":
        return []                     # labels
    if k in LEAF:
        return hard(a, b)
    if k == "poly":
        return dpoly(a, b)
    if k == "cmp":
        if {a[2], a[3]} == {b[2], b[3]}:
            return hard(a, b)
        if a[1] != b[1]:
            return byprov(a, b)
        if a[2] == b[2]:
            return diff(a[3], b[3])
        if a[3] == b[3]:
            return diff(a[2], b[2])
        if a[2] == b[3] or a[3] == b[2]:
            return byprov(a, b)
        return kids(a, b, a[2:], b[2:])
    if k == "vec":
        return diff(a[1], b[1]) + diff(a[2], b[2])
    if k == "seq":
        return dseg(a[1], b[1])
    if k in ("and", "or"):
        xs = [x for x in a[1] if x not in b[1]]
        ys = [y for y in b[1] if y not in a[1]]
        if len(xs) == len(ys):
            return kids(a, b, xs, ys)
        if not xs or not ys:
            return hard(a, b)
        return byprov(a, b)
    if k in ("tuple", "row"):
        if len(a[1]) != len(b[1]):
            return hard(a, b)
        return kids(a, b, a[1], b[1])
    if k == "call":
        if a[1] != b[1] or len(a[2]) != len(b[2]) or [n for n, _ in a[3]] != [n for n, _ in b[3]]:
            if {a[1], b[1]} in ({"max", "min"}, {"logspace", "linspace"}, {"any", "all"}, {"exp", "log"},
                                {"log", "log10"}):
                return hard(a, b)
            return byprov(a, b)
        return kids(a, b, a[2], b[2]) + kids(a, b, [x for _, x in a[3]], [x for _, x in b[3]])
    xs = [x for x in a[1:] if isinstance(x, tuple)]
    ys = [x for x in b[1:] if isinstance(x, tuple)]
    if len(xs) != len(ys):
        return byprov(a, b)
    return kids(a, b, xs, ys)


def dseg(xs, ys):
    rx = list(xs)
    ry = []
    for y in ys:
        if y in rx:
            rx.remove(y)
        else:
            ry.append(y)
    if not rx and not ry:
        return [("soft", "the same entries in another order")]
    if len(rx) != len(ry):
        return byprov(("seq", tuple(rx)), ("seq", tuple(ry)))
    out = []
    for x, y in zip(rx, ry):
        if x[0] != y[0]:
            out += byprov(("seq", (x,)), ("seq", (y,)))
        elif x[0] in ("one", "cat"):
            out += diff(x[1], y[1])
        elif x[0] == "rep":
            out += diff(x[1], y[1]) + diff(x[2], y[2])
        else:
            d = diff(x[1], y[1])
            out += d + dseg(x[2], y[2]) if x[2] != y[2] else d
    return out


def atoms(t):
    return {a for m, _ in P.aspoly(t).items() for a, _ in m}


def dpoly(a, b):
    da, db = P.aspoly(a), P.aspoly(b)
    ra = {m: c for m, c in da.items() if db.get(m) != c}
    rb = {m: c for m, c in db.items() if da.get(m) != c}
    if atoms(a) <= atoms(b) or atoms(b) <= atoms(a):
        return hard(a, b)
    if len(ra) == 1 and len(rb) == 1:
        (ma, ca), = ra.items()
        (mb, cb), = rb.items()
        return dmono(ma, ca, mb, cb)
    if len(ra) == len(rb) and P.prov(a) == P.prov(b):
        # pair the terms that are computed from the same entries
        for key in KEYS:
            pairs = pairing(ra, rb, key)
            if pairs is not None:
                return [d for p in pairs for d in dmono(*p)]
        if len(ra) <= 4:
            # no pairing stands out: every one of them has to differ
            ds = [[d for x, y in zip(ra.items(), p) for d in dmono(*x, *y)] for p in permutations(rb.items())]
            return min(ds, key=lambda d: (any(x[0] == "hard" for x in d), len(d)))
    return byprov(a, b)


KEYS = (lambda m, c: P.prov(tuple(x for x in m if x[0][0] != "paren") or m),
        lambda m, c: P.prov(m),
        lambda m, c: (c, len(m)),
        lambda m, c: (c, P.prov(m)))


def pairing(ra, rb, key):
    out = []
    left = list(rb.items())
    for ma, ca in ra.items():
        c = [x for x in left if key(*x) == key(ma, ca)]
        if len(c) != 1:
            return None
        left.remove(c[0])
        out.append((ma, ca) + c[0])
    return out


def dmono(ma, ca, mb, cb):
    xa = [x for x in ma if x not in mb]
    xb = [x for x in mb if x not in ma]
    A, B = P.frompoly({ma: ca}), P.frompoly({mb: cb})
    if len(xa) == len(xb) and ca == cb:
        out = []
        for (p, e), (q, f) in zip(sorted(xa, key=repr), sorted(xb, key=repr)):
            if e != f:
                return byprov(A, B)
            out += diff(p, q)
        return out
    return byprov(A, B)
