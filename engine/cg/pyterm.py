"""Terms for the Python toolkit: vectors over rows, lists built by loops, masks,
with normal forms chosen so that rewritings of the same computation meet.

A term is a tuple whose first element names the constructor:
  ('num',Fraction) ('str',s) ('none',) ('bool',b) ('p',name) ('fv',n) ('b',k)
  ('NE',)                      number of fission events (rows = 2*NE)
  ('cell',column,row)          one table entry
  ('poly',((mono,coef),...))   arithmetic; mono = ((atom,exp),...)
  ('vec',n,body)               array of n elements, body under one binder
  ('seq',segs)                 list: ('one',t) ('cat',t) ('for',n,segs) ('if',c,segs) ('rep',t,n)
  ('cmp',op,a,b) ('not',c) ('and',cs) ('or',cs) ('ite',c,a,b)
  ('filt',x,mask) ('len',x) ('count',mask) ('sum',x) ('max',x) ...
  ('call',name,args,kwargs) ('tuple',items) ('row',items)
"""
from fractions import Fraction

BIND = {"vec", "for"}
LISTCOL = {"nEcm", "nElab", "gE", "ages", "ncm", "nlab", "preE", "preDir"}


class ShapeError(Exception):
    pass


def num(x):
    if isinstance(x, bool):
        return ("bool", x)
    return ("num", Fraction(x) if not isinstance(x, float) else Fraction(str(x)))


ZERO, ONE = num(0), num(1)
NE = ("NE",)
NONE = ("none",)
TWO_NE = ("poly", (((((("NE",), 1),)), Fraction(2)),))
TRUE, FALSE = ("bool", True), ("bool", False)


# ------------------------------------------------------------ arithmetic
def _key(t):
    return repr(t)


def aspoly(t):
    if t[0] == "poly":
        return dict(t[1])
    if t[0] == "num":
        return {(): t[1]} if t[1] else {}
    if t[0] == "bool":
        return {(): Fraction(int(t[1]))} if t[1] else {}
    return {((t, 1),): Fraction(1)}


def frompoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return ("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("poly", tuple(sorted(d.items(), key=_key)))


def padd(a, b):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + c
    return d


def pmul(a, b):
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            e = {}
            for at, x in m1 + m2:
                e[at] = e.get(at, 0) + x
            m = tuple(sorted(((k, v) for k, v in e.items() if v), key=_key))
            d[m] = d.get(m, 0) + c1 * c2
    return d


def ppow(t, e):
    """t**e for rational e"""
    d = aspoly(t)
    if e == 0:
        return ONE
    if e.denominator == 1 and e > 0 and (len(d) <= 1 or e <= 4):
        r = {(): Fraction(1)}
        for _ in range(int(e)):
            r = pmul(r, d)
        return frompoly(r)
    if len(d) == 1:
        (m, c), = d.items()
        if m == () and e.denominator == 1:
            return ("num", c ** int(e))
        if c == 1 or e.denominator == 1:
            cc = c ** int(e) if e.denominator == 1 else Fraction(1)
            return frompoly({tuple((at, x * e) for at, x in m): cc})
    if t[0] != "poly":
        return frompoly({((t, e),): Fraction(1)})
    # factors common to all terms go in front
    common = None
    for m in d:
        f = dict(m)
        common = f if common is None else {a: min(common[a], f[a]) for a in common if a in f}
    common = {a: x for a, x in common.items() if x}
    if common and e.denominator == 1:
        inv = {tuple(sorted(((a, -x) for a, x in common.items()), key=_key)): Fraction(1)}
        rest = ppow(frompoly(pmul(d, inv)), e)
        return frompoly(pmul({tuple(sorted(((a, x * e) for a, x in common.items()), key=_key)): Fraction(1)}, aspoly(rest)))
    return frompoly({((("paren", t), e),): Fraction(1)})


# ------------------------------------------------------------ generic map
def tmap(t, f, depth=0):
    """rebuild t through the smart constructors; f(leaf, depth) -> term or None"""
    r = f(t, depth)
    if r is not None:
        return r
    k = t[0]
    if k in ("num", "str", "none", "bool", "p", "fv", "b", "NE", "lv", "line", "const"):
        return t
    if k == "poly":
        d = {}
        for m, c in t[1]:
            cur = {(): c}
            for at, x in m:
                cur = pmul(cur, aspoly(ppow(_unparen(tmap(at, f, depth)), x)))
            d = padd(d, cur)
        return frompoly(d)
    if k == "paren":
        return ("paren", tmap(t[1], f, depth))
    if k == "vec":
        return vec(tmap(t[1], f, depth), tmap(t[2], f, depth + 1))
    if k == "seq":
        return seq(_smap(t[1], f, depth))
    if k == "cmp":
        return cmp_(t[1], tmap(t[2], f, depth), tmap(t[3], f, depth))
    if k == "not":
        return not_(tmap(t[1], f, depth))
    if k in ("and", "or"):
        return nary(k, [tmap(x, f, depth) for x in t[1]])
    if k == "ite":
        return ite(tmap(t[1], f, depth), tmap(t[2], f, depth), tmap(t[3], f, depth))
    if k == "idx":
        return idx(tmap(t[1], f, depth), tmap(t[2], f, depth))
    if k == "len":
        return length(tmap(t[1], f, depth))
    if k == "filt":
        return filt(tmap(t[1], f, depth), tmap(t[2], f, depth))
    if k == "count":
        return count(tmap(t[1], f, depth))
    if k == "sum":
        return total(tmap(t[1], f, depth))
    if k in ("tuple", "row"):
        return (k, tuple(tmap(x, f, depth) for x in t[1]))
    if k == "call":
        return ("call", t[1], tuple(tmap(x, f, depth) for x in t[2]),
                tuple((n, tmap(x, f, depth)) for n, x in t[3]))
    if k == "cell":
        return ("cell", t[1], tmap(t[2], f, depth))
    if k == "table":
        return t
    return (k,) + tuple(tmap(x, f, depth) if isinstance(x, tuple) and x and isinstance(x[0], str)
                        else x for x in t[1:])


def _smap(segs, f, depth):
    out = []
    for s in segs:
        if s[0] in ("one", "cat"):
            out.append((s[0], tmap(s[1], f, depth)))
        elif s[0] == "rep":
            out.append(("rep", tmap(s[1], f, depth), tmap(s[2], f, depth)))
        elif s[0] == "for":
            out.append(("for", tmap(s[1], f, depth), tuple(_smap(s[2], f, depth + 1))))
        elif s[0] == "if":
            out.append(("if", tmap(s[1], f, depth), tuple(_smap(s[2], f, depth))))
    return out


def _unparen(t):
    return t[1] if t[0] == "paren" else t


def shift(t, by, cut=0):
    if by == 0:
        return t
    return tmap(t, lambda x, d: ("b", x[1] + by) if x[0] == "b" and x[1] >= cut + d else None)


def abstract(t, fv):
    """close t over the free variable fv"""
    t = shift(t, 1)
    return tmap(t, lambda x, d: ("b", d) if x == fv else None)


def instantiate(body, v):
    def f(x, d):
        if x[0] == "b":
            if x[1] == d:
                return shift(v, d)
            if x[1] > d:
                return ("b", x[1] - 1)
        return None
    return tmap(body, f)


def subst(t, old, new):
    return tmap(t, lambda x, d: shift(new, d) if x == shift(old, d) else None)


_fv = [0]


def fresh():
    _fv[0] += 1
    return ("fv", _fv[0])


def free(t, fv):
    if t == fv:
        return True
    return any(free(x, fv) for x in t if isinstance(x, tuple))


# ------------------------------------------------------------ constructors
def vec(n, body):
    return ("vec", n, body)


def isvec(t):
    return t[0] == "vec"


def islist(t):
    return t[0] == "seq" or (t[0] == "cell" and t[1] in LISTCOL) or \
        (t[0] == "call" and t[1] in ("list", "tolist")) or (t[0] == "ite" and islist(t[2]))


def lift(fn, *args):
    """apply fn element-wise over the vectors among args"""
    vs = [a for a in args if isvec(a)]
    if not vs:
        ts = [a for a in args if a[0] == "T"]
        if ts:
            # transposed matrix against a row of per-row values
            inner = [a[1] if a[0] == "T" else a for a in args]
            return ("T", lift(fn, *inner))
        rows = [a for a in args if a[0] == "row"]
        if rows:
            w = len(rows[0][1])
            return ("row", tuple(lift(fn, *[a[1][i] if a[0] == "row" else a for a in args])
                                 for i in range(w)))
        return fn(*args)
    n = vs[0][1]
    for v in vs[1:]:
        if v[1] != n:
            if definite(v[1]) and definite(n):
                raise ShapeError("arrays of %s and %s elements are combined element by element"
                                 % (show(n), show(v[1])))
            n = ("call", "samelen", tuple(sorted((n, v[1]), key=_key)), ())
    x = fresh()
    body = lift(fn, *[instantiate(a[2], x) if isvec(a) else a for a in args])
    return vec(n, abstract(body, x))


def definite(n):
    """a length that is a polynomial in the number of events"""
    d = aspoly(n)
    return all(m == () or m == ((NE, 1),) for m in d)


def add(a, b):
    def f(x, y):
        if islist(x) or islist(y):
            return seq(aslist(x) + aslist(y))
        return frompoly(padd(aspoly(x), aspoly(y)))
    if islist(a) and islist(b):
        return seq(aslist(a) + aslist(b))
    return lift(f, a, b)


def neg(a):
    return lift(lambda x: frompoly({m: -c for m, c in aspoly(x).items()}), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a[0] == "seq" and not isvec(b):
        return seq([("rep", a, b)])
    if b[0] == "seq" and not isvec(a):
        return seq([("rep", b, a)])
    return lift(lambda x, y: frompoly(pmul(aspoly(x), aspoly(y))), a, b)


def power(a, b):
    if b[0] == "num":
        return lift(lambda x: ppow(x, b[1]), a)
    return lift(lambda x, y: ("call", "pow", (x, y), ()), a, b)


def div(a, b):
    return mul(a, power(b, num(-1)))


def arr(t):
    """a list entry of the table, seen as an array of its elements"""
    if t[0] == "cell" and t[1] in LISTCOL:
        return vec(length(t), ("idx", shift(t, 1), ("b", 0)))
    return t


FLIP = {"<": ">", "<=": ">="}


def cmp_(op, a, b):
    a, b = arr(a), arr(b)

    def f(x, y):
        o = op
        if o in FLIP:
            o, x, y = FLIP[o], y, x
        if o in ("==", "!=") and _key(x) > _key(y):
            x, y = y, x
        if x[0] in ("num", "bool", "str", "none") and y[0] in ("num", "bool", "str", "none"):
            try:
                r = {"==": x == y, "!=": x != y, ">": x[-1] > y[-1] if x[0] == y[0] else None,
                     ">=": x[-1] >= y[-1] if x[0] == y[0] else None}[o]
                if r is not None:
                    return ("bool", bool(r))
            except Exception:
                pass
        if o == "!=":
            return not_(cmp_("==", x, y))
        # counts are whole and never negative
        if iscount(x) and y[0] == "num":
            if o == ">=" and y[1] == 1:
                o, y = ">", ZERO
            if o == "==" and y[1] == 0:
                return not_(("cmp", ">", x, ZERO))
        if iscount(y) and x[0] == "num":
            if o == ">=" and x[1] == 0:
                return not_(("cmp", ">", y, ZERO))
            if o == ">" and x[1] == 1:
                return not_(("cmp", ">", y, ZERO))
            if o == "==" and x[1] == 0:
                return not_(("cmp", ">", y, ZERO))
        return ("cmp", o, x, y)
    return lift(f, a, b)


def iscount(t):
    return t[0] in ("len", "count", "NE") or (t[0] == "cell" and t[1] in ("nu", "nug", "preNu")) \
        or (t[0] == "tokn") or \
        (t[0] == "poly" and all(c > 0 and c.denominator == 1 and all(e > 0 and iscount(a) for a, e in m)
                                for m, c in t[1]))


def not_(c):
    def f(x):
        if x[0] == "bool":
            return ("bool", not x[1])
        if x[0] == "not":
            return x[1]
        if x[0] == "cmp" and x[1] == ">" and not (iscount(x[2]) and x[3] == ZERO):
            return ("cmp", ">=", x[3], x[2])
        if x[0] == "cmp" and x[1] == ">=":
            return ("cmp", ">", x[3], x[2])
        if x[0] in ("and", "or"):
            return nary("or" if x[0] == "and" else "and", [not_(y) for y in x[1]])
        return ("not", x)
    return lift(f, c)


def nary(k, xs):
    def f(*ys):
        out = []
        for y in ys:
            if y[0] == k:
                out += list(y[1])
            elif y == (TRUE if k == "and" else FALSE):
                continue
            elif y == (FALSE if k == "and" else TRUE):
                return y
            else:
                out.append(y)
        out = sorted(set(out), key=_key)
        if not out:
            return TRUE if k == "and" else FALSE
        return out[0] if len(out) == 1 else (k, tuple(out))
    return lift(f, *xs)


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if c[0] == "not":
        return ite(c[1], b, a)
    if c[0] == "cmp" and c[1] == ">=":      # one orientation
        return ite(("cmp", ">", c[3], c[2]), b, a) if not iscount(c[3]) else ("ite", c, a, b)
    return ("ite", c, a, b)


def aslist(t):
    if t[0] == "seq":
        return list(t[1])
    if t[0] == "cell":
        return [("cat", t)]
    return [("cat", t)]


def seq(segs):
    out = []
    for s in segs:
        if s[0] == "cat":
            x = s[1]
            if x[0] == "seq":
                out += list(x[1])
                continue
        if s[0] == "for" and s[1] == ZERO:
            continue
        if s[0] == "for" and s[1] == TWO_NE and not (len(s[2]) == 1 and s[2][0][0] == "one"):
            # all fragments: light and heavy one of each event, in the same order
            y = fresh()
            b = []
            for k in (0, 1):
                b += list(instantiate(("seq", s[2]), add(mul(num(2), y), num(k)))[1])
            s = ("for", NE, abstract(("seq", tuple(b)), y)[1])
        if s[0] in ("for", "if") and not s[2]:
            continue
        if s[0] == "rep" and s[2] == ONE:
            out += aslist(s[1])
            continue
        out.append(s)
    return ("seq", tuple(out))


def isplainvec(t):
    """seq that is exactly one loop appending one element per turn"""
    return t[0] == "seq" and len(t[1]) == 1 and t[1][0][0] == "for" and \
        len(t[1][0][2]) == 1 and t[1][0][2][0][0] == "one"


def toarray(t):
    if isplainvec(t):
        s = t[1][0]
        return vec(s[1], s[2][0][1])
    return t


def length(t):
    if t[0] == "vec":
        return t[1]
    if t[0] == "filt":
        return count(t[2])
    if t[0] == "cell" and t[1] in ("nEcm", "nElab", "ncm", "nlab"):
        return ("cell", "nu", t[2])
    if t[0] == "cell" and t[1] in ("gE", "ages"):
        return ("cell", "nug", t[2])
    if t[0] == "seq":
        n = ZERO
        for s in t[1]:
            if s[0] == "one":
                n = add(n, ONE)
            elif s[0] == "rep":
                n = add(n, mul(length(s[1]), s[2]))
            elif s[0] == "cat" and s[1][0] == "cell":
                n = add(n, length(s[1]))
            elif s[0] == "for" and len(s[2]) == 1 and s[2][0][0] == "one":
                n = add(n, s[1])
            else:
                return ("len", t)
        return n
    if t[0] == "table":
        return mul(num(2), NE)
    if t[0] in ("tuple", "row"):
        return num(len(t[1]))
    if t[0] == "ite":
        return ite(t[1], length(t[2]), length(t[3]))
    if t[0] == "call" and t[1] in ("zeros", "ones", "empty"):
        return t[2][0]
    if t[0] == "slice" and t[3] != NONE and t[4] == NONE:
        return sub(t[3], t[2] if t[2] != NONE else ZERO)
    if t[0] in ("upd", "updfor"):
        return length(t[1])
    return ("len", t)


def halves(t):
    """a vector over all fragments as its light and its heavy half"""
    if t[0] == "vec" and t[1] == mul(num(2), NE):
        y = fresh()
        return [vec(NE, abstract(instantiate(t[2], add(mul(num(2), y), num(k))), y)) for k in (0, 1)]
    return None


def count(m):
    h = halves(m)
    if h:
        return add(count(h[0]), count(h[1]))
    return ("count", m)


def total(t):
    if t[0] == "vec" and t[2][0] in ("cmp", "and", "or", "not"):
        return count(t)
    if t[0] in ("cmp", "and", "or", "not"):
        return count(t)
    if t[0] == "vec" and t[2][0] == "ite":
        leaves = []

        def walk(x, conds):
            if x[0] == "ite":
                walk(x[2], conds + [x[1]])
                walk(x[3], conds + [not_(x[1])])
            else:
                leaves.append((x, conds))
        walk(t[2], [])
        if all(x[0] == "num" for x, _ in leaves):
            r = ZERO
            for x, cs in leaves:
                if x != ZERO:
                    r = add(r, mul(x, count(vec(t[1], nary("and", cs)))))
            return r
    if t[0] == "seq" and len(t[1]) == 1 and t[1][0][0] == "for" and len(t[1][0][2]) == 1 and \
            t[1][0][2][0][0] == "if" and t[1][0][2][0][2] == (("one", ONE),):
        return count(vec(t[1][0][1], t[1][0][2][0][1]))
    if t[0] == "vec":
        if t[2][0] == "num":
            return mul(t[1], t[2])
        if t[1][0] == "num" and t[1][1] <= 8:
            r = ZERO
            for k in range(int(t[1][1])):
                r = add(r, instantiate(t[2], num(k)))
            return r
        h = halves(t)
        if h and not islist(t[2]):
            return add(total(h[0]), total(h[1]))
        if t[2][0] == "poly":
            r = ZERO
            for m, c in t[2][1]:
                body = frompoly({m: Fraction(1)})
                r = add(r, mul(("num", c), t[1] if m == () else ("sum", vec(t[1], body))))
            return r
    return ("sum", t)


def mean(t):
    return div(total(t), length(t))


def filt(x, m):
    if x[0] == "filt" and False:
        pass
    return ("filt", x, m)


def ismask(m):
    if m[0] in ("cmp", "and", "or", "not"):
        return True
    if m[0] == "vec":
        return ismask(m[2])
    return False


def idx(x, i):
    if x[0] == "vec":
        if ismask(i):
            return filt(x, i)
        if i[0] in ("call", "seq", "vec", "slicek", "name", "tuple", "str", "range"):
            return ("gather", x, i)
        d = aspoly(i)
        c = d.get((), None)
        if len(d) == 1 and c is not None and c < 0:
            i = add(x[1], i)
        return instantiate(x[2], i)
    if ismask(i):
        return filt(x, i)
    if x[0] in ("tuple", "row") and i[0] == "num":
        return x[1][int(i[1])]
    if x[0] == "seq" and i[0] == "num" and all(s[0] == "one" for s in x[1]):
        return x[1][int(i[1])][1]
    if isplainvec(x):
        return idx(toarray(x), i)
    if x[0] == "ite":
        return ite(x[1], idx(x[2], i), idx(x[3], i))
    if x[0] == "slice" and not ismask(i):
        st = x[4] if x[4] != NONE else ONE
        lo = x[2] if x[2] != NONE else ZERO
        return idx(x[1], add(lo, mul(st, i)))
    return ("idx", x, i)


def slice_(x, lo, hi, step):
    """x[lo:hi:step], all terms or None"""
    if x[0] == "vec" and (hi is None or hi == NONE):
        s = step[1] if step and step[0] == "num" else (Fraction(1) if step is None else None)
        a = lo[1] if lo and lo[0] == "num" else (Fraction(0) if lo is None else None)
        if s is not None and a is not None and s >= 1 and a >= 0:
            n = x[1]
            d = aspoly(sub(n, num(a)))
            e = d.get(((NE, 1),), Fraction(0))
            c = d.get((), Fraction(0))
            if s == 1:
                m = sub(n, num(a))
            elif definite(n) and s == 2 and e == 2 and a in (0, 1):
                m = NE
            else:
                m = ("call", "ceildiv", (sub(n, num(a)), num(s)), ())
            y = fresh()
            return vec(m, abstract(instantiate(x[2], add(mul(num(s), y), num(a))), y))
    if x[0] == "vec" and hi is not None and step is None and lo is None:
        if hi[0] == "num" and hi[1] < 0:
            return vec(add(x[1], hi), x[2])
        return vec(("call", "min", (x[1], hi), ()), x[2])
    return ("slice", x, lo or NONE, hi or NONE, step or NONE)


# ------------------------------------------------------------ printing / provenance
def show(t):
    k = t[0]
    if k == "num":
        return str(float(t[1])) if t[1].denominator != 1 else str(t[1])
    if k == "NE":
        return "#events"
    if k == "str":
        return repr(t[1])
    if k == "none":
        return "None"
    if k == "bool":
        return str(t[1])
    if k == "p":
        return t[1]
    if k == "b":
        return "i%d" % t[1]
    if k == "fv":
        return "v%d" % t[1]
    if k == "cell":
        return "%s[%s]" % (t[1], show(t[2]))
    if k == "poly":
        out = []
        for m, c in t[1]:
            fs = []
            for at, e in m:
                s = show(at)
                fs.append(s if e == 1 else "%s^%s" % (s, e))
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator == 1 else str(float(c)))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if k == "paren":
        return show(t[1])
    if k == "vec":
        return "[%s for i0<%s]" % (show(t[2]), show(t[1]))
    if k == "seq":
        return "[" + ", ".join(_sshow(s) for s in t[1]) + "]"
    if k == "cmp":
        return "%s %s %s" % (show(t[2]), t[1], show(t[3]))
    if k == "not":
        return "not(%s)" % show(t[1])
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(show(x) for x in t[1]) + ")"
    if k == "ite":
        return "(%s if %s else %s)" % (show(t[2]), show(t[1]), show(t[3]))
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join([show(x) for x in t[2]] +
                                           ["%s=%s" % (n, show(x)) for n, x in t[3]]))
    if k in ("tuple", "row"):
        return "(" + ", ".join(show(x) for x in t[1]) + ")"
    if k == "filt":
        return "%s{where %s}" % (show(t[1]), show(t[2]))
    if k == "tok" or k == "tokn":
        return "line%s[%s]" % (t[1], show(t[2]))
    return "%s(%s)" % (k, ", ".join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str)
                                    else str(x) for x in t[1:]))


def _sshow(s):
    if s[0] == "one":
        return show(s[1])
    if s[0] == "cat":
        return "*" + show(s[1])
    if s[0] == "rep":
        return "*%s times %s" % (show(s[1]), show(s[2]))
    return "%s %s: {%s}" % (s[0], show(s[1]), ", ".join(_sshow(x) for x in s[2]))


def prov(t):
    """which table entries a term is computed from: {(column, 'even'|'odd'|'all')}"""
    out = set()

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == "cell":
                d = aspoly(x[2])
                c = d.get((), Fraction(0))
                lin = [(m, v) for m, v in d.items() if m]
                if all(v.denominator == 1 and v % 2 == 0 for m, v in lin) and lin and \
                        all(len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ("b", "fv") for m, v in lin):
                    out.add((x[1], "even" if c % 2 == 0 else "odd"))
                else:
                    out.add((x[1], "all"))
                walk(x[2])
                return
            for y in x:
                walk(y)
    walk(t)
    for lists, n in ((("nElab", "nEcm", "ncm", "nlab"), "nu"), (("gE", "ages"), "nug"), (("preE", "preDir"), "preNu")):
        ps = {p for c, p in out if c in lists}     # the number of entries of a list is part of the list
        if ps:
            out = {(c, p) for c, p in out if c != n or (p not in ps and "all" not in ps)}
    cols = {c for c, p in out}
    for c in cols:
        ps = {p for cc, p in out if cc == c}
        if "all" in ps or {"even", "odd"} <= ps:
            out = {(cc, p) for cc, p in out if cc != c} | {(c, "all")}
    return out
