"""Term domain: polynomials over interned atoms (reals), ROBDD conditions, pointers."""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

_atoms = []
_atomid = {}


def atom(*t):
    i = _atomid.get(t)
    if i is None:
        i = len(_atoms)
        _atoms.append(t)
        _atomid[t] = i
    return i


def atom_of(i):
    return _atoms[i]


_REL = Fraction(1, 10**12)


class Poly:
    __slots__ = ("t", "_key", "_h")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._h = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        r = dict(self.t)
        for m, c in o.t.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                s = x + c
                if s == 0 or abs(s) < _REL * max(abs(x), abs(c)):
                    del r[m]
                else:
                    r[m] = s
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __mul__(self, o):
        o = P(o)
        if len(self.t) * len(o.t) > 4000:
            return var("bigmul", self, o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mm(m1, m2)
                c = c1 * c2
                x = r.get(m)
                if x is None:
                    r[m] = c
                else:
                    s = x + c
                    if s == 0 or abs(s) < _REL * max(abs(x), abs(c)):
                        del r[m]
                    else:
                        r[m] = s
        p = Poly(r)
        return _redsqrt(p)

    def const(self):
        """Fraction if constant else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == ():
                return c
        return None

    def c0(self):
        return self.t.get((), Fraction(0))

    def single(self):
        """atom id if this is exactly one atom with coefficient 1, else None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


def _mm(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n == 0:
            del d[x]
        else:
            d[x] = n
    return tuple(sorted(d.items()))


def _redsqrt(p):
    again = None
    for m in p.t:
        for a, e in m:
            if abs(e) >= 2 and atom_of(a)[0] == "fn" and atom_of(a)[1] == "sqrt":
                again = (m, a, e)
                break
        if again:
            break
    if not again:
        return p
    r = Poly({})
    for m, c in p.t.items():
        q = Poly({(): c})
        for a, e in m:
            at = atom_of(a)
            if abs(e) >= 2 and at[0] == "fn" and at[1] == "sqrt":
                inner = at[2][0]
                k, odd = divmod(abs(e), 2)
                f = inner if e > 0 else div(ONE, inner)
                for _ in range(k):
                    q = q * f
                if odd:
                    q = q * Poly({((a, 1 if e > 0 else -1),): Fraction(1)})
            else:
                q = q * Poly({((a, e),): Fraction(1)})
        r = r + q
    return r


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, float):
        return P(Fraction(x))
    raise TypeError(repr(x))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def var(*t):
    return Poly({((atom(*t), 1),): Fraction(1)})


def div(a, b):
    a = P(a); b = P(b)
    c = b.const()
    if c is not None:
        if c == 0:
            return var("div0", a)
        return Poly({m: x / c for m, x in a.t.items()})
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return a * Poly({tuple((x, -e) for x, e in m): 1 / c})
    # normalise: leading coefficient 1, and factor out common monomial-free scale
    lead = b.key[0][1]
    bn = Poly({m: x / lead for m, x in b.t.items()})
    return a * Poly({((atom("inv", bn), 1),): 1 / lead})


def fn(name, *args):
    """pure real function of polys"""
    ks = tuple(args)
    if name == "sqrt":
        c = args[0].const()
        if c is not None and c >= 0:
            import math
            r = Fraction(math.sqrt(c))
            if r * r == c:
                return P(r)
            return P(r)
    if name == "pow":
        e = args[1].const()
        if e is not None and e.denominator == 1 and 0 <= e <= 8:
            r = ONE
            for _ in range(int(e)):
                r = r * args[0]
            return r
        if e == Fraction(1, 2):
            return fn("sqrt", args[0])
    if name in ("sin", "cos", "exp", "log", "atan", "tan") and args[0].const() is not None:
        import math
        try:
            return P(Fraction(getattr(math, name)(float(args[0].const()))))
        except (ValueError, OverflowError):
            pass
    if name == "fabs":
        c = args[0].const()
        if c is not None:
            return P(abs(c))
    if name in ("idiv", "irem", "toint", "iceil", "ifloor") and all(a.const() is not None for a in args):
        x = args[0].const()
        if name in ("idiv", "irem"):
            d = args[1].const()
            if d != 0:
                q = abs(x) // abs(d)
                q = q if (x < 0) == (d < 0) else -q
                return P(q if name == "idiv" else x - q * d)
        elif name == "toint":
            return P(int(x))
        else:
            return P(-((-x.numerator) // x.denominator) if name == "iceil" else x.numerator // x.denominator)
    return var("fn", name, ks)


def unkey(k):
    return Poly(dict(k))


# ------------------------------------------------------------------ rational zero test
def clear(p, limit=60):
    """multiply out denominators; returns a numerator polynomial without inv/negative powers"""
    for _ in range(limit):
        inv = None
        for m in p.t:
            for a, e in m:
                if e < 0 or atom_of(a)[0] == "inv":
                    inv = (a, e)
                    break
            if inv:
                break
        if inv is None:
            return p
        a, _e = inv
        if atom_of(a)[0] == "inv":
            q = atom_of(a)[1]
            mx = max(dict(m).get(a, 0) for m in p.t)
            if mx <= 0:  # inv to negative powers == q^k
                r = ZERO
                for m, c in p.t.items():
                    d = dict(m); e = d.pop(a, 0)
                    z = Poly({tuple(sorted(d.items())): c})
                    for _k in range(-e):
                        z = z * q
                    r = r + z
                p = r
                continue
            r = ZERO
            for m, c in p.t.items():
                d = dict(m); e = d.pop(a, 0)
                z = Poly({tuple(sorted(d.items())): c})
                for _k in range(mx - e):
                    z = z * q
                r = r + z
            p = r
        else:
            mn = min(dict(m).get(a, 0) for m in p.t)
            p = Poly({_mm(m, ((a, -mn),)): c for m, c in p.t.items()})
    return p


def _lift(p, depth=0):
    """expand ite atoms: -> (node-indexed) MTBDD value or Poly"""
    for m in p.t:
        for a, e in m:
            if atom_of(a)[0] == "ite" and e >= 1:
                _, node, ka, kb = atom_of(a)
                return node.n, subst(p, {a: ka}), subst(p, {a: kb})
    return None


def distribute(p, depth=0):
    """push the polynomial context of every case distinction into its branches"""
    l = _lift(p) if depth < 8 else None
    if l is None:
        return p
    n, a, b = l
    return ite(n, distribute(a, depth + 1), distribute(b, depth + 1))


def subst(p, mp):
    """substitute atom ids by polys (top level and inside fn/inv/ite/ld keys not rebuilt)"""
    if not (p.atoms() & set(mp)):
        return p
    r = ZERO
    for m, c in p.t.items():
        z = Poly({(): c})
        for a, e in m:
            if a in mp:
                v = mp[a]
                if e < 0:
                    v = div(ONE, v)
                for _ in range(abs(e)):
                    z = z * v
            else:
                z = z * Poly({((a, e),): Fraction(1)})
        r = r + z
    return r


def is_zero(p, care=None, depth=0):
    """p == 0 under every assignment of the conditions it mentions (within care)"""
    if not p.t:
        return True
    l = _lift(p) if depth < 14 else None
    if l is not None:
        n, a, b = l
        care = TRUE if care is None else care
        ct = bdd_and(care, n); cf = bdd_and(care, bdd_not(n))
        return (ct == FALSE or is_zero(a, ct, depth + 1)) and (cf == FALSE or is_zero(b, cf, depth + 1))
    q = clear(p)
    return not q.t


def equal(a, b, care=None):
    if a == b:
        return True
    return is_zero(P(a) - P(b), care)


# ------------------------------------------------------------------ ROBDD
FALSE, TRUE = 0, 1
_bn = [None, None]
_bt = {}
_conds = []
_condid = {}
_itec = {}


def cond_atom(*t):
    i = _condid.get(t)
    if i is None:
        i = len(_conds)
        _conds.append(t)
        _condid[t] = i
    return i


def cond_of(i):
    return _conds[i]


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _bt.get(k)
    if n is None:
        n = len(_bn)
        _bn.append(k)
        _bt[k] = n
    return n


def bvar(*t):
    return _mk(cond_atom(*t), FALSE, TRUE)


def bdd_ite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = (f, g, h)
    r = _itec.get(k)
    if r is not None:
        return r
    v = min(_bn[x][0] for x in (f, g, h) if x > 1)

    def cof(x, b):
        if x > 1 and _bn[x][0] == v:
            return _bn[x][2] if b else _bn[x][1]
        return x
    r = _mk(v, bdd_ite(cof(f, 0), cof(g, 0), cof(h, 0)), bdd_ite(cof(f, 1), cof(g, 1), cof(h, 1)))
    _itec[k] = r
    return r


def bdd_not(f):
    return bdd_ite(f, FALSE, TRUE)


def bdd_and(f, g):
    return bdd_ite(f, g, FALSE)


def bdd_or(f, g):
    return bdd_ite(f, TRUE, g)


def bdd_support(f):
    s = set(); seen = set(); st = [f]
    while st:
        x = st.pop()
        if x <= 1 or x in seen:
            continue
        seen.add(x)
        v, lo, hi = _bn[x]
        s.add(v); st += [lo, hi]
    return s


def bdd_size(f):
    seen = set(); st = [f]
    while st:
        x = st.pop()
        if x <= 1 or x in seen:
            continue
        seen.add(x)
        st += [_bn[x][1], _bn[x][2]]
    return len(seen)


def bdd_implies(f, g):
    return bdd_and(f, bdd_not(g)) == FALSE


def implied_literals(f):
    """[(cond tuple, polarity)] for every literal implied by f (f satisfiable)"""
    out = []
    if f == FALSE:
        return out
    for v in sorted(bdd_support(f)):
        x = _mk(v, FALSE, TRUE)
        if bdd_and(f, bdd_not(x)) == FALSE:
            out.append((_conds[v], True))
        elif bdd_and(f, x) == FALSE:
            out.append((_conds[v], False))
    return out


def bdd_cofactor(f, v, val):
    """restrict condition atom index v"""
    if f <= 1:
        return f
    x, lo, hi = _bn[f]
    if x == v:
        return hi if val else lo
    return bdd_ite(_mk(x, FALSE, TRUE), bdd_cofactor(hi, v, val), bdd_cofactor(lo, v, val))


def bdd_top(f):
    return _bn[f]


def bdd_constrain(f, c):
    """generalised cofactor: agrees with f wherever c holds"""
    if c == TRUE or c == FALSE or f <= 1:
        return f
    if f == c:
        return TRUE
    k = ("con", f, c)
    r = _itec.get(k)
    if r is not None:
        return r
    v = min(_bn[f][0], _bn[c][0])

    def cof(x, b):
        if x > 1 and _bn[x][0] == v:
            return _bn[x][2] if b else _bn[x][1]
        return x
    c1 = cof(c, 1); c0 = cof(c, 0)
    if c1 == FALSE:
        r = bdd_constrain(cof(f, 0), c0)
    elif c0 == FALSE:
        r = bdd_constrain(cof(f, 1), c1)
    else:
        r = _mk(v, bdd_constrain(cof(f, 0), c0), bdd_constrain(cof(f, 1), c1))
    _itec[k] = r
    return r


# ------------------------------------------------------------------ deep substitution
def dsubst(v, mp, memo=None):
    """replace atoms (by id, anywhere: inside functions, conditions, indices) by values"""
    if memo is None:
        memo = {}
    if isinstance(v, Poly):
        k = ("p", v)
        if k in memo:
            return memo[k]
        r = ZERO
        ch = False
        for m, c in v.t.items():
            z = Poly({(): c})
            for a, e in m:
                w = _dsatom(a, mp, memo)
                if w is None:
                    z = z * Poly({((a, e),): Fraction(1)})
                else:
                    ch = True
                    if not isinstance(w, Poly):
                        w = var("val", w)
                    if e < 0:
                        w = div(ONE, w)
                    for _ in range(abs(e)):
                        z = z * w
            r = r + z
        r = r if ch else v
        memo[k] = r
        return r
    if isinstance(v, Bd):
        return Bd(_dsbdd(v.n, mp, memo))
    if isinstance(v, Ptr):
        return Ptr(dsubst(v.base, mp, memo), dsubst(v.off, mp, memo), v.ty, None if v.fld is None else dsubst(v.fld, mp, memo))
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "P" and isinstance(v[1], int):
            w = _dsatom(v[1], mp, memo)
            if w is None:
                return v
            if isinstance(w, Ptr) and not w.off.t:
                return w.base
            s = w.single() if isinstance(w, Poly) else None
            return ("P", s) if s is not None else ("dv", w)
        n = tuple(dsubst(x, mp, memo) for x in v)
        return n if any(a is not b for a, b in zip(n, v)) else v
    return v


def _dsatom(a, mp, memo):
    if a in mp:
        return mp[a]
    k = ("a", a)
    if k in memo:
        return memo[k]
    memo[k] = None
    t = atom_of(a)
    n = tuple(dsubst(x, mp, memo) for x in t[1:])
    if all(x is y for x, y in zip(n, t[1:])):
        r = None
    elif t[0] == "fn":
        r = fn(n[0], *n[1])
    elif t[0] == "inv":
        r = div(ONE, n[0])
    elif t[0] == "ite":
        r = _pite(n[0].n, n[1], n[2])
    else:
        r = var(t[0], *n)
    memo[k] = r
    return r


def _dsbdd(f, mp, memo):
    if f <= 1:
        return f
    k = ("b", f)
    if k in memo:
        return memo[k]
    v, lo, hi = _bn[f]
    c = _conds[v]
    n = tuple(dsubst(x, mp, memo) for x in c)
    if all(x is y for x, y in zip(n, c)):
        x = _mk(v, FALSE, TRUE)
    elif c[0] == "lt":
        x = ilt0(n[1]) if c[2:] == ("i",) else lt0(n[1])
    elif c[0] == "eq":
        x = eq0(n[1])
    else:
        x = bvar(*n)
    r = bdd_ite(x, _dsbdd(hi, mp, memo), _dsbdd(lo, mp, memo))
    memo[k] = r
    return r


def deep_atoms(v, out=None, seen=None):
    """every atom id reachable from a value"""
    if out is None:
        out = set(); seen = set()
    if isinstance(v, Poly):
        for a in v.atoms():
            if a not in out:
                out.add(a)
                for x in atom_of(a)[1:]:
                    deep_atoms(x, out, seen)
    elif isinstance(v, Bd):
        for c in bdd_support(v.n):
            if ("c", c) not in seen:
                seen.add(("c", c))
                for x in _conds[c][1:]:
                    deep_atoms(x, out, seen)
    elif isinstance(v, Ptr):
        deep_atoms(v.base, out, seen); deep_atoms(v.off, out, seen)
    elif isinstance(v, tuple):
        if len(v) == 2 and v[0] == "P" and isinstance(v[1], int):
            if v[1] not in out:
                out.add(v[1])
                for x in atom_of(v[1])[1:]:
                    deep_atoms(x, out, seen)
        else:
            for x in v:
                deep_atoms(x, out, seen)
    return out


class Bd:
    """an i1 value"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Bd) and o.n == self.n

    def __hash__(self):
        return hash(("bd", self.n))

    @property
    def key(self):
        return ("bd", self.n)

    def __repr__(self):
        return "B{%s}" % show_cond(self.n)


def lt0(p):
    """condition p < 0"""
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    s = p.single()
    l = _const_ite(p)
    if l is not None:
        n, a, b = l
        return bdd_ite(n, lt0(a), lt0(b))
    return bvar("lt", _scale(p))


def ilt0(p):
    """integer p < 0: canonical up to p<0 <=> not(-p-1<0)"""
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    l = _const_ite(p)
    if l is not None:
        n, a, b = l
        return bdd_ite(n, ilt0(a), ilt0(b))
    lead = next(c for m, c in p.key if m != ())
    if lead < 0:
        q = -p - ONE     # p<0  <=>  p<=-1 <=> -p-1>=0 <=> not(-p-1<0)
        return bdd_not(bvar("lt", q, "i"))
    return bvar("lt", p, "i")


def _scale(p):
    lead = abs(next(c for m, c in p.key if m != ()))
    return p if lead == 1 else Poly({m: c / lead for m, c in p.t.items()})


def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    l = _const_ite(p)
    if l is not None:
        n, a, b = l
        return bdd_ite(n, eq0(a), eq0(b))
    lead = next(c for m, c in p.key if m != ())
    if lead != 1:
        p = Poly({m: c / lead for m, c in p.t.items()})
    return bvar("eq", p)


def _const_ite(p):
    """p is c + k*ite(n, const/ite.., const/ite..) -> split"""
    its = [a for a in p.atoms()]
    if len(its) == 1 and atom_of(its[0])[0] == "ite" and all(sum(e for _, e in m) <= 1 for m in p.t):
        _, n, a, b = atom_of(its[0])
        return n.n, subst(p, {its[0]: a}), subst(p, {its[0]: b})
    return None


def ite(n, a, b):
    """a if n else b, on Poly/Bd/Ptr"""
    if n == TRUE:
        return a
    if n == FALSE:
        return b
    if a == b:
        return a
    if isinstance(a, Bd) and isinstance(b, Bd):
        return Bd(bdd_ite(n, a.n, b.n))
    if isinstance(a, Poly) and isinstance(b, Poly):
        return _pite(n, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.base == b.base:
            return Ptr(a.base, _pite(n, a.off, b.off), a.ty or b.ty, a.fld if a.fld == b.fld else None)
        return Ptr(("ite", Bd(n), a, b), ZERO, a.ty or b.ty)
    return var("mix", Bd(n), a, b)


def _top(p):
    s = p.single()
    if s is not None:
        t = atom_of(s)
        if t[0] == "ite":
            return t
    return None


def _pite(n, a, b):
    if n == TRUE:
        return a
    if n == FALSE:
        return b
    if a == b:
        return a
    # canonical multi-terminal BDD
    vs = [_bn[n][0]]
    ta = _top(a); tb = _top(b)
    if ta:
        vs.append(_bn[ta[1].n][0])
    if tb:
        vs.append(_bn[tb[1].n][0])
    v = min(vs)

    def cofn(x, bit):
        return (_bn[x][2] if bit else _bn[x][1]) if x > 1 and _bn[x][0] == v else x

    def cofp(p, t, bit):
        if t and _bn[t[1].n][0] == v:
            # t[1] is a single-variable node by construction
            return t[2] if bit else t[3]
        return p
    hi = _pite(cofn(n, 1), cofp(a, ta, 1), cofp(b, tb, 1))
    lo = _pite(cofn(n, 0), cofp(a, ta, 0), cofp(b, tb, 0))
    if hi == lo:
        return hi
    return var("ite", Bd(_mk(v, FALSE, TRUE)), hi, lo)


class Ptr:
    """pointer = base object + byte offset polynomial; ty = debug-info type of the pointee if known;
    fld = offset of the member last selected on the way to it (which of two neighbouring arrays is indexed), if known"""
    __slots__ = ("base", "off", "ty", "fld")

    def __init__(self, base, off=ZERO, ty=None, fld=None):
        self.base = base; self.off = off; self.ty = ty; self.fld = fld

    @property
    def key(self):
        return ("ptr", self.base, self.off.key)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show_ptr(self)


# ------------------------------------------------------------------ printing
_namer = [None]


def show_atom(a):
    t = atom_of(a)
    k = t[0]
    if k == "fn":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    if k == "inv":
        return "1/(%s)" % show(t[1])
    if k == "ite":
        return "(%s ? %s : %s)" % (show_cond(t[1].n), show(t[2]), show(t[3]))
    if k == "ld":
        return "%s%s" % (t[1], "" if t[2] == 0 else "@%s" % (t[2],))
    if k == "call":
        return "%s(..)#%s" % (t[1], t[-1])
    if k == "iv":
        return "iv%s" % (t[1],)
    if k == "arg":
        return "arg:%s" % (t[2],)
    return "<" + ",".join(str(x)[:60] for x in t) + ">"


def show(p):
    if not isinstance(p, Poly):
        return repr(p)
    if not p.t:
        return "0"
    out = []
    for m, c in p.key:
        s = "*".join(show_atom(a) + ("" if e == 1 else "^%d" % e) for a, e in m)
        if c == 1 and s:
            out.append(s)
        else:
            cs = str(c) if c.denominator == 1 else "%.10g" % float(c)
            out.append(cs + ("*" + s if s else ""))
    return " + ".join(out)


def show_cond(n):
    if n == TRUE:
        return "true"
    if n == FALSE:
        return "false"
    lits = implied_literals(n)
    parts = []
    for c, pol in lits:
        parts.append(("" if pol else "!") + _showc(c))
    sup = bdd_support(n)
    if len(lits) < len(sup):
        parts.append("…[%d vars]" % (len(sup) - len(lits)))
    return " & ".join(parts)


def _showc(c):
    if c[0] == "lt":
        return "(%s < 0)" % show(c[1])
    if c[0] == "eq":
        return "(%s == 0)" % show(c[1])
    return "<" + ",".join(str(x)[:40] for x in c) + ">"


def show_ptr(p):
    return "&%s+%s" % (p.base, show(p.off))
