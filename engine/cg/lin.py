"""Linear-inequality abstract domain over term monomials, and case-wise comparison of terms.

A set of literals (p < 0, p == 0 and negations) is kept as a conjunction of linear constraints over the
monomials of the terms; emptiness is decided by Fourier-Motzkin elimination.  Used only to discard
combinations of case distinctions that exclude each other (i < n against i < n + m, 0 <= m)."""
from fractions import Fraction
from . import term as T
from .term import P, Poly, Bd, Ptr, ONE, ZERO


def _constraints(lits):
    """-> (list of (dict mono->coef, const, strict)) meaning sum + const < 0 (strict) or <= 0, list of disequalities"""
    ineq = []
    neq = []

    def add(p, strict):
        d = dict(p.t)
        c = d.pop((), Fraction(0))
        ineq.append((d, c, strict))
    for c, pol in lits:
        if c[0] == "lt":
            p = c[1]
            if len(c) > 2:
                if pol:
                    add(p + ONE, False)
                else:
                    add(-p, False)
            else:
                if pol:
                    add(p, True)
                else:
                    add(-p, False)
        elif c[0] == "eq":
            if pol:
                add(c[1], False)
                add(-c[1], False)
            else:
                neq.append(c[1])
    return ineq, neq


def _empty(ineq, limit=400):
    cons = []
    for d, c, s in ineq:
        d = {m: v for m, v in d.items() if v}
        if not d:
            if c > 0 or (s and c >= 0):
                return True
            continue
        cons.append((d, c, s))
    while cons:
        vs = {}
        for d, c, s in cons:
            for m, v in d.items():
                a = vs.setdefault(m, [0, 0])
                a[0 if v > 0 else 1] += 1
        m = min(vs, key=lambda k: (vs[k][0] * vs[k][1], k))
        if vs[m][0] * vs[m][1] > limit:
            return False
        pos = [x for x in cons if x[0].get(m, 0) > 0]
        neg = [x for x in cons if x[0].get(m, 0) < 0]
        rest = [x for x in cons if not x[0].get(m, 0)]
        seen = set()
        for d1, c1, s1 in pos:
            a = d1[m]
            for d2, c2, s2 in neg:
                b = -d2[m]
                d = {}
                for k in set(d1) | set(d2):
                    if k == m:
                        continue
                    v = d1.get(k, 0) / a + d2.get(k, 0) / b
                    if v:
                        d[k] = v
                c = c1 / a + c2 / b
                s = s1 or s2
                if not d:
                    if c > 0 or (s and c >= 0):
                        return True
                    continue
                key = (tuple(sorted(d.items())), c, s)
                if key not in seen:
                    seen.add(key)
                    rest.append((d, c, s))
        cons = rest
        if len(cons) > limit:
            return False
    return False


def feasible(lits):
    pols = {}
    for c, pol in lits:
        if pols.get(c, pol) != pol:
            return False
        pols[c] = pol
    ineq, neq = _constraints(lits)
    if _empty(ineq):
        return False

    def split(ineq, neq):
        if not neq:
            return not _empty(ineq)
        p = neq[0]
        d = dict(p.t); c = d.pop((), Fraction(0))
        for sg in (1, -1):
            if split(ineq + [({k: v * sg for k, v in d.items()}, c * sg, True)], neq[1:]):
                return True
        return False
    # only disequalities sharing a monomial with an inequality matter
    ms = set()
    for d, c, s in ineq:
        ms |= set(d)
    neq = [p for p in neq if set(m for m in p.t if m) <= ms][:4]
    return split(ineq, neq) if neq else True


def lits_of(n):
    return T.implied_literals(n)


def _topcond(p):
    """index of the outermost condition variable some ite atom of p tests (lowest)"""
    best = None
    for a in p.atoms():
        t = T.atom_of(a)
        if t[0] == "ite":
            v = T.bdd_top(t[1].n)[0]
            if best is None or v < best:
                best = v
    return best


_bound = {}


def bound(cv):
    """does the condition depend on a summation index? (it has no single value)"""
    r = _bound.get(cv)
    if r is None:
        r = _bound[cv] = _freebv(T.cond_of(cv)[1:], set())
    return r


def _freebv(v, seen):
    """a summation index outside its sum"""
    if isinstance(v, Poly):
        return any(_freebva(a, seen) for a in v.atoms())
    if isinstance(v, T.Bd):
        return any(bound(c) for c in T.bdd_support(v.n))
    if isinstance(v, T.Ptr):
        return _freebv(v.base, seen) or _freebv(v.off, seen)
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "P" and isinstance(v[1], int):
            return _freebva(v[1], seen)
        return any(_freebv(x, seen) for x in v)
    return False


def _freebva(a, seen):
    if a in seen:
        return False
    seen.add(a)
    t = T.atom_of(a)
    if t[0] == "bv":
        return True
    if t[0] == "sum":
        return _freebv(t[1], seen)
    return _freebv(t[1:], seen)


def _anycond(v, depth=0):
    """some condition variable tested anywhere inside v (functions included)"""
    b = None
    for a in T.deep_atoms(v):
        t = T.atom_of(a)
        if t[0] == "ite":
            x = T.bdd_top(t[1].n)[0]
            if (b is None or x < b) and not bound(x):
                b = x
    return b


def restrict(v, cv, val):
    """v with condition variable cv fixed"""
    mp = {}
    for a in T.deep_atoms(v):
        t = T.atom_of(a)
        if t[0] == "ite" and T.bdd_top(t[1].n)[0] == cv:
            mp[a] = t[2] if val else t[3]
    if not mp:
        return v
    r = T.dsubst(v, mp)
    return r


def cases(vals, assume=(), limit=4000, conds=()):
    """enumerate the consistent case distinctions of a tuple of values (Poly/Ptr) and BDDs `conds`:
    yields (lits, vals, conds) with no ite atoms left and every cond constant"""
    out = []
    st = [(list(assume), list(vals), list(conds))]
    if assume and not feasible(list(assume)):
        return []
    n = 0
    while st:
        lits, vs, cs = st.pop()
        n += 1
        if n > limit:
            return None
        cv = None
        for c in cs:
            if c > 1:
                x = T.bdd_top(c)[0]
                if cv is None or x < cv:
                    cv = x
        if cv is None:
            for v in vs:
                x = _anycond(v) if isinstance(v, (Poly, Ptr)) else None
                if x is not None and (cv is None or x < cv):
                    cv = x
        if cv is None:
            out.append((lits, vs, cs))
            continue
        c = T.cond_of(cv)
        for val in (True, False):
            nl = lits + [(c, val)]
            if not feasible(nl):
                continue
            st.append((nl, [restrict(v, cv, val) if isinstance(v, (Poly, Ptr)) else v for v in vs],
                       [T.bdd_cofactor(x, cv, val) for x in cs]))
    return out


def eqsubst(lits):
    """substitution from equalities that hold (linear, unit solvable)"""
    mp = {}
    for c, pol in lits:
        if c[0] == "eq" and pol:
            p = T.dsubst(c[1], mp) if mp else c[1]
            for m, k in sorted(p.t.items(), key=lambda z: -len(z[0])):
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    rest = Poly({q: v for q, v in p.t.items() if q != m})
                    if a in T.deep_atoms(rest):
                        continue
                    val = T.div(-rest, P(k))
                    mp = {x: T.dsubst(y, {a: val}) for x, y in mp.items()}
                    mp[a] = val
                    break
    return mp


def implied_eq(lits, p):
    """do the literals force p == 0 ?"""
    d = dict(p.t); c = d.pop((), Fraction(0))
    ineq, _ = _constraints(lits)
    return _empty(ineq + [(d, c, True)]) and _empty(ineq + [({k: -v for k, v in d.items()}, -c, True)])


def leaf_equal(a, b, lits):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return a == b
    d = a - b
    if not T.clear(d).t:
        return True
    mp = eqsubst(lits)
    if mp:
        d2 = T.dsubst(d, mp)
        if not T.clear(d2).t:
            return True
    q = T.clear(d)
    if all(sum(abs(e) for _, e in m) <= 1 for m in q.t) and implied_eq(lits, q):
        return True
    return False


def difference(a, b, assume=(), where=None, limit=4000):
    """first consistent case in which a and b differ: None if equal everywhere;
    ('limit',) if too many; else (lits, a_leaf, b_leaf).  where: BDD restricting the comparison"""
    cs = cases([a, b], assume, limit, conds=[where] if where is not None else ())
    if cs is None:
        return ("limit",)
    for lits, (x, y), c in cs:
        if c and c[0] == T.FALSE:
            continue
        if not leaf_equal(x, y, lits):
            return (lits, x, y)
    return None


def cond_difference(f, g, assume=(), limit=4000):
    """consistent case in which two conditions differ"""
    cs = cases([], assume, limit, conds=[f, g])
    if cs is None:
        return ("limit",)
    for lits, _, c in cs:
        if c[0] != c[1]:
            return (lits, c[0], c[1])
    return None


def implies(lits, cond, pol=True):
    """do literals imply a condition atom?"""
    return not feasible(list(lits) + [(cond, not pol)])


def showlits(lits):
    return " & ".join(("" if p else "!") + T._showc(c) for c, p in lits)


def simp(v, lits, depth=0):
    """simplify case distinctions decided by the literals; inside sums, with the bound variable in range"""
    if not isinstance(v, Poly):
        return v
    for _ in range(40):
        ch = False
        for a in sorted(v.atoms()):
            t = T.atom_of(a)
            if t[0] == "ite":
                cv = T.bdd_top(t[1].n)[0]
                c = T.cond_of(cv)
                if not feasible(list(lits) + [(c, False)]):
                    v = T.subst(v, {a: t[2]}); ch = True
                    break
                if not feasible(list(lits) + [(c, True)]):
                    v = T.subst(v, {a: t[3]}); ch = True
                    break
            elif t[0] == "sum" and depth < 3:
                d = 0
                for b in T.deep_atoms(t[2]):
                    q = T.atom_of(b)
                    if q[0] == "bv":
                        d = max(d, q[1])
                bv = T.var("bv", d)
                inner = list(lits)
                for n in (T.bdd_not(T.ilt0(bv)), T.ilt0(bv - t[1])):
                    inner += T.implied_literals(n)
                body = simp(t[2], inner, depth + 1)
                if body != t[2]:
                    v = T.subst(v, {a: T.var("sum", t[1], body) if body.t else ZERO}); ch = True
                    break
                sp = _split_sum(t[1], body, bv, lits)
                if sp is not None:
                    v = T.subst(v, {a: sp}); ch = True
                    break
        if not ch:
            break
    return v


def _split_sum(trip, body, bv, lits):
    """sum over bv < trip of a body that distinguishes bv < p, with 0 <= p <= trip: two sums"""
    if not isinstance(trip, Poly):
        return None
    b = bv.single()
    for a in sorted(body.atoms()):
        t = T.atom_of(a)
        if t[0] != "ite":
            continue
        c = T.cond_of(T.bdd_top(t[1].n)[0])
        if c[0] != "lt" or c[2:] != ("i",) or not isinstance(c[1], Poly):
            continue
        k = c[1].t.get(((b, 1),))
        if k not in (1, -1) or any(b in T.deep_atoms(Poly({m: x})) for m, x in c[1].t.items() if m != ((b, 1),)):
            continue
        # bv - p < 0, or -bv + q < 0 (bv > q: not bv < q + 1)
        p = bv - c[1] if k == 1 else c[1] + bv + T.ONE
        if feasible(list(lits) + T.implied_literals(T.ilt0(p))) or feasible(list(lits) + T.implied_literals(T.ilt0(trip - p))):
            continue
        out = ZERO
        for n, off in ((p, ZERO), (trip - p, p)):
            x = simp(T.dsubst(body, {b: bv + off}) if off.t else body, list(lits) + _range(bv, n), 2)
            if x.t and n.t:
                out = out + T.var("sum", n, x)
        return out
    return None


def _range(bv, n):
    return T.implied_literals(T.bdd_not(T.ilt0(bv))) + T.implied_literals(T.ilt0(bv - n))


def bounds_of(p, lits, limit=400):
    """(lo, hi) of the integer p under linear literals; None = not bounded"""
    lo, hi = _bounds_of(p, lits, limit)
    # an excluded end point
    for _ in range(3):
        ex = set()
        for c, pol in lits:
            if c[0] == "eq" and not pol:
                d = p - c[1]
                k = d.const()
                if k is not None:
                    ex.add(k)
                k = (p + c[1]).const()
                if k is not None:
                    ex.add(k)
        ch = False
        if hi is not None and hi in ex:
            hi -= 1; ch = True
        if lo is not None and lo in ex:
            lo += 1; ch = True
        if not ch:
            break
    return lo, hi


def _bounds_of(p, lits, limit=400):
    t = ("objective",)
    ineq, neq = _constraints(lits)
    d = dict(p.t)
    c = d.pop((), Fraction(0))
    a = dict(d); a[t] = Fraction(-1)
    b = {k: -v for k, v in d.items()}; b[t] = Fraction(1)
    # only constraints connected to p matter
    cons = list(ineq)
    reach = set(d)
    use = []
    ch = True
    while ch:
        ch = False
        for x in list(cons):
            if set(x[0]) & reach:
                reach |= set(x[0]); use.append(x); cons.remove(x); ch = True
    cons = use + [(a, c, False), (b, -c, False)]
    while True:
        vs = {}
        for dd, cc, s in cons:
            for m, v in dd.items():
                if m != t:
                    q = vs.setdefault(m, [0, 0])
                    q[0 if v > 0 else 1] += 1
        if not vs:
            break
        m = min(vs, key=lambda k: (vs[k][0] * vs[k][1], k))
        if vs[m][0] * vs[m][1] > limit:
            return None, None
        pos = [x for x in cons if x[0].get(m, 0) > 0]
        neg = [x for x in cons if x[0].get(m, 0) < 0]
        rest = [x for x in cons if not x[0].get(m, 0)]
        seen = set()
        for d1, c1, s1 in pos:
            for d2, c2, s2 in neg:
                x1, x2 = d1[m], -d2[m]
                dd = {}
                for k in set(d1) | set(d2):
                    if k != m:
                        v = d1.get(k, 0) / x1 + d2.get(k, 0) / x2
                        if v:
                            dd[k] = v
                cc = c1 / x1 + c2 / x2
                key = (tuple(sorted(dd.items(), key=str)), cc, s1 or s2)
                if dd and key not in seen:
                    seen.add(key)
                    rest.append((dd, cc, s1 or s2))
        cons = rest
        if len(cons) > limit:
            return None, None
    lo = hi = None
    for dd, cc, s in cons:
        if t not in dd:
            continue
        v = dd[t]
        if v > 0:
            h = -cc / v
            hi = h if hi is None or h < hi else hi
        else:
            l = -cc / v
            lo = l if lo is None or l > lo else lo
    return lo, hi
