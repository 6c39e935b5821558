"""Algebra for the physics relations: terms are reduced modulo sqrt(x)^2 = x, sin^2 + cos^2 = 1, cos(acos x) = x,
sin(acos x) = sqrt(1 - x^2); both mass-excess lookups are the one symbol ME(1000 Z + A)."""
from fractions import Fraction
from props.lib import *

AMU = P(931.494013)
MN = P(1.00866491578) * AMU
PI2 = 2 * 3.14159265358979323846
RNG = "std::function<double ()>::operator()() const"


def ME(za):
    return T.var("ME", za)


def mass(z, a):
    return P(a) * AMU + ME(P(z) * P(1000) + P(a))


def _qn(F, callee):
    g = F.mod.fns.get(callee)
    return C.qual(g) if g is not None else callee


def masses(F, v):
    """replace the results of the mass-excess lookups by ME(...)"""
    for _ in range(6):
        mp = {}
        for a in T.deep_atoms(v):
            t = T.atom_of(a)
            if t[0] == "call":
                q = _qn(F, t[1])
                if q == "getMassExcess":
                    mp[a] = ME(t[2][0])
                elif q == "mass_excess":
                    mp[a] = ME(P(t[2][0]) * P(1000) + P(t[2][1]))
        if not mp:
            return v
        # innermost first: substitute only those whose arguments contain no other
        inner = {a: w for a, w in mp.items() if not any(b in mp for b in T.deep_atoms(w))}
        v = T.dsubst(v, inner or mp)
    return v


def is_rng(F, e_or_atom):
    if isinstance(e_or_atom, int):
        t = T.atom_of(e_or_atom)
        if t[0] != "call":
            return False
        callee = t[1]
    else:
        callee = e_or_atom.callee
        if callee is None:
            return False
    g = F.mod.fns.get(callee)
    d = g.dem if g is not None else callee
    return "function<double" in d and "operator()" in d or "_ZNKSt8functionIFdvEEclEv" in callee


def norm(p):
    """reduce trigonometric functions and denominators"""
    for _ in range(30):
        q = _trig(p)
        q = T.clear(q)
        if q == p:
            return p
        p = q
    return p


def _trig(p):
    mp = {}
    for a in p.atoms():
        t = T.atom_of(a)
        if t[0] == "fn" and t[1] in ("sin", "cos") and t[2]:
            x = t[2][0]
            s = x.single() if isinstance(x, Poly) else None
            if s is not None:
                u = T.atom_of(s)
                if u[0] == "fn" and u[1] in ("acos", "asin"):
                    z = u[2][0]
                    if (t[1] == "cos") == (u[1] == "acos"):
                        mp[a] = z
                    else:
                        mp[a] = T.fn("sqrt", ONE - z * z)
    if mp:
        return T.subst(p, mp)
    # cos^2 -> 1 - sin^2
    r = ZERO
    ch = False
    for m, c in p.t.items():
        z = Poly({(): c})
        for a, e in m:
            t = T.atom_of(a)
            if t[0] == "fn" and t[1] == "cos" and e >= 2:
                s = T.fn("sin", *t[2])
                k, e = divmod(e, 2)
                for _ in range(k):
                    z = z * (ONE - s * s)
                ch = True
                if not e:
                    continue
            z = z * Poly({((a, e),): Fraction(1)})
        r = r + z
    return r if ch else p


def unknown(F, v, free=()):
    """does v contain a value the analysis knows too little about to call it arbitrary?"""
    for a in T.deep_atoms(v):
        if a in free:
            continue
        t = T.atom_of(a)
        k = t[0]
        if k == "call":
            if is_rng(F, a):
                continue
            g = F.mod.fns.get(t[1])
            if g is not None and g.repo and g.has_body:
                continue
            return True
        if k in ("undef", "op", "phix", "phi", "ldx", "mix", "val", "ex", "ins", "ivx"):
            return True
        if k == "sum" and any(T.atom_of(b)[0] == "ite" for b in T.deep_atoms(t[2])):
            return True
        if k == "ld" and isinstance(t[3], tuple) and t[3][0] in ("loop", "loopx"):
            if not _outparam(F, t):
                return True
    return False


def _outparam(F, t):
    """a location that is modified in a loop only by calls (its contents are the callee's business)"""
    b = t[1]
    for e in F.effects:
        if e.kind == "store" and e.loops and getattr(e.loc, "base", None) == b:
            return False
    return True


def rel(rep, oid, F, resid, w, text, assume=(), cond=None, free=()):
    """resid must vanish in every case"""
    rep.count("relations")
    resid = masses(F, resid)
    cs = lin.cases([resid], list(assume), conds=[cond] if cond is not None else ())
    if cs is None:
        rep.undecided(oid, text + ": too many cases")
        return None
    und = None
    for l, (x,), c in cs:
        if c and c[0] == T.FALSE:
            continue
        q = norm(x)
        if not q.t:
            continue
        mp = lin.eqsubst(l)
        if mp and not norm(T.dsubst(x, mp)).t:
            continue
        if unknown(F, q, free):
            und = und or (l, q)
            continue
        rep.bad(oid, w, text + "; residual %s%s" % (show(x), (" when [%s]" % lin.showlits(l)[:300]) if l else ""))
        return False
    if und:
        r = instance(F, und[1], free)
        if r:
            rep.bad(oid, w, text + "; for %s the residual is %s" % r)
            return False
        rep.undecided(oid, text + ": residual %s" % show(und[1]))
        return None
    rep.ok(oid, text)
    return True


def instance(F, v, free=()):
    """small values of the arguments that bound a sum, for which the residual certainly does not vanish"""
    if any(T.atom_of(a)[0] not in ("sum", "ite", "fn", "arg", "ld", "ME", "inv", "bv", "elem") and not (T.atom_of(a)[0] == "call" and not unknown(F, Poly({((a, 1),): Fraction(1)}))) for a in T.deep_atoms(v)):
        return None
    bs = set()
    for a in T.deep_atoms(v):
        t = T.atom_of(a)
        if t[0] == "sum":
            bs |= {b for x in t[1:] if isinstance(x, Poly) for b in x.atoms() if T.atom_of(b)[0] == "arg"}
    if len(bs) != 1:
        return None
    b, = bs
    for n in (1, 2, 3):
        x = expand(T.dsubst(v, {b: P(n)}))
        if any(T.atom_of(a)[0] == "sum" for a in T.deep_atoms(x)):
            return None
        x = norm(x)
        if x.t and not unknown(F, x, free):
            return "%s = %d" % (show(Poly({((b, 1),): Fraction(1)})), n), show(x)
    return None


def expand(v):
    """write out sums of a few terms"""
    for _ in range(6):
        mp = {}
        for a in T.deep_atoms(v):
            t = T.atom_of(a)
            if t[0] == "sum" and isinstance(t[1], Poly) and t[1].const() is not None and t[1].const() <= 6:
                d = max([T.atom_of(b)[1] for b in T.deep_atoms(t[2]) if T.atom_of(b)[0] == "bv"], default=None)
                r = ZERO
                for j in range(int(t[1].const())):
                    r = r + (t[2] if d is None else T.dsubst(t[2], {list(T.var("bv", d).atoms())[0]: P(j)}))
                mp[a] = r
        if not mp:
            return v
        v = T.dsubst(v, mp)
    return v


def value(v, env):
    """numerical value of a closed term; env: atom -> number (the draws); None when it has other unknowns"""
    import math
    memo = {}

    def at(a):
        if a in env:
            return env[a]
        if a in memo:
            return memo[a]
        t = T.atom_of(a)
        r = None
        if t[0] == "fn":
            xs = [po(x) for x in t[2]]
            f = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "acos": math.acos, "asin": math.asin, "tan": math.tan, "atan": math.atan, "exp": math.exp, "log": math.log,
                 "fabs": abs, "pow": math.pow, "atan2": math.atan2, "inv": lambda x: 1.0 / x}.get(t[1])
            if f is not None and None not in xs:
                try:
                    r = f(*xs)
                except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                    r = None
        memo[a] = r
        return r

    def po(p):
        if not isinstance(p, Poly):
            return None
        tot = 0.0
        for m, c in p.t.items():
            z = float(c)
            for a, e in m:
                x = at(a)
                if x is None:
                    return None
                try:
                    z *= x ** e
                except ZeroDivisionError:
                    return None
            tot += z
        return tot
    return po(v)


def moments(F, comps, N):
    """the vector comps / N as a function of its random numbers: why it cannot be isotropic, or None (not known)"""
    ds = sorted({a for v in comps for a in T.deep_atoms(v) if is_rng(F, a)})
    if not ds or len(ds) > 3:
        return None
    others = sorted({a for v in list(comps) + [N] for a in T.deep_atoms(v) if a not in ds and T.atom_of(a)[0] != "fn"})
    import itertools
    k = {1: 2000, 2: 60, 3: 24}[len(ds)]
    g = [(i + 0.5) / k for i in range(k)]
    env0 = {a: 1.0 for a in others}
    m1 = [0.0] * 3
    m2 = [[0.0] * 3 for _ in range(3)]
    n = 0
    for us in itertools.product(g, repeat=len(ds)):
        env = dict(env0)
        env.update(zip(ds, us))
        v = [value(c, env) for c in comps]
        if None in v:
            return None
        r = sum(x * x for x in v) ** 0.5
        if r == 0 or r != r:
            return None
        u = [x / r for x in v]
        n += 1
        for i in range(3):
            m1[i] += u[i]
            for j in range(3):
                m2[i][j] += u[i] * u[j]
    for i in range(3):
        if abs(m1[i] / n) > 0.03:
            return "its mean along axis %d is %.3f" % (i, m1[i] / n)
        for j in range(3):
            if abs(m2[i][j] / n - (1 / 3. if i == j else 0)) > 0.03:
                return "the mean of its components %d*%d is %.3f, not %s" % (i, j, m2[i][j] / n, "1/3" if i == j else "0")
    return None


def elem(F, mem, p, i, ty="double", es=8):
    return F.load(mem, Ptr(p.base, p.off + P(i) * P(es), p.ty), ty)


class Part:
    """the rules of another property that this one needs as well: only the obligations with the given prefixes"""
    def __init__(self, rep, *prefix):
        self.rep, self.prefix = rep, prefix

    def _on(self, oid):
        return any(oid.startswith(p) for p in self.prefix)

    def ok(self, oid, *a):
        self._on(oid) and self.rep.ok(oid, *a)

    def bad(self, oid, *a):
        self._on(oid) and self.rep.bad(oid, *a)

    def undecided(self, oid, *a):
        self._on(oid) and self.rep.undecided(oid, *a)

    def decide(self, oid, *a):
        self._on(oid) and self.rep.decide(oid, *a)

    def count(self, *a):
        pass

    floor = count
