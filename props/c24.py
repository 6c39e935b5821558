"""The statistical decay obeys the selection rules and gives every state's population away exactly.

Rule: every write to a population during a decay step is read off the analysed code as (target state, weight, guard).
The guards, loop ranges and target indices are closed formulas in the quantum numbers: they are tabulated over spins,
parities and angular momenta and compared with the selection rules of electric dipole, magnetic dipole and electric
quadrupole photons and of s, p, d .. wave neutrons - same states, no more, no fewer.  Each weight is (share) x
(transmission of exactly this transition, at the energy difference of the two states) x (levels in the target bin).
The value a transition function returns is the sum of what it adds (share 1 when only summing), and the decay divides a
state's population by the sum over the same open channels that it then feeds."""
from props.phys import *
from props.c14 import MC
from props import choice
from collections import Counter

MULT = {0: ("E1", 1, -1), 1: ("M1", 1, 1), 2: ("E2", 2, 1)}
MAXJ = 40


# ------------------------------------------------------------------ access paths
def chain(base, comps):
    """access path of a memory cell: (root, indices and member names)"""
    out = (base,)
    if isinstance(base, tuple) and base and base[0] == "P":
        t = T.atom_of(base[1])
        if t[0] == "ld":
            out = chain(t[1], t[2])
    for c in comps:
        out = out + ((c[2],) if c[0] == "f" else ((c[0], P(c[1])),))
    return out


def path(a):
    t = T.atom_of(a)
    return chain(t[1], t[2]) if t[0] == "ld" else None


def root(p):
    """(nucleus, rest): the path up to the first member name that is a member of the nucleus"""
    for i, x in enumerate(p):
        if isinstance(x, str):
            return p[:i], p[i:]
    return p, ()


def canon(v):
    """loads are named by their access path: arrays other than the populations do not change during a step"""
    for _ in range(8):
        mp = {}
        for a in T.deep_atoms(v):
            t = T.atom_of(a)
            if t[0] == "ld" and t[3] != 0:
                mp[a] = T.var("ld", t[1], t[2], 0)
        if not mp:
            return v
        v = T.dsubst(v, mp)
    return v


def _level(a, memo):
    """number of the bound variable of a sum: one more than those of the sums inside it"""
    if a in memo:
        return memo[a]
    t = T.atom_of(a)
    d = 0
    inn = T.deep_atoms(t[2])
    for b in inn:
        u = T.atom_of(b)
        if u[0] == "sum" and len(u) == 3:
            k = _level(b, memo)
            if T.var("bv", k).single() in T.deep_atoms(u[2]):
                d = max(d, k + 1)
    memo[a] = d
    return d


def own(v):
    """every sum carries the name of its own bound variable (found before constants are put in)"""
    memo = {}
    for _ in range(12):
        sums = [a for a in T.deep_atoms(v) if T.atom_of(a)[0] == "sum" and len(T.atom_of(a)) == 3]
        if not sums:
            return v
        # innermost first
        mp = {}
        lev = {a: _level(a, memo) for a in sums}
        lo = [a for a in sums if not any(b in lev for b in T.deep_atoms(T.atom_of(a)[2]))]
        for a in lo:
            t = T.atom_of(a)
            k = lev[a]
            mp[a] = T.var("sum", t[1], T.dsubst(t[2], {T.var("bv", k).single(): T.var("own", a)}), ("own", a))
        # the sums around them keep their numbers
        v2 = T.dsubst(v, mp)
        for a in sums:
            if a in lo:
                continue
            t = T.atom_of(a)
            n = tuple(T.dsubst(x, mp) for x in t[1:])
            b = T.var("sum", *n).single()
            memo[b] = lev[a]
        v = v2
    raise Unresolved("nested sums")


def expand(v, limit=24):
    for _ in range(12):
        mp = {}
        for a in T.deep_atoms(v):
            t = T.atom_of(a)
            if t[0] == "sum" and len(t) == 4 and t[1].const() is not None and t[1].const() <= limit:
                if any(T.atom_of(b)[0] == "sum" and T.atom_of(b)[1].const() is not None for b in T.deep_atoms(t[2])):
                    continue
                o = T.var("own", t[3][1]).single()
                mp[a] = sum((T.dsubst(t[2], {o: P(j)}) for j in range(max(0, int(t[1].const())))), ZERO)
        if not mp:
            return v
        v = T.dsubst(v, mp)
    return v


class Env:
    """constants for the quantum numbers; every load whose path a rule names is replaced by its value"""

    def __init__(self, F, args, rule):
        self.mp = {}
        for i, v in args.items():
            self.mp[F.vals[i].single()] = P(v)
        self.rule, self.F = rule, F

    def const(self, p):
        """entry of a constant table"""
        g = self.F.mod.globals.get(p[0][1]) if isinstance(p[0], tuple) and p[0][0] == "g" else None
        if not g or not g.get("const"):
            return None
        v = g.get("init")
        for x in p[1:]:
            i = cst(x)
            if i is None or not isinstance(v, list) or not v or v[0] in ("i", "f", "n", "z") or not 0 <= i < len(v):
                return None
            v = v[int(i)]
        if isinstance(v, list) and v and v[0] in ("i", "f"):
            v = self.F.val(v, None)
            return v.const() if isinstance(v, Poly) else None
        return None

    def __call__(self, v, more=None):
        v = canon(v)
        mp = dict(self.mp)
        if more:
            mp.update(more)
        for _ in range(6):
            m2 = {}
            for a in T.deep_atoms(v):
                if a in mp:
                    m2[a] = mp[a]
                    continue
                p = path(a)
                if p is not None:
                    x = self.rule(p)
                    if x is None:
                        x = self.const(p)
                    if x is not None:
                        m2[a] = P(x)
            if not m2:
                return v
            w = T.dsubst(v, m2)
            if w == v:
                return v
            v = w
        return v


class Step:
    """one population write inside one iteration"""
    __slots__ = ("path", "delta", "e", "sym")


def writes(F):
    out = []
    for e in F.effects:
        if e.pc == T.FALSE or e.kind not in ("store", "memcpy", "memset", "call"):
            continue
        if e.kind == "store" and e.loc is not None:
            p = chain(e.loc.base, e.loc.comps)
            names = [x for x in p if isinstance(x, str)]
            if "pop" in names or "lpop" in names:
                out.append((e, p))
    return out


def steps(F, env, ws, level):
    """population writes of one kind with all quantum numbers fixed: list of Step; raises Unresolved"""
    res = []
    for e, p in ws:
        if ("lpop" in p) != level:
            continue
        if not e.loops:
            raise Unresolved("population written outside the loops over states at %s" % e.where)
        h0 = e.loops[0]
        sym = F.li[h0]
        if sym.trip is None:
            raise Unresolved("range of the loop around %s" % e.where)
        old = F.load(e.mem, e.ptr, "double")
        delta = e.val - old
        iv0 = Poly({((sym.iv, 1),): Fraction(1)})
        inr = T.bdd_and(T.bdd_not(T.ilt0(iv0)), env(Bd(T.ilt0(iv0 - sym.trip))).n)

        def go(k, more):
            if k == len(e.loops):
                n = env(Bd(e.pc), more).n
                n = T.bdd_constrain(n, inr) if inr not in (T.TRUE, T.FALSE) else n
                if n == T.FALSE:
                    return
                if n != T.TRUE:
                    raise Unresolved("condition of the write at %s: %s" % (e.where, T.show_cond(n)[:200]))
                s = Step()
                s.path = tuple((x[0], env(x[1], more)) if isinstance(x, tuple) and x and x[0] in ("i", "o") and isinstance(x[1], Poly) else x for x in p)
                s.delta, s.e, s.sym = expand(env(delta, more)), e, sym
                res.append(s)
                return
            L = F.li[e.loops[k]]
            if L.trip is None:
                raise Unresolved("range of a loop around %s" % e.where)
            t = env(L.trip, more).const()
            if t is None or t > 200:
                raise Unresolved("range of a loop around %s: %s" % (e.where, show(env(L.trip, more))))
            for j in range(max(0, int(t))):
                go(k + 1, {**more, L.iv: P(j)})
        go(1, {})
    return res


def factors(d):
    """the factors of a one-term weight (access paths, calls, arguments); None when it is not a plain product"""
    if len(d.t) != 1:
        return None
    (m, c), = d.t.items()
    if c != 1 or any(x != 1 for _, x in m):
        return None
    return [a for a, _ in m]


def idx(p):
    return p[1] if isinstance(p, tuple) and p and p[0] == "i" else None


def cst(p):
    q = idx(p)
    q = P(q) if q is not None else None
    return None if q is None else q.const()


class Bad(Exception):
    def __init__(self, where, text):
        self.where, self.text = where, text


def cont(F, s, q, i0):
    """one write to a continuum state: (k, doubled spin, parity, remaining factors); checks the density of states"""
    nuc, rest = root(s.path)
    if len(rest) == 4 and isinstance(rest[3], tuple) and rest[3][0] == "o" and cst(rest[2]) == 0 and rest[3][1].const() is not None:
        o = int(rest[3][1].const())         # a reference to one of the two parities
        if o % 8 == 0:
            rest = rest[:2] + (("i", P(o // 16)), ("even", "odd")[o % 16 // 8])
    if len(rest) != 4 or rest[0] != "pop" or rest[3] not in ("even", "odd"):
        raise Unresolved("target of the write at %s" % s.e.where)
    k, j = idx(rest[1]), cst(rest[2])
    if j is None:
        raise Unresolved("spin index of the write at %s" % s.e.where)
    fs = factors(s.delta)
    if fs is None:
        raise Unresolved("weight at %s: %s" % (s.e.where, show(s.delta)))
    left, seen = [], Counter()
    for a in fs:
        if a == q:
            seen["q"] += 1
            continue
        p = path(a)
        if p is not None:
            n2, r2 = root(p)
            if r2[:1] == ("density",):
                seen["density"] += 1
                if n2 != nuc or len(r2) != 4 or idx(r2[1]) != k or cst(r2[2]) != j or r2[3] != rest[3]:
                    raise Bad(s.e.where, "the population of bin %s, spin index %s, parity %s is weighted with the level density of bin %s, spin index %s, parity %s" % (
                        show(P(k)), j, rest[3], show(P(idx(r2[1]))) if len(r2) > 1 else "?", cst(r2[2]) if len(r2) > 2 else "?", r2[-1]))
                continue
            if r2[:1] == ("binwidth",):
                seen["binwidth"] += 1
                if n2 != nuc or idx(r2[1]) != k:
                    raise Bad(s.e.where, "the population of bin %s is weighted with the width of bin %s" % (show(P(k)), show(P(idx(r2[1])))))
                continue
        left.append(a)
    for w in ("q", "density", "binwidth"):
        if seen[w] != 1:
            raise Bad(s.e.where, "the population added to a continuum state has the factor '%s' %d times" % ({"q": "share of the parent"}.get(w, w), seen[w]))
    return nuc, k, 2 * int(j) + i0, 1 if rest[3] == "even" else -1, left


def rng_k(rep, oid, F, L, k, lo, hi, w, text):
    """the index k runs over lo .. hi-1 once"""
    iv = Poly({((L.iv, 1),): Fraction(1)})
    up, dn = k - iv, k + iv
    if L.iv not in up.atoms():
        first = up
        cnt = same(L.trip, hi - lo)
        good = True if first == lo and L.trip == hi - lo else (False if first.t.keys() and not opaque(first - lo) and not opaque(L.trip - hi + lo) else None)
    elif L.iv not in dn.atoms():
        good = True if dn == hi - ONE and L.trip == hi - lo else None
    else:
        good = None
    if good is None:
        rep.undecided(oid, "range of states: first %s, number %s" % (show(k), show(L.trip)))
        return
    rep.decide(oid, good, w, text, "the states run from %s, %s of them" % (show(up), show(L.trip)))


def total(F, env, more=None):
    """returned value with constants put in: {trip: body with the bound variable named 'b'}; raises Unresolved"""
    v = canon(own(ret(F)))
    for _ in range(6):
        w = expand(env(v))
        if w == v:
            break
        v = w
    out = {}
    for m, c in v.t.items():
        if len(m) != 1 or m[0][1] != 1:
            raise Unresolved("returned sum %s" % show(v))
        t = T.atom_of(m[0][0])
        if t[0] != "sum":
            raise Unresolved("returned sum %s" % show(v))
        body = T.dsubst(t[2], {T.var("own", t[3][1]).single(): T.var("b")})
        out[t[1]] = out.get(t[1], ZERO) + body * P(c)
    return out


def balance(rep, oid, F, env, env0, ws, w, qa, what):
    """what is returned = what is added (hauser); what is returned when only summing = the same for a share of one"""
    b = T.var("b")
    for mode, en in ((1, env), (0, env0)):
        got = total(F, en)
        need = {}
        for level in (False, True):
            for s in steps(F, env, ws, level):
                d = s.delta if mode == 1 else T.dsubst(s.delta, {qa: ONE})
                d = T.dsubst(d, {s.sym.iv: b})
                t = env(s.sym.trip)
                need[t] = need.get(t, ZERO) + d
        for t in set(got) | set(need):
            g, x = canon(en(got.get(t, ZERO))), canon(en(need.get(t, ZERO)))
            g, x = strip(g), strip(x)
            g, x = expand(g), expand(x)
            if not T.equal(g, x):
                if any(T.atom_of(a)[0] in ("phi", "phix", "undef", "ite", "sum") for a in T.deep_atoms(g - x)):
                    raise Unresolved("returned sum: %s against %s" % (show(g), show(x)))
                raise Bad(w, "%s: per state the returned sum has %s where %s is %s" % (what, show(g), "added" if mode else "counted", show(x)))


def strip(v):
    """call results are named by function and arguments"""
    for _ in range(4):
        mp = {}
        for a in T.deep_atoms(v):
            t = T.atom_of(a)
            if t[0] == "call" and len(t) > 3:
                mp[a] = T.var("callc", t[1], t[2])
        if not mp:
            return v
        v = T.dsubst(v, mp)
    return v


def guarded(rep, oid, w, text, f):
    """run one table; Unresolved -> undecided, Bad -> violation"""
    try:
        f()
    except Unresolved as x:
        rep.undecided(oid, str(x))
        return False
    except Bad as x:
        rep.bad(oid, x.where or w, "%s: %s" % (text, x.text))
        return False
    rep.ok(oid, text)
    return True


def par(p):
    return "+" if p > 0 else "-"


def hs(j):
    return "%d" % (j // 2) if j % 2 == 0 else "%d/2" % j


# ------------------------------------------------------------------ photons
def rule(nuc, ground2, lspin=None, lpar=None, lmax=None, sym=None):
    """constants for the loads of one table"""
    def f(p):
        n, r = root(p)
        if p[0] == ("g", "MAX_J") and len(p) <= 2:
            return MAXJ
        if r[:1] == ("lev",) and len(r) == 3:
            i = cst(r[1])
            if r[2] == "spin":
                if i == 0:      # the other nucleus has the other kind of spins
                    return Fraction(ground2 if nuc is None or n == nuc else ground2 ^ 1, 2)
                if i is None and lspin is not None:
                    return lspin
            if r[2] == "parity" and i is None and lpar is not None:
                return lpar
        if r[-1:] == ("lmax",) and lmax is not None:
            return lmax
        if r[-1:] == ("spin2",):
            return 1
        return None
    return f


def gamma(ctx, m, rep):
    F = ctx.sym(m, "specTransitionGamma")
    mode, k0, p0, j0, tg, q, n = range(7)
    w0 = where(F)
    ws = writes(F)
    qa = F.vals[q].single()
    nuc = (F.vals[n].base, ("i", ZERO))
    rep.count("population writes", len(ws))
    if not ws:
        raise AnalysisBroken("specTransitionGamma writes no population")
    K0 = F.vals[k0]
    spins = [0, 1, 2, 3, 4, 5, 6, 7, 13, 2 * MAXJ - 3, 2 * MAXJ - 2, 2 * MAXJ - 1]
    seen = {}

    def table(p, j):
        i0 = j % 2
        env = Env(F, {mode: 1, p0: p, j0: j}, rule(None, 4 + i0))
        got = Counter()
        for s in steps(F, env, ws, False):
            nc, k, J, P1, left = cont(F, s, qa, i0)
            if len(left) != 1:
                raise Unresolved("weight at %s" % s.e.where)
            t = path(left[0])
            if t is None or t[0] != F.vals[tg].base or len(t) != 3 or cst(t[1]) not in MULT:
                raise Unresolved("transmission at %s: %s" % (s.e.where, show(Poly({((left[0], 1),): Fraction(1)}))))
            if nc != nuc:
                raise Bad(s.e.where, "a photon populates another nucleus")
            if idx(t[2]) != k:
                raise Bad(s.e.where, "the population of bin %s uses the transmission into bin %s" % (show(P(k)), show(P(idx(t[2])))))
            got[(int(cst(t[1])), J, P1)] += 1
            seen[(s.e.seq, "c")] = (s, k)
            seen.setdefault("w", s.e.where)
        for mlt, (nm, L, fl) in MULT.items():
            must = {(mlt, J, p * fl) for J in range(abs(j - 2 * L), j + 2 * L + 1, 2) if J <= 2 * (MAXJ - 1) and (J or j)}
            may = {(mlt, J, p * fl) for J in range(abs(j - 2 * L), j + 2 * L + 1, 2) if J <= 2 * MAXJ - 1 and (J or j)}
            for g in sorted(x for x in got if x[0] == mlt):
                if g not in may:
                    raise Bad(seen["w"], "%s photons take a state of spin %s%s to spin %s%s" % (nm, hs(j), par(p), hs(g[1]), par(g[2])))
                if got[g] != 1:
                    raise Bad(seen["w"], "%s photons from spin %s%s count spin %s%s %d times" % (nm, hs(j), par(p), hs(g[1]), par(g[2]), got[g]))
            for x in sorted(must):
                if x not in got:
                    raise Bad(seen.get("w", w0), "%s photons from spin %s%s never reach spin %s%s" % (nm, hs(j), par(p), hs(x[1]), par(x[2])))

    for p in (-1, 1):
        for j in spins:
            rep.count("table rows")
            if not guarded(rep, "C24:gamma:cont:%s%s" % (hs(j), par(p)), w0, "photons from spin %s%s to the continuum obey the selection rules of E1, M1 and E2" % (hs(j), par(p)), lambda: table(p, j)):
                pass
    nc = read(F, Ptr(F.vals[n].base, ZERO, F.vals[n].ty), ["ncont"])
    nd = read(F, Ptr(F.vals[n].base, ZERO, F.vals[n].ty), ["ndisc"])
    for i, (s, k) in sorted((a, b) for a, b in seen.items() if isinstance(a, tuple)):
        rng_k(rep, "C24:gamma:bins:%s" % s.e.seq, F, s.sym, P(k), K0 + ONE, nc, s.e.where, "photons reach every continuum bin below the parent's")
    # discrete levels
    lv = {}
    ex = lambda kk: None

    def ltable(p, j, S, lp):
        i0 = j % 2
        env = Env(F, {mode: 1, p0: p, j0: j}, rule(None, 4 + i0, Fraction(S, 2), lp))
        got = Counter()
        for s in steps(F, env, ws, True):
            nc2, rest = root(s.path)
            if nc2 != nuc or len(rest) != 2:
                raise Unresolved("target of the write at %s" % s.e.where)
            i = idx(rest[1])
            fs = factors(s.delta)
            if fs is None or len(fs) != 2 or qa not in fs:
                raise Unresolved("weight at %s: %s" % (s.e.where, show(s.delta)))
            a = [x for x in fs if x != qa][0]
            mlt = trans(F, a, s.e.where, K0, ("lev", ("i", i), "energy"), nuc)
            got[mlt] += 1
            lv[(s.e.seq,)] = (s, i)
            lv.setdefault("w", s.e.where)
        for mlt, (nm, L, fl) in MULT.items():
            ok = abs(j - 2 * L) <= S <= j + 2 * L and p * fl == lp and (j or S)
            if bool(got[mlt]) != bool(ok):
                raise Bad(lv.get("w", w0), "%s photons from spin %s%s %s the level of spin %s%s" % (nm, hs(j), par(p), "reach" if got[mlt] else "never reach", hs(S), par(lp)))
            if got[mlt] > 1:
                raise Bad(lv["w"], "%s photons to a level are counted %d times" % (nm, got[mlt]))

    for p in (-1, 1):
        for j in (0, 1, 2, 3, 4, 5, 8):
            def row(p=p, j=j):
                for S in range(j % 2, 16, 2):
                    for lp in (-1, 1):
                        rep.count("table rows")
                        ltable(p, j, S, lp)
            guarded(rep, "C24:gamma:lev:%s%s" % (hs(j), par(p)), w0, "photons from spin %s%s to levels obey the selection rules of E1, M1 and E2" % (hs(j), par(p)), row)
    for key, (s, i) in sorted((a, b) for a, b in lv.items() if isinstance(a, tuple)):
        rng_k(rep, "C24:gamma:levels:%s" % s.e.seq, F, s.sym, P(i), ZERO, nd, s.e.where, "photons reach every discrete level")
    # the sum

    def sums():
        for p in (-1, 1):
            for j in (0, 1, 4):
                for S, lp in ((2 + j % 2, -1), (2 + j % 2, 1), (6 + j % 2, 1)):
                    r = rule(None, 4 + j % 2, Fraction(S, 2), lp)
                    rep.count("balances")
                    balance(rep, "C24:gamma:sum", F, Env(F, {mode: 1, p0: p, j0: j}, r), Env(F, {mode: 0, p0: p, j0: j}, r), ws, w0, qa, "photons from spin %s%s" % (hs(j), par(p)))
    guarded(rep, "C24:gamma:sum", w0, "what the photon transitions return is what they add", sums)


def trans(F, a, w, k0, target, nuc):
    """multipolarity of a photon transmission; checks its angular momentum and energy"""
    t = T.atom_of(a)
    if t[0] not in ("call", "callc") or "gdrGammaTransmission" not in t[1]:
        raise Unresolved("transmission at %s" % w)
    pr, L, eg, mlt = t[2][:4]
    mlt = P(mlt).const()
    if mlt not in MULT or P(L).const() is None:
        raise Unresolved("multipolarity at %s" % w)
    nm, l, fl = MULT[mlt]
    if P(L).const() != l:
        raise Bad(w, "%s transmission computed for angular momentum %s" % (nm, P(L).const()))
    need = Counter({("excitation", ("i", k0)): 1, target: -1})
    got = Counter()
    for m_, c in P(eg).t.items():
        if len(m_) != 1 or m_[0][1] != 1:
            raise Unresolved("photon energy at %s: %s" % (w, show(P(eg))))
        p = path(m_[0][0])
        if p is None:
            raise Unresolved("photon energy at %s: %s" % (w, show(P(eg))))
        n2, r = root(p)
        got[r if n2 == nuc else p] += c
    if +got != +need or -got != -need:
        raise Bad(w, "%s transmission computed for a photon of energy %s, not the difference of the two states" % (nm, show(P(eg))))
    return int(mlt)


def gstore(ctx, m, rep):
    """the photon transmissions into the continuum, kept per multipolarity and bin"""
    F = ctx.sym(m, "statStoreGammaTransmission")
    k0, tg, n = range(3)
    nuc = (F.vals[n].base, ("i", ZERO))
    K0 = F.vals[k0]
    nc = read(F, Ptr(F.vals[n].base, ZERO, F.vals[n].ty), ["ncont"])
    seen = {}
    for e in F.effects:
        if e.kind != "store" or e.pc == T.FALSE or e.loc is None:
            continue
        p = chain(e.loc.base, e.loc.comps)
        if p[0] != F.vals[tg].base or len(p) != 3:
            continue
        mlt = cst(p[1])
        if mlt is None or mlt not in MULT:
            rep.undecided("C24:trans:store:%s" % e.seq, "which transmission is stored")
            continue
        v = canon(e.val)
        if v.const() == 0:
            continue
        fs = factors(v)

        def one():
            if fs is None or len(fs) != 1:
                raise Unresolved("value %s" % show(v))
            if len(e.loops) != 1:
                raise Unresolved("loops")
            g = trans(F, fs[0], e.where, K0, ("excitation", p[2]), nuc)
            if g != mlt:
                raise Bad(e.where, "the %s table holds %s transmissions" % (MULT[mlt][0], MULT[g][0]))
        if guarded(rep, "C24:trans:%s" % MULT[mlt][0], e.where, "the %s transmission into a bin is that of a photon with the energy difference of the two bins" % MULT[mlt][0], one):
            L = F.li[e.loops[0]]
            rng_k(rep, "C24:trans:bins:%s" % MULT[mlt][0], F, L, P(idx(p[2])), K0 + ONE, nc, e.where, "every bin below the parent's has its transmission")
            seen[mlt] = 1
    rep.count("transmission tables", len(seen))


# ------------------------------------------------------------------ neutrons
def neutron(ctx, m, rep):
    F = ctx.sym(m, "specTransitionParticle")
    mode, k0, p0, j0, tc, td, q, n0, n1 = range(9)
    w0 = where(F)
    ws = writes(F)
    rep.count("population writes", len(ws))
    if not ws:
        raise AnalysisBroken("specTransitionParticle writes no population")
    qa = F.vals[q].single()
    nuc = (F.vals[n1].base, ("i", ZERO))
    K0 = F.vals[k0]
    seen, lv = {}, {}

    def allowed(j, lmax, S, p, lp):
        """(l, index in the table) of the waves that connect spin j, parity p with S, lp"""
        out = Counter()
        for l in range(lmax + 1):
            for i, sp in enumerate((1, -1)):
                jp = 2 * l + sp
                if jp >= 0 and abs(j - jp) <= S <= j + jp and p * (-1) ** l == lp:
                    out[3 * l + i] += 1
        return out

    def tran(s, left, r, kk):
        if len(left) != 1:
            raise Unresolved("weight at %s" % s.e.where)
        t = path(left[0])
        if t is None or t[0] != F.vals[r].base or len(t) != 4 or t[2] != "tran" or cst(t[3]) is None:
            raise Unresolved("transmission at %s" % s.e.where)
        if P(idx(t[1])) != P(kk):
            raise Bad(s.e.where, "the transmission of entry %s is used where entry %s belongs" % (show(P(idx(t[1]))), show(P(kk))))
        return int(cst(t[3]))

    def table(p, j, lmax):
        i0 = (j + 1) % 2
        env = Env(F, {mode: 1, p0: p, j0: j}, rule(nuc, 4 + i0, None, None, lmax))
        got = Counter()
        for s in steps(F, env, ws, False):
            nc, k, J, P1, left = cont(F, s, qa, i0)
            if nc != nuc:
                raise Bad(s.e.where, "a neutron populates a nucleus other than the daughter")
            got[(J, P1, tran(s, left, tc, P(k) - K0))] += 1
            seen[(s.e.seq,)] = (s, k)
            seen.setdefault("w", s.e.where)
        for P1 in (-1, 1):
            for J in range(i0, 2 * MAXJ + 2, 2):
                want = allowed(j, lmax, J, p, P1)
                have = Counter({t: c for (J2, P2, t), c in got.items() if J2 == J and P2 == P1})
                if J > 2 * MAXJ - 1 and have:
                    raise Bad(seen["w"], "neutrons populate spin %s, beyond the table" % hs(J))
                if 2 * (MAXJ - 1) < J <= 2 * MAXJ - 1 and not have:
                    continue
                if J <= 2 * MAXJ - 1 and have != want:
                    raise Bad(seen.get("w", w0), "neutrons with l <= %d from spin %s%s to spin %s%s use the waves %s, not %s" % (lmax, hs(j), par(p), hs(J), par(P1), wav(have), wav(want)))

    for p in (-1, 1):
        for j in (0, 1, 2, 3, 6, 7, 2 * MAXJ - 3, 2 * MAXJ - 2):
            def row(p=p, j=j):
                for lmax in (1, 3):
                    rep.count("table rows")
                    table(p, j, lmax)
            guarded(rep, "C24:neutron:cont:%s%s" % (hs(j), par(p)), w0, "neutrons from spin %s%s to the continuum couple angular momentum and parity" % (hs(j), par(p)), row)

    base1 = Ptr(F.vals[n1].base, ZERO, F.vals[n1].ty)
    nc, nd = read(F, base1, ["ncont"]), read(F, base1, ["ndisc"])
    for i, (s, k) in sorted((a, b) for a, b in seen.items() if isinstance(a, tuple)):
        rng_k(rep, "C24:neutron:bins:%s" % s.e.seq, F, s.sym, P(k), K0, nc, s.e.where, "neutrons reach every bin of the daughter that is open")

    def ltable(p, j, S, lp, lmax):
        env = Env(F, {mode: 1, p0: p, j0: j}, rule(nuc, 4 + (j + 1) % 2, Fraction(S, 2), lp, lmax))
        got = Counter()
        for s in steps(F, env, ws, True):
            nc2, rest = root(s.path)
            if len(rest) != 2:
                raise Unresolved("target of the write at %s" % s.e.where)
            if nc2 != nuc:
                raise Bad(s.e.where, "a neutron populates a nucleus other than the daughter")
            fs = factors(s.delta)
            if fs is None or qa not in fs:
                raise Unresolved("weight at %s: %s" % (s.e.where, show(s.delta)))
            got[tran(s, [x for x in fs if x != qa], td, idx(rest[1]))] += 1
            lv[(s.e.seq,)] = (s, idx(rest[1]))
            lv.setdefault("w", s.e.where)
        want = allowed(j, lmax, S, p, lp)
        if got != want:
            raise Bad(lv.get("w", w0), "neutrons with l <= %d from spin %s%s to the level of spin %s%s use the waves %s, not %s" % (lmax, hs(j), par(p), hs(S), par(lp), wav(got), wav(want)))

    for p in (-1, 1):
        for j in (0, 1, 2, 5, 8):
            def row(p=p, j=j):
                for S in range((j + 1) % 2, 16, 2):
                    for lp in (-1, 1):
                        for lmax in (1, 3):
                            rep.count("table rows")
                            ltable(p, j, S, lp, lmax)
            guarded(rep, "C24:neutron:lev:%s%s" % (hs(j), par(p)), w0, "neutrons from spin %s%s to levels couple angular momentum and parity" % (hs(j), par(p)), row)
    for key, (s, i) in sorted((a, b) for a, b in lv.items() if isinstance(a, tuple)):
        rng_k(rep, "C24:neutron:levels:%s" % s.e.seq, F, s.sym, P(i), ZERO, nd, s.e.where, "neutrons reach every discrete level of the daughter")

    def sums():
        for p in (-1, 1):
            for j in (0, 3):
                for S, lp in ((j % 2 + 1, -1), (j % 2 + 1, 1)):
                    for lmax in (1, 2):
                        r = rule(nuc, 4 + (j + 1) % 2, Fraction(S, 2), lp, lmax)
                        rep.count("balances")
                        balance(rep, "C24:neutron:sum", F, Env(F, {mode: 1, p0: p, j0: j}, r), Env(F, {mode: 0, p0: p, j0: j}, r), ws, w0, qa, "neutrons from spin %s%s" % (hs(j), par(p)))
    guarded(rep, "C24:neutron:sum", w0, "what the neutron transitions return is what they add", sums)


def wav(c):
    return "{%s}" % ", ".join("l=%d,j=l%s" % (t // 3, "+-?"[t % 3] + "1/2") + ("" if n == 1 else " x%d" % n) for t, n in sorted(c.items()))


def nstore(ctx, m, rep):
    """the neutron energies the transmissions are computed for"""
    for fn, oid, kind in (("statStoreContinuumTransmission", "C24:ntrans:cont", "excitation"), ("statStoreDiscreteTransmission", "C24:ntrans:lev", "lev")):
        F = ctx.sym(m, fn)
        ip, kp, pt, tc = range(4)
        cs = [e for e in F.effects if e.kind == "call" and e.pc != T.FALSE and e.callee and "omCalc" in e.callee]
        if len(cs) != 1:
            rep.undecided(oid, "%d optical-model calls" % len(cs))
            continue
        e = cs[0]

        def one():
            en = canon(e.args[0])
            if e.args[4].base[0] != "P":
                raise Unresolved("where the transmissions go")
            tp = path(e.args[4].base[1])
            if tp is None or len(tp) != 3 or tp[2] != "tran" or not e.loops:
                raise Unresolved("where the transmissions go")
            k = tp[1]
            got = []
            for m_, c in en.t.items():
                p = path(m_[0][0]) if len(m_) == 1 and m_[0][1] == 1 else None
                if p is None:
                    raise Unresolved("neutron energy %s" % show(en))
                got.append((root(p), c))
            parent = [r for r, c in got if r[1] == ("excitation", ("i", F.vals[kp]))]
            if len(parent) != 1:
                raise Bad(e.where, "the neutron energy is %s: the parent's excitation does not appear" % show(en))
            pn = parent[0][0]
            want = Counter()
            for (n_, r), c in got:
                if n_ == pn and r == ("excitation", ("i", F.vals[kp])):
                    want["parent"] += c
                elif n_ == pn and r[0] == "cdt" and r[-1] == "binding_energy":
                    want["binding"] += c
                elif n_ != pn and r == (("excitation", k) if kind == "excitation" else ("lev", k, "energy")):
                    want["final"] += c
                else:
                    want["other"] += 1
            if dict(want) != {"parent": 1, "binding": -1, "final": -1}:
                raise Bad(e.where, "the neutron energy is %s, not parent excitation - binding energy - energy of the final state" % show(en))
        guarded(rep, oid, e.where, "neutron transmissions into %s are computed at parent excitation - binding energy - final excitation" % ("a bin" if kind == "excitation" else "a level"), one)


# ------------------------------------------------------------------ the decay of one bin
def decay(ctx, m, rep):
    F = ctx.sym(m, "specCompoundDecay")
    c0, k0 = 0, 1
    cs = [e for e in F.effects if e.kind == "call" and e.pc != T.FALSE and e.callee]
    G = [e for e in cs if "specTransitionGamma" in e.callee]
    N = [e for e in cs if "specTransitionParticle" in e.callee]
    B = [e for e in cs if "specPopulationBypass" in e.callee]
    w0 = where(F)
    modes = lambda xs: sorted(x.args[0].const() for x in xs if isinstance(x.args[0], Poly) and x.args[0].const() is not None)
    if modes(G) != [0, 1] or modes(N) != [0, 1]:
        rep.undecided("C24:decay:calls", "calls of the transition functions: %d, %d" % (len(G), len(N)))
        return
    g0, g1 = sorted(G, key=lambda e: e.args[0].const())
    n0, n1 = sorted(N, key=lambda e: e.args[0].const())
    for nm, a, b, qi in (("photon", g0, g1, 5), ("neutron", n0, n1, 6)):
        bad = [i for i in range(1, len(a.args)) if i != qi and a.args[i] != b.args[i]]
        rep.decide("C24:decay:same:%s" % nm, not bad, b.where, "a decay feeds the %s channel it has summed" % nm,
                   "argument %s is %s when summing and %s when feeding" % (bad and bad[0] + 1, bad and show(a.args[bad[0]]) or "", bad and show(b.args[bad[0]]) or ""))
    if len(g0.loops) != 2 or any(e.loops != g0.loops for e in (g1, n0, n1)):
        rep.undecided("C24:decay:loops", "loops over spin and parity")
        return
    # the states: every spin of the table, both parities, once each
    p, j = g0.args[2], g0.args[3]
    Ls = [F.li[h] for h in g0.loops]
    pl = [L for L in Ls if L.iv in p.atoms()]
    jl = [L for L in Ls if L.iv in j.atoms()]
    if len(pl) != 1 or len(jl) != 1 or pl[0] is jl[0] or pl[0].trip is None or jl[0].trip is None:
        rep.undecided("C24:decay:loops", "loops over spin and parity")
        return
    pl, jl = pl[0], jl[0]
    t = pl.trip.const()
    vals = sorted(T.dsubst(p, {pl.iv: P(i)}).const() for i in range(int(t))) if t is not None and t < 9 and all(T.dsubst(p, {pl.iv: P(i)}).const() is not None for i in range(int(t))) else None
    if vals is None:
        rep.undecided("C24:decay:parities", "parities")
    else:
        rep.decide("C24:decay:parities", vals == [-1, 1], g0.where, "both parities decay once", "the parities are %s" % vals)
    mjp = glob(F, "MAX_J").base
    jv = Poly({((jl.iv, 1),): Fraction(1)})
    st = j - jv * P(2)
    if jl.iv in st.atoms():
        rep.undecided("C24:decay:spins", "spin %s" % show(j))
        return
    cnt = [Env(F, {}, lambda x: v if x[0] == mjp else None)(jl.trip).const() for v in (7, MAXJ, 101)]
    rep.decide("C24:decay:spins", None if None in cnt else cnt == [7, MAXJ, 101], g0.where, "every spin of the table decays once", "%s spins decay" % show(jl.trip))
    # the ground state of the decaying nucleus gives the smallest spin
    gs = [path(a) for a in T.deep_atoms(st) if path(a) is not None and path(a)[-1] == "spin"]
    ng = root(gs[0])[0] if len(gs) == 1 else None
    tbl = []
    for s2 in (0, 1, 2, 3, 7, 8):
        v = Env(F, {}, lambda x: Fraction(s2, 2) if x[-1] == "spin" else None)(st).const()
        tbl.append((s2, v))
    if ng is None or any(v is None for _, v in tbl):
        rep.undecided("C24:decay:start", "first spin %s" % show(st))
    else:
        rep.decide("C24:decay:start", all(v == s2 % 2 for s2, v in tbl), g0.where, "spins start at 0 for integer and 1/2 for half-integer nuclei", "first doubled spin: %s" % tbl)
    # open channels
    status = closed = None
    cond = T.bdd_constrain(n0.pc, g0.pc) if g0.pc not in (T.TRUE, T.FALSE) else n0.pc
    ls = T.implied_literals(cond)
    binding = [(c, pol) for c, pol in ls if c[0] == "lt" and isinstance(c[1], Poly) and any(path(a) and path(a)[-1] == "binding_energy" for a in c[1].atoms())]
    good = None
    if len(binding) == 1:
        c, pol = binding[0]
        co = {}
        for m_, x in c[1].t.items():
            pp = path(m_[0][0]) if len(m_) == 1 else None
            co[root(pp)[1][0] if pp else None] = x
        if set(co) == {"excitation", "cdt"}:
            s = co["excitation"]
            good = co["cdt"] == -s and ((s > 0 and not pol) or (s < 0 and pol) or (s < 0 and not pol and len(c) == 2 and False))
            kk = [path(a) for a in c[1].atoms() if root(path(a))[1][0] == "excitation"][0]
            if good and kk[-1] != ("i", F.vals[k0]):
                good = False
    elif not binding:
        good = False
    rep.decide("C24:decay:open", good, n0.where, "neutrons are emitted only above the neutron binding energy", "the neutron channel is summed when %s" % T.show_cond(n0.pc)[:300])
    # population divided by the sum over the open channels
    pop = {}
    A = P(g0.res) if not isinstance(g0.res, Poly) else g0.res
    Bn = P(n0.res) if not isinstance(n0.res, Poly) else n0.res
    for nm, e, qi in (("photon", g1, 5), ("neutron", n1, 6)):
        v = e.args[qi]
        oid = "C24:decay:share:%s" % nm

        def one():
            k = 0
            for pv in (-1, 1):
                i = [i for i in range(2) if T.dsubst(p, {pl.iv: P(i)}).const() == pv]
                if not i:
                    raise Unresolved("parity %d" % pv)
                fld = "even" if pv == 1 else "odd"
                for op in (False, True):
                    if nm == "neutron" and not op:
                        continue
                    asm = T.bdd_and(g0.pc, n0.pc if op else T.bdd_not(n0.pc))
                    asm = T.bdd_and(asm, e.pc)
                    asm = T.dsubst(Bd(asm), {pl.iv: P(i[0])}).n
                    if asm == T.FALSE:
                        continue
                    x = choice.given(canon(T.dsubst(v, {pl.iv: P(i[0])})), T.dsubst(canon(Bd(asm)), {}).n)
                    tot = T.dsubst(canon(A), {pl.iv: P(i[0])}) + (T.dsubst(canon(Bn), {pl.iv: P(i[0])}) if op else ZERO)
                    x = choice.given(x, T.bdd_not(T.eq0(tot)))
                    k += 1
                    x, tot = strip(x), strip(tot)
                    cand = [a for a in T.deep_atoms(x) if path(a) is not None and root(path(a))[1][:1] == ("pop",)]
                    mp = {a: T.var("chan", i) for i, a in enumerate(sorted(a for a in x.atoms() | tot.atoms() | T.deep_atoms(x) if T.atom_of(a)[0] == "callc"))}
                    x, tot = T.dsubst(x, mp), T.dsubst(tot, mp)
                    asm2 = lits(T.bdd_not(T.eq0(tot)))
                    df = {a: lin.difference(x, T.div(Poly({((a, 1),): Fraction(1)}), tot), asm2) for a in cand}
                    hit = [a for a in cand if df[a] is None]
                    if not hit:
                        if any(d[0] == "limit" for d in df.values()) or any(T.atom_of(a)[0] in ("phi", "phix", "undef") for a in T.deep_atoms(x)):
                            raise Unresolved("share %s" % show(x))
                        raise Bad(e.where, "with the neutron channel %s the share is %s, not the population divided by the sum over the open channels" % ("open" if op else "closed", show(x)))
                    n_, r = root(path(hit[0]))
                    if len(r) != 4 or r[3] != fld or idx(r[1]) != F.vals[k0] or P(idx(r[2])) != jv or (ng is not None and n_ != ng):
                        raise Bad(e.where, "the state of spin index %s and parity %s is fed from %s" % (show(jv), par(pv), T.show_atom(hit[0])))
            if not k:
                raise Unresolved("no case")
        guarded(rep, oid, e.where, "the share of the %s channel is the state's population divided by the sum over all open channels" % nm, one)
    # nothing is lost when there is no channel
    if len(B) != 1:
        rep.undecided("C24:decay:none", "%d calls for states without transitions" % len(B))
        return
    S = ctx.sym(m, "specPopulationBypass")
    ws = writes(S)
    if len(ws) != 1:
        rep.undecided("C24:decay:none", "%d population writes" % len(ws))
    else:
        e, pp = ws[0]
        d = e.val - S.load(e.mem, e.ptr, "double")
        rep.decide("C24:decay:none", True if d == S.vals[1] and e.pc == T.TRUE and not e.loops else (None if opaque(d) else False), e.where, "a state without transitions gives its whole population to one level", "%s is added when %s" % (show(d), T.show_cond(e.pc)))


INL = {"specTc2c", "specTc2d", "specTransitionParticleCont", "specTransitionParticleDisc", "tj_index", "specTransmissionSum", "halfint"}


def run(ctx, rep, tier):
    m = ctx.module(inline=lambda f: MC(f) or C.qual(f) in INL)
    gamma(ctx, m, rep)
    gstore(ctx, m, rep)
    neutron(ctx, m, rep)
    nstore(ctx, m, rep)
    decay(ctx, m, rep)
    rep.floor("population writes", 4)
    rep.floor("table rows", 60)
    rep.assumptions += ["level densities, bin widths, transmissions and populations are stored in separate arrays",
                        "neutron transmissions of wave l are stored at 3l (j=l+1/2) and 3l+1 (j=l-1/2)"]
