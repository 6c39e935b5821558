"""Choices driven by random numbers, as the loops that make them show them.

scan(F): every loop that is left as soon as a running sum reaches a random number.  For such a loop the tests of one
iteration, in order, are D_1, D_2 .. D_m (D_i >= 0 or > 0 leaves the loop), all of the form +-acc + weights -+ r:
the weight an exit selects is D_i - D_(i-1), and what the accumulator carries to the next iteration must be D_m."""
from cg.term import P, Poly, ZERO, ONE
from cg import term as T
from cg import lin
from .lib import *
from .phys import is_rng


class Loop:
    __slots__ = ("h", "info", "acc", "d0", "exits", "where", "r", "err", "start", "outer")


def rngs(F, v):
    return {a for a in T.deep_atoms(v) if is_rng(F, a)}


def _cand(F, info, lits):
    """literals comparing an accumulator of this loop: {acc atom: (D as if true leaves, polarity)}"""
    opq = {d[2] for d in info.phis.values() if d[0] == "opq"}
    out = []
    for c, pol in lits:
        if c[0] != "lt" or len(c) > 2 or not isinstance(c[1], Poly):
            continue
        q = c[1]
        acc = [a for a in q.atoms() if a in opq]
        if len(acc) != 1 or abs(q.t.get(((acc[0], 1),), 0)) == 0 or sum(1 for m in q.t if any(x == acc[0] for x, _ in m)) != 1:
            continue
        ini = info.deltas.get(acc[0], (None, None))[0]
        if not (rngs(F, q) or (ini is not None and (rngs(F, ini) or _chain(F, ini)))):
            continue
        out.append((acc[0], q, pol))
    return out


def _chain(F, ini):
    """the accumulator continues one that is compared with a random number"""
    return any(T.atom_of(a)[0] in ("phi", "phix") for a in ini.atoms()) if isinstance(ini, Poly) else False


def scan(F):
    out = {}
    for h, info in F.li.items():
        ex = []
        for e in info.exit_live or []:
            if F.fn.loop_of[e[0]] is not info.L:
                continue
            edge = _cand(F, info, T.implied_literals(F._edge(e[0], e[1])))
            if len(edge) != 1:
                continue
            a, q, pol = edge[0]
            d = q if not pol else -q
            pre = [(q2 if p2 else -q2) for a2, q2, p2 in _cand(F, info, T.implied_literals(F.rc.get(e[0], T.FALSE))) if a2 == a]
            ex.append((len(pre), e, a, d, pre))
        if not ex:
            continue
        accs = {x[2] for x in ex}
        if len(accs) != 1:
            continue
        L = Loop()
        L.h, L.info, L.acc, L.exits, L.err, L.start, L.outer = h, info, ex[0][2], [], None, None, None
        ex.sort(key=lambda x: x[0])
        d1 = ex[0][3]
        s = Fraction(1) / abs(d1.t[((L.acc, 1),)])
        rl = [a for a in d1.atoms() if is_rng(F, a)]
        L.r = rl[0] if len(rl) == 1 else None
        L.d0 = Poly({m: c * s for m, c in d1.t.items() if m == ((L.acc, 1),) or (len(m) == 1 and m[0][0] in rl and m[0][1] == 1)})
        prev = L.d0
        for n, e, a, d, pre in ex:
            d = d * P(s)
            L.exits.append((e, d - prev, d))
            prev = d
        L.where = F.effects[0].where if not F.effects else None
        out[h] = L
    # where each accumulator starts
    for h, L in out.items():
        ini, dl = L.info.deltas.get(L.acc, (None, None))
        if ini is None:
            L.err = "unknown"
            continue
        sg = L.d0.t[((L.acc, 1),)]
        if dl * P(sg) != L.exits[-1][2] - L.d0:
            L.err = ("carry", dl, (L.exits[-1][2] - L.d0) * P(1 / sg))
        L.start = ini
    return out


def begins(F, loops, L, seen=()):
    """True/False/None: the running sum is minus the random number (nothing counted yet) when the first search begins, and
    every later search goes on where the one before ended.  Second value: the random number."""
    ini = L.start
    if ini is None or L.h in seen:
        return None, None, None
    one = ini.single() if isinstance(ini, Poly) else None
    t = None
    if isinstance(ini, Poly) and len(ini.t) == 1:
        (m, c), = ini.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            t = T.atom_of(m[0][0])
    if t is not None and t[0] == "phix":
        for K in loops.values():
            if K.h == t[2] and ("phix",) == t[:1] and K.info.exitmap.get(K.acc) == ini:
                return begins(F, loops, K, seen + (L.h,))
        # the exit value of an outer loop
        o = F.li.get(t[2])
        if o is not None:
            for a, (i0, d) in o.deltas.items():
                if o.exitmap.get(a) == ini:
                    return _outer(F, loops, o, a, seen + (L.h,))
        return None, None, None
    if t is not None and t[0] == "phi":
        o = F.li.get(t[2])
        if o is not None:
            return _outer(F, loops, o, m[0][0], seen + (L.h,))
        return None, None, None
    d = T.dsubst(L.d0, {L.acc: ini})
    rs = [a for a in d.atoms() if is_rng(F, a)]
    if len(rs) != 1:
        return None, None, None
    return d == -Poly({((rs[0], 1),): Fraction(1)}), rs[0], L.h[0] if isinstance(L.h, tuple) else L.h


def _outer(F, loops, o, a, seen):
    """the accumulator of an outer loop: it starts where an earlier search ended and takes over what the inner search carries"""
    ini, d = o.deltas.get(a, (None, None))
    if ini is None:
        return None, None, None
    nxt = d + Poly({((a, 1),): Fraction(1)})
    K = [k for k in loops.values() if k.info.exitmap.get(k.acc) == nxt]
    if not K:
        inner = [i for i in F.li.values() if i is not o for x in i.exitmap.values() if isinstance(x, Poly) and x == nxt]
        if not inner:
            return False, None, None
    M = Loop()
    k = K[0] if K else next(iter(loops.values()))
    M.h, M.start, M.acc = (o.L.header, "o"), ini, a
    M.d0 = T.dsubst(k.d0, {k.acc: Poly({((a, 1),): Fraction(1)})})
    M.info = o
    return begins(F, loops, M, seen)


def nest(F, h):
    """headers of the loops around loop h (h first)"""
    out = []
    L = F.li[h].L
    while L is not None:
        out.append(L.header)
        L = getattr(L, "parent", None)
    return out


def conj(lits):
    b = T.TRUE
    for c, pol in lits:
        x = T.bvar(*c)
        b = T.bdd_and(b, x if pol else T.bdd_not(x))
    return b


def under(v, lits):
    """v where all the literals hold"""
    return given(v, conj(lits))


def given(v, cond):
    if cond in (T.TRUE, T.FALSE):
        return v
    for _ in range(40):
        mp = {}
        for a in T.deep_atoms(v):
            t = T.atom_of(a)
            if t[0] != "ite":
                continue
            n = T.bdd_constrain(t[1].n, cond)
            if n == T.TRUE:
                mp[a] = t[2]
            elif n == T.FALSE:
                mp[a] = t[3]
            elif n != t[1].n and n in (T.bdd_and(n, t[1].n), T.bdd_or(n, t[1].n)):
                mp[a] = T.ite(n, t[2], t[3])
        w = T.dsubst(v, mp) if mp else v
        if isinstance(w, Bd):
            w = Bd(T.bdd_constrain(w.n, cond))
        if w == v:
            return v
        v = w
    return v


def at_exit(F, L, e, v):
    """value v (after the search) for the case that the search ended at exit e, in terms of the iteration it ended in"""
    toks = []
    hs = []
    for h in nest(F, L.h):
        i = F.li[h]
        hs.append(h)
        if e in i.tokens:
            toks += T.implied_literals(i.tokens[e])
    v = under(v, toks)
    mp = {}
    for h in hs:
        i = F.li[h]
        x = i.exitmap.get(i.iv)
        if x is not None and x.single() is not None:
            pass
        if isinstance(x, Poly) and len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and c == 1 and T.atom_of(m[0][0])[0] == "ivx":
                mp[m[0][0]] = Poly({((i.iv, 1),): Fraction(1)})
    v = T.dsubst(v, mp)
    return given(v, conj([l for h in hs for l in lits(T.bdd_not(T.ilt0(Poly({((F.li[h].iv, 1),): Fraction(1)}))))])), toks


def span(F, p, h):
    """(first, last+1) of index p as the loop h runs through all its iterations, None if p is not stepping by one"""
    i = F.li[h]
    c = p.t.get(((i.iv, 1),), 0)
    if c not in (1, -1) or i.trip is None or any(i.iv in T.deep_atoms(Poly({m: x})) for m, x in p.t.items() if m != ((i.iv, 1),)):
        return None
    rest = p - P(c) * Poly({((i.iv, 1),): Fraction(1)})
    if c == 1:
        return rest, rest + i.trip
    return rest - i.trip + ONE, rest + ONE


def after(F, a, b):
    """can the loop b follow the loop a, left without success?"""
    a, b = nest(F, a)[-1], nest(F, b)[-1]
    return a != b and any(c[0] == "exit" and c[2] == a for c, pol in T.implied_literals(F.pc(b)))
