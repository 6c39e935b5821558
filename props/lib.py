"""Helpers shared by the property rules."""
import re
from fractions import Fraction
from cg import term as T, sym, ctx as C
from cg.term import P, Poly, Ptr, Bd, ZERO, ONE, TRUE, FALSE
from cg.ir import AnalysisBroken
from cg.sym import _ptrcases as ptrcases

GETTERS = lambda f: re.match(r"^(cgmEvent|cgmfEvent)::get\w+$", C.qual(f)) is not None


def member(types, rec, name):
    """(offset, type) of member `name` of record rec, looking through base classes"""
    if rec not in types.rec:
        raise AnalysisBroken("record %s not found" % rec)
    for m in types.members(rec):
        if m["name"] == name:
            return m["off"], m["type"]
    for m in types.members(rec):
        if m["name"] == "<base>":
            r = member_opt(types, m["type"], name)
            if r:
                return m["off"] + r[0], r[1]
    raise AnalysisBroken("member %s::%s not found" % (rec, name))


def member_opt(types, rec, name):
    try:
        return member(types, rec, name)
    except AnalysisBroken:
        return None


LLTY = {"double": "double", "int": "i32", "bool": "i8", "float": "float", "unsigned int": "i32", "long": "i64", "unsigned long": "i64", "char": "i8"}


def read(F, base, path, mem=None):
    """value at base->a.b[i].c in memory `mem` (entry memory by default).
    path: list of member names and indices (int / Poly); '*' dereferences a pointer member"""
    mem = mem or F.mem0
    p = base
    ty = p.ty
    if p.base[0] in ("g", "al"):
        ty, _ = F.basety(p)
    for k, c in enumerate(path):
        if isinstance(c, str) and c != "*":
            if ty and ty.endswith("*"):
                q = F.load(mem, Ptr(p.base, p.off, p.ty), "ptr")
                p = Ptr(q.base, q.off, q.ty or F.types.pointee(ty))
                ty = F.types.pointee(ty)
            off, mt = member(F.types, ty, c)
            p = Ptr(p.base, p.off + P(off), p.ty, p.off + P(off))
            ty = mt
        else:
            if c == "*":
                c = 0
            s = F.types.split(ty)
            if s[0] == "arr":
                es = F.types.size(s[2])
                p = Ptr(p.base, p.off + P(c) * P(es), p.ty, p.fld)
                ty = s[2]
            elif s[0] == "ptr":
                q = F.load(mem, p, "ptr")
                ty = s[1]
                p = Ptr(q.base, q.off + P(c) * P(F.types.size(ty) or 0), q.ty or ty)
            else:
                p = Ptr(p.base, p.off + P(c) * P(F.types.size(ty) or 0), p.ty, p.fld)
    lt = "ptr" if ty and ty.endswith("*") else LLTY.get(ty)
    if lt is None:
        raise AnalysisBroken("cannot read %s of type %s" % (path, ty))
    return F.load(mem, p, lt)


def glob(F, name):
    """pointer to the global variable with source name `name`"""
    for g, d in F.mod.globals.items():
        if d.get("name") == name and not d.get("infn"):
            return Ptr(("g", g), ZERO, d.get("ditype"))
    raise AnalysisBroken("global %s not found" % name)


def ret(F):
    """value returned (all returns merged)"""
    rs = [e for e in F.effects if e.kind == "ret"]
    if not rs:
        raise AnalysisBroken("%s never returns" % F.fn.dem)
    v = rs[-1].val
    for e in rs[:-1]:
        v = T.ite(e.pc, e.val, v)
    return v


def show(v):
    s = T.show(v) if isinstance(v, Poly) else repr(v)
    return s if len(s) < 300 else s[:300] + "..."


OPAQUE = ("call", "undef", "op", "phix", "phi", "ldx", "cast", "mix", "val", "ex", "ins", "ivx", "k")


def opaque(v):
    """does the value depend on something the analysis could not resolve?"""
    if isinstance(v, Ptr) and v.base[0] in ("call", "gep", "phi", "op", "ex"):
        return True
    for a in T.deep_atoms(v):
        t = T.atom_of(a)
        if t[0] in OPAQUE:
            return True
        if t[0] == "ld" and t[3] != 0:
            return True
    return False


def same(a, b):
    """True / False (definitely different terms) / None"""
    if isinstance(a, Poly) and isinstance(b, Poly):
        if T.equal(a, b):
            return True
    elif a == b:
        return True
    if opaque(a):
        return None
    return False


def calls(F, pred):
    out = []
    for e in F.effects:
        if e.kind == "call" and e.callee is not None:
            g = F.mod.fns.get(e.callee)
            q = C.qual(g) if g is not None else e.callee
            if pred(q) if callable(pred) else q == pred:
                out.append(e)
    return out


def cq(F, e):
    g = F.mod.fns.get(e.callee) if e.callee else None
    return C.qual(g) if g is not None else e.callee


def cstr(F, v):
    """string constant a pointer value denotes"""
    if isinstance(v, Ptr) and v.base[0] == "g":
        c = v.off.const()
        if c is None:
            return None
        return F.mod.cstr(["cg", ["g", v.base[1]], int(c)])
    return None


# ------------------------------------------------------------------ contents of arrays after loops
from cg import lin
from cg.ir import AnalysisBroken as _AB


def lit(n):
    """BDD that is one literal -> (cond, polarity)"""
    l = T.implied_literals(n)
    if len(l) != 1:
        raise AnalysisBroken("not a literal: %s" % T.show_cond(n))
    return l[0]


def lits(*ns):
    return [lit(n) for n in ns if n not in (T.TRUE, T.FALSE)]


class Unresolved(Exception):
    pass


def content(F, base, prefix, k, old=None, effects=None, es=8):
    """term for element k of the array at base.prefix after the given effects (default: the whole function);
    writes inside counted loops are inverted (index = +-iv + r); raises Unresolved when a write cannot be"""
    r = old if old is not None else T.var("old", base, prefix, k)
    for e in (effects if effects is not None else F.effects):
        if e.pc == T.FALSE:
            continue
        if e.kind == "store":
            if e.loc.base != base:
                continue
            c = e.loc.comps
            if c[:len(prefix)] != prefix:
                continue
            if len(c) == 1 and c[0][0] == "o" and not prefix:      # array of unknown type: byte offset
                cond, val = _invert(F, e, T.div(P(c[0][1]), P(es)), k)
                r = T.ite(cond, val, r)
                continue
            if len(c) != len(prefix) + 1 or c[-1][0] != "i":
                raise Unresolved("write of unknown shape at %s" % e.where)
            cond, val = _invert(F, e, c[-1][1], k)
            r = T.ite(cond, val, r)
        elif e.kind == "memcpy":
            d, s, n = e.args[:3]
            if d.base != base:
                continue
            if prefix:
                raise Unresolved("block copy at %s" % e.where)
            if e.loops:
                raise Unresolved("block copy in a loop at %s" % e.where)
            k2 = k - T.div(d.off, P(es))
            v = F.load(e.mem, Ptr(s.base, s.off + k2 * P(es), s.ty), "double" if es == 8 else "i32")
            inr = T.bdd_and(T.bdd_not(T.ilt0(k2)), T.ilt0(k2 - T.div(n, P(es))))
            r = T.ite(T.bdd_and(e.pc, inr), v, r)
        elif e.kind == "memset":
            d, v, n = e.args[:3]
            if d.base != base:
                continue
            if prefix or d.off.t or v.const() != 0 or e.loops:
                raise Unresolved("block fill at %s" % e.where)
            inr = T.bdd_and(T.bdd_not(T.ilt0(k)), T.ilt0(k - T.div(n, P(es))))
            r = T.ite(T.bdd_and(e.pc, inr), T.ZERO, r)
        elif e.kind == "call" and e.callee and any(isinstance(a, Ptr) and any(q.base == base for _, q in ptrcases(a)) for a in e.args) and base[0] != "arg" \
                and not F.summ.is_pure(e.callee) and not e.callee.startswith("_Zd"):
            raise Unresolved("written by a call at %s" % e.where)
    return r


def _invert(F, e, idx, k):
    """(condition, value) of element k being written by store e at index idx"""
    dep = []
    at = T.deep_atoms(idx)
    for h in e.loops:
        if F.li[h].iv in at:
            dep.append(h)
    if len(dep) != 1:
        if not dep and not e.loops:
            return T.bdd_and(e.pc, T.eq0(k - idx)), e.val
        raise Unresolved("write at %s" % e.where)
    if len(e.loops) != 1:
        raise Unresolved("nested write at %s" % e.where)
    h = dep[0]
    info = F.li[h]
    m = ((info.iv, 1),)
    c = idx.t.get(m)
    rest = idx - Poly({m: c}) if c else None
    if c not in (1, -1) or info.iv in T.deep_atoms(rest) or info.trip is None:
        raise Unresolved("write at %s: index %s, trip %s" % (e.where, T.show(idx), info.trip and T.show(info.trip)))
    iv = (k - rest) * P(int(c))
    mp = {info.iv: iv}
    pc = T.dsubst(Bd(e.pc), mp).n
    inr = T.bdd_and(T.bdd_not(T.ilt0(iv)), T.ilt0(iv - info.trip))
    return T.bdd_and(pc, inr), T.dsubst(e.val, mp)


def covered(rep, oid, F, stores, index, lo, hi, where, text, assume=(), cond=None):
    """every element lo..hi is written by one of the stores; index(e) gives the element a store writes"""
    k = T.var("elem", oid)
    u = T.FALSE
    for e in stores:
        try:
            c, _ = _invert(F, e, index(e), k)
        except Unresolved as x:
            rep.undecided(oid, text + ": " + str(x))
            return None
        u = T.bdd_or(u, c)
    asm = list(assume) + lits(T.bdd_not(T.ilt0(k - lo)), T.bdd_not(T.ilt0(hi - k)))
    return compare(rep, oid, F, T.ite(u, ONE, ZERO), ONE, where, text, asm, cond)


def compare(rep, oid, F, got, exp, where, text, assume=(), cond=None):
    """record whether got == exp in every case consistent with `assume` (and `cond`)"""
    d = lin.difference(got, exp, assume, where=cond)
    if d is None:
        rep.ok(oid, text)
        return True
    if d[0] == "limit":
        rep.undecided(oid, text + ": too many cases")
        return None
    l, x, y = d
    if opaque_rel(x, y):
        r = induct(F, got, exp, assume, cond)
        if r is True:
            rep.ok(oid, text + " (by induction over the loop)")
            return True
        if r is not None:
            rep.bad(oid, where, text + "; but %s" % r)
            return False
        rep.undecided(oid, text + ": when %s: %s against %s" % (lin.showlits(l)[:300], show(x), show(y)))
        return None
    rep.bad(oid, where, text + "; but when [%s] it is %s instead of %s" % (lin.showlits(l)[:400], show(x), show(y)))
    return False


def induct(F, got, exp, assume, cond):
    """got mentions one loop-carried value phi of known increment: prove got == exp by induction over the iteration,
    or find an early iteration where it fails.  True / text of a counterexample / None"""
    if not isinstance(got, Poly) or not isinstance(exp, Poly):
        return None
    ph = [a for a in T.deep_atoms(got) if T.atom_of(a)[0] == "phi"]
    if len(ph) != 1:
        return None
    a = ph[0]
    info = F.li.get(T.atom_of(a)[2]) if T.atom_of(a)[1] == F.fn.name else None
    if info is None or a not in info.deltas:
        return None
    ini, delta = info.deltas[a]
    if a in T.deep_atoms(delta) or any(b in T.deep_atoms(delta) for b in info.deltas):
        return None
    c = got.t.get(((a, 1),))
    rest = got - Poly({((a, 1),): c}) if c else None
    ivp = Poly({((info.iv, 1),): Fraction(1)})
    at = lambda v, k: T.dsubst(v, {info.iv: P(k)})
    wb = cond if cond is not None else T.TRUE
    for c_, pol in assume:
        b = T.bvar(*c_)
        wb = T.bdd_and(wb, b if pol else T.bdd_not(b))
    if c and a not in T.deep_atoms(rest):
        g = T.div(exp - rest, Poly({(): c}))
        z = lin.difference(ini, at(g, 0), assume)
        s = lin.difference(delta, at(g, ivp + ONE) - g, list(assume) + lits(T.bdd_not(T.ilt0(ivp))), where=cond)
        if z is None and s is None:
            return True
    val = ini
    for k in range(4):
        mp = {info.iv: P(k), a: val}
        cc = T.dsubst(Bd(wb), mp).n
        if cc == T.FALSE:
            break
        d = lin.difference(T.dsubst(got, mp), at(exp, k), where=cc)
        if d is not None and d[0] != "limit" and not opaque_rel(d[1], d[2]):
            return "in iteration %d, when [%s], it is %s instead of %s" % (k, lin.showlits(d[0])[:300], show(d[1]), show(d[2]))
        val = val + at(delta, k)
    return None


def opaque_rel(got, exp):
    """got contains unresolved atoms that exp does not have"""
    have = T.deep_atoms(exp)
    if isinstance(got, Ptr) and got.base[0] in ("call", "gep", "phi", "op", "ex") and got.base != getattr(exp, "base", None):
        return True
    for a in T.deep_atoms(got):
        if a in have:
            continue
        t = T.atom_of(a)
        if t[0] in OPAQUE:
            return True
        if t[0] == "ld" and isinstance(t[3], (int, tuple)) and t[3] != 0 and isinstance(t[3], tuple) and t[3][0] in ("loop", "loopx"):
            return True
    return False


def where(F):
    return "%s:%s" % (F.fn.file, F.fn.line)


def final(F):
    rs = [e for e in F.effects if e.kind == "ret" and e.pc != T.FALSE]
    if len(rs) != 1:
        raise AnalysisBroken("%s has %d returns" % (F.fn.dem, len(rs)))
    return rs[0].mem


def noexit(F):
    """condition under which no call outside a loop ends the process"""
    r = T.TRUE
    for e in F.effects:
        if e.kind == "call" and e.callee in F.mod.noreturn and not e.loops:
            r = T.bdd_and(r, T.bdd_not(e.pc))
    return r


def returns(F):
    r = T.FALSE
    for e in F.effects:
        if e.kind == "ret":
            r = T.bdd_or(r, e.pc)
    return r


def searched(pc, limit=None):
    """pc without the conditions that only say a search loop found something: that it was left through its inner exit,
    or that the index it stopped at is below `limit`"""
    for c, pol in T.implied_literals(pc):
        hit = c[0] == "exit"
        if not hit and c[0] == "lt" and not pol and limit is not None and isinstance(c[1], Poly):
            d = limit - ONE - c[1]
            hit = len(d.t) == 1 and d.t == {((a, 1),): Fraction(1) for a in d.atoms()} and all(T.atom_of(a)[0] in ("ivx", "phix") for a in d.atoms())
        if hit:
            v = T.bdd_top(T.bvar(*c))[0]
            pc = T.bdd_or(T.bdd_cofactor(pc, v, True), T.bdd_cofactor(pc, v, False))
    return pc
