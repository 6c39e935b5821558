"""Text a function prints, as a symbolic stream: pieces of literal text and converted values, guarded and looped."""
import re
from props.lib import *

CONV = re.compile(r"%(?:%|[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?(?:hh|h|ll|l|j|z|t|L)?[diouxXeEfFgGaAcspn])")


class Node:
    __slots__ = ("guard", "pieces", "trip", "iv", "body", "where")

    def __init__(self, guard, pieces=None, trip=None, iv=None, body=None, where=""):
        self.guard = guard; self.pieces = pieces; self.trip = trip; self.iv = iv; self.body = body; self.where = where


def fmt(s, args):
    out = []
    k = 0
    i = 0
    for m in CONV.finditer(s):
        if m.start() > i:
            out.append(("t", s[i:m.start()]))
        if m.group(0) == "%%":
            out.append(("t", "%"))
        else:
            out.append(("c", m.group(0), args[k] if k < len(args) else None))
            k += 1
        i = m.end()
    if i < len(s):
        out.append(("t", s[i:]))
    return out


def pieces(F, e, target):
    """text printed by call e to `target` (a Ptr, or 'stdout'), or None"""
    c = e.callee
    a = e.args
    if c == "printf" and target == "stdout":
        s = cstr(F, a[0])
        if s is None:
            raise Unresolved("format at %s" % e.where)
        return fmt(s, a[1:])
    if c in ("puts", "putchar") and target == "stdout":
        s = cstr(F, a[0]) + "\n" if c == "puts" else chr(int(a[0].const()))
        return [("t", s)]
    if c == "fprintf" and target != "stdout" and a[0] == target:
        s = cstr(F, a[1])
        if s is None:
            raise Unresolved("format at %s" % e.where)
        return fmt(s, a[2:])
    if c in ("fputs", "fputc", "putc", "fwrite") and target != "stdout" and a[1 if c != "fwrite" else 3] == target:
        if c == "fputs":
            s = cstr(F, a[0])
            if s is None:
                raise Unresolved("text at %s" % e.where)
            return [("t", s)]
        if c in ("fputc", "putc"):
            return [("t", chr(int(a[0].const())))]
        raise Unresolved("fwrite at %s" % e.where)
    return None


def nodes(F, target, effects=None):
    """tree of what is printed to target, in order"""
    root = []
    stack = [((), root)]
    for e in (effects if effects is not None else F.effects):
        if e.kind != "call" or e.pc == T.FALSE or not e.callee:
            continue
        p = target.get(id(e)) if isinstance(target, dict) else pieces(F, e, target)
        if p is None:
            if e.callee in F.mod.fns and F.mod.fns[e.callee].has_body and F.mod.fns[e.callee].repo and \
                    target != "stdout" and not isinstance(target, dict) and any(x == target for x in e.args if isinstance(x, Ptr)):
                raise Unresolved("prints through %s at %s" % (e.callee, e.where))
            continue
        loops = e.loops
        while stack[-1][0] != loops[:len(stack[-1][0])]:
            stack.pop()
        while len(stack[-1][0]) < len(loops):
            h = loops[len(stack[-1][0])]
            info = F.li[h]
            if info.trip is None or info.kind != "header":
                raise Unresolved("loop without a known count at %s" % e.where)
            n = Node(F.rc_outer[h], trip=info.trip, iv=info.iv, body=[], where=e.where)
            n.guard = info.hpc
            stack[-1][1].append(n)
            stack.append((loops[:len(stack[-1][0]) + 1], n.body))
        g = e.pc
        if loops:
            info = F.li[loops[-1]]
            g = T.bdd_constrain(g, T.bdd_and(info.hpc, info.cont))
        stack[-1][1].append(Node(g, pieces=p, where=e.where))
    return root


def _tokens(ns, env):
    """tokens under a case: env maps node -> included"""
    out = []
    for n in ns:
        if not env.get(id(n)):
            continue
        if n.pieces is not None:
            for p in n.pieces:
                if p[0] == "t" and out and out[-1][0] == "t":
                    out[-1] = ("t", out[-1][1] + p[1])
                else:
                    out.append(p)
        else:
            out.append(("loop", n))
    return out


def compare_streams(got, exp, assume=(), depth=0, limit=3000):
    """list of (where, text, undecided?) differences"""
    got, exp = expand(got), expand(exp)
    diffs = []
    seen = set()

    def diff(w, t, und=False):
        if (w, t) not in seen:
            seen.add((w, t))
            diffs.append((w, t, und))
    gs = [n.guard for n in got] + [n.guard for n in exp]
    loopn = [n for n in got + exp if n.trip is not None]
    for n in loopn:
        gs.append(T.bdd_not(T.ilt0(n.trip - ONE)))
    cs = lin.cases([], assume, limit, conds=gs)
    if cs is None:
        return [("", "too many cases", True)]
    for lits_, _, vals in cs:
        vals = list(vals)
        env = {}
        trips = vals[len(got) + len(exp):]
        tv = {id(n): v for n, v in zip(loopn, trips)}
        for n, v in zip(got + exp, vals):
            env[id(n)] = v == T.TRUE and (n.trip is None or tv[id(n)] == T.TRUE)
        a = _tokens(got, env); b = _tokens(exp, env)
        when = lin.showlits(lits_)[:200]
        for i in range(max(len(a), len(b))):
            if i >= len(a) or i >= len(b):
                x = a[i] if i < len(a) else None
                y = b[i] if i < len(b) else None
                diff(first_where(got), "when [%s]: prints %s where %s is expected" % (when, tok(x), tok(y)))
                break
            x, y = a[i], b[i]
            if x[0] != y[0]:
                diff(first_where(got), "when [%s]: prints %s where %s is expected" % (when, tok(x), tok(y)))
                break
            if x[0] == "t":
                if x[1] != y[1]:
                    diff(first_where(got), "prints %r where %r is expected" % (x[1], y[1]))
                    break
            elif x[0] == "c":
                if x[1] != y[1]:
                    diff(first_where(got), "prints with %s where %s is expected" % (x[1], y[1]))
                if x[2] is None or y[2] is None or not isinstance(x[2], type(y[2])):
                    if x[2] != y[2]:
                        diff(first_where(got), "prints %r where %r is expected" % (x[2], y[2]))
                    continue
                if isinstance(x[2], Poly):
                    u = lin.simp(x[2], lits_); v = lin.simp(y[2], lits_)
                    d = lin.difference(u, v, lits_)
                    if d is not None:
                        if d[0] == "limit":
                            diff("", "too many cases", True)
                        else:
                            diff(first_where(got), "when [%s]: prints %s where %s is expected" % (lin.showlits(d[0])[:200], show(d[1]), show(d[2])), opaque_rel(d[1], d[2]))
                elif x[2] != y[2]:
                    diff(first_where(got), "prints %r where %r is expected" % (x[2], y[2]))
            else:
                gx, gy = x[1], y[1]
                d = lin.difference(gx.trip, gy.trip, lits_)
                if d is not None:
                    k = multiple(gx.trip, gy.trip)
                    if k:
                        gx = chunk(gx, k, gy.trip)
                        d = None
                if d is not None:
                    diff(gx.where, "a list of %s entries is printed where %s are expected" % (show(gx.trip), show(gy.trip)), opaque_rel(gx.trip, gy.trip))
                    continue
                bv = T.var("lv", depth)
                la = lits_ + lits(T.bdd_not(T.ilt0(bv)), T.ilt0(bv - gy.trip))
                diffs2 = compare_streams(sub(gx.body, gx.iv, bv), sub(gy.body, gy.iv, bv), la, depth + 1)
                for w, t, und in diffs2:
                    diff(w, t, und)
    return diffs


def expand(ns):
    """loops of a small constant count written out"""
    out = []
    for n in ns:
        c = n.trip.const() if n.trip is not None else None
        if c is None or not 0 <= c <= 16:
            out.append(n)
            continue
        for k in range(int(c)):
            for x in sub(n.body, n.iv, P(k)):
                x.guard = T.bdd_and(n.guard, x.guard)
                out += expand([x]) if x.trip is not None else [x]
    return out


def multiple(a, b):
    """k with a == k*b, k a small integer above 1"""
    for m, c in b.t.items():
        k = a.t.get(m, 0) / c
        if k.denominator == 1 and 1 < k <= 8 and a == b * P(k):
            return int(k)
    return None


def chunk(n, k, trip):
    """a loop of k*trip iterations as one of trip iterations, k at a time"""
    iv = T.var("chunk", n.iv)
    i = Poly({((n.iv, 1),): 1})
    div, rem = T.fn("idiv", i, P(k)).single(), T.fn("irem", i, P(k)).single()
    body = []
    for j in range(k):
        body += sub(n.body, n.iv, iv * P(k) + P(j), {div: iv, rem: P(j)})
    return Node(n.guard, trip=trip, iv=iv.single(), body=body, where=n.where)


def sub(ns, iv, bv, more=None):
    out = []
    mp = {iv: bv}
    if more:
        mp.update(more)
    for n in ns:
        g = T.dsubst(Bd(n.guard), mp).n
        if n.pieces is not None:
            out.append(Node(g, pieces=[(p[0], p[1], T.dsubst(p[2], mp)) if p[0] == "c" and p[2] is not None else p for p in n.pieces], where=n.where))
        else:
            out.append(Node(g, trip=T.dsubst(n.trip, mp), iv=n.iv, body=sub(n.body, iv, bv, more), where=n.where))
    return out


def first_where(ns):
    for n in ns:
        if n.where:
            return n.where
    return ""


def tok(x):
    if x is None:
        return "nothing"
    if x[0] == "t":
        return repr(x[1])
    if x[0] == "c":
        return "%s of %s" % (x[1], show(x[2]))
    return "a list of %s entries" % show(x[1].trip)
