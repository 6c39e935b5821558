"""Every command-line option sets the quantity it is documented for, and that quantity reaches the simulation.

Rule: summary of the option loop: for each documented letter the variables assigned under that letter and the value
(conversion of the option's argument) are compared with the documented table; defaults are compared with the
initialisers; the name of the result file is computed as a sequence of pieces for each case (name given / not given,
events / yields) and compared; the driver's constructor, file and printing calls take the current values of these
variables, which nothing else changes."""
import re
from props.lib import *
from props import reach
from props.strings import Strs, pretty, norm

NUM = {"e": ("incidentEnergy", "double", -1.0), "n": ("nevents", "i32", 0), "i": ("ZAIDt", "i32", 0),
       "t": ("timeCoincidenceWindow", "double", 1e-8), "s": ("startingEvent", "i32", 1)}
STR = {"f": "outfilename", "d": "path"}
REAL = re.compile(r"^(atof|strtod|strtold|.*\bstod|.*\bstold)\b")
INT = re.compile(r"^(atoi|atol|atoll|strtol|strtoul|strtoll|.*\bstoi|.*\bstol|.*\bstoll)\b")


def at(n, mp):
    return T.dsubst(Bd(n), mp).n


def unknown(n, S):
    """conditions of n that are not about numbers or contents the rule understands"""
    return [c for c in (T.cond_of(v) for v in T.bdd_support(n)) if c[0] not in ("lt", "eq") and S.meaning(c, True) is None]


def run(ctx, rep, tier):
    m = ctx.module(())
    F = ctx.sym(m, ctx.fn(m, "readUserInput"))
    S = Strs(F)
    rep.part("option table", options, ctx, m, F, S, rep)
    rep.part("defaults", defaults, m, F, S, rep)
    rep.part("result file name", filename, F, S, rep)
    rep.part("time window", window, F, rep)
    for mpi in (False, True):
        mm = ctx.module((), mpi=mpi)
        rep.part("driver (%s)" % ("MPI" if mpi else "serial"), driver, ctx, mm, rep, "mpi" if mpi else "serial")


def options(ctx, m, F, S, rep):
    gs = [e for e in F.effects if e.kind == "call" and e.callee in ("getopt", "__posix_getopt") and e.pc != T.FALSE]
    if len(gs) != 1 or not gs[0].loops or not isinstance(gs[0].res, Poly):
        raise Unresolved("option loop")
    g = gs[0]
    spec = cstr(F, g.args[2]) if len(g.args) > 2 else None
    if spec is None:
        raise Unresolved("option string")
    a = list(g.res.atoms())
    if len(a) != 1:
        raise Unresolved("result of getopt")
    h = g.loops[-1]
    takes = dict(re.findall(r"([a-zA-Z])(:?)", spec))
    watched = {n for n, _, _ in NUM.values()}
    stores = [e for e in F.effects if e.kind == "store" and e.pc != T.FALSE and e.loc.base[0] == "g" and not e.loc.comps and e.loc.base[1] in watched]
    skeys = {S.global_(n): n for n in STR.values()}
    sets = [(e, skeys[k], v) for e, k, v in S.log if k in skeys]
    for c in "eniftds":
        want = NUM[c][0] if c in NUM else STR[c]
        w = g.where
        rep.decide("argument:" + c, takes.get(c) == ":", w, "option -%s is accepted and takes an argument" % c, "option string is %r" % spec)
        mp = {a[0]: P(ord(c))}
        hit = {}
        for e in stores:
            if h in e.loops:
                pc = at(e.pc, mp)
                if pc != T.FALSE:
                    hit.setdefault(e.loc.base[1], []).append((e, e.val, pc))
        for e, n, v in sets:
            if h in e.loops:
                pc = at(e.pc, mp)
                if pc != T.FALSE:
                    hit.setdefault(n, []).append((e, v, pc))
        later = [e for e in stores if h not in e.loops and e.loc.base[1] == want]
        if want not in hit:
            rep.decide("option:" + c, None if later else False, w, "option -%s sets %s" % (c, want), "under -%s it sets %s" % (c, ", ".join(sorted(hit)) or "nothing"))
        for n in sorted(hit):
            if n != want:
                rep.bad("option:%s:%s" % (c, n), hit[n][0][0].where, "option -%s also changes %s" % (c, n))
        if want in hit:
            e, v, pc = hit[want][-1]
            if c in NUM:
                good, why = number(F, S, e, v, NUM[c][1])
            else:
                good, why = string(F, S, e, v)
            rep.decide("option:" + c, good, e.where, "option -%s sets %s to its argument" % (c, want), why)
    for e in stores:
        if h in e.loops:
            continue
        n = e.loc.base[1]
        cur = F.load(e.mem, glob(F, n), "double" if n in ("incidentEnergy", "timeCoincidenceWindow") else "i32")
        same_ = e.val == cur
        opq = isinstance(e.val, Poly) and any(T.atom_of(x)[0] in ("phi", "phix", "ivx") for x in e.val.atoms())
        rep.decide("kept:" + n, True if same_ else None if opq else False, e.where, "%s keeps the value of its option" % n, "set to %s" % show(e.val))
    unk = {x: ord(x) for x in "?" + "".join(set(takes) - set("eniftds"))}
    for x, o in unk.items():
        for e in stores:
            if h in e.loops and at(e.pc, {a[0]: P(o)}) != T.FALSE:
                rep.bad("option:%s:%s" % (x, e.loc.base[1]), e.where, "option %r changes %s" % (x, e.loc.base[1]))
    rep.count("option letters", len(takes))


def number(F, S, e, v, ty):
    if not isinstance(v, Poly):
        return None, "value not resolved"
    ats = list(v.atoms())
    if v.const() is not None:
        return False, "set to the constant %s" % show(v)
    if len(ats) != 1 or v != Poly({((ats[0], 1),): Fraction(1)}):
        if any(T.atom_of(x)[0] == "call" for x in T.deep_atoms(v)):
            return False, "set to %s" % show(v)
        return None, "set to %s" % show(v)
    t = T.atom_of(ats[0])
    if t[0] == "ite" and all(T.cond_of(x)[0] in ("lt", "eq") for x in T.bdd_support(t[1].n)):
        return False, "set to %s" % show(v)
    if t[0] == "fn" and t[1] in ("toint", "trunc") and len(t[2]) == 1:
        t = T.atom_of(list(t[2][0].atoms())[0]) if isinstance(t[2][0], Poly) and len(t[2][0].atoms()) == 1 else t
        if t[0] != "call":
            return None, "set to %s" % show(v)
    if t[0] != "call":
        return None, "set to %s" % show(v)
    f = F.mod.fns.get(t[1])
    d = f.dem if f is not None else t[1]
    src = t[2][0] if t[2] else None
    ok = isinstance(src, Ptr) and src.base[0] == "P" and T.atom_of(src.base[1])[0] == "ld" and T.atom_of(src.base[1])[1] == ("g", "optarg") and not src.off.t
    if not ok:
        cs = [x for x in F.effects if x.kind == "call" and x.res == Poly({((ats[0], 1),): Fraction(1)})]
        k = S.of(cs[0], 0) if cs else []
        ok = len(k) == 1 and len(k[0][1]) == 1 and k[0][1][0][0] == "c" and isoptarg(k[0][1][0][1])
    if not ok:
        return None, "set from %s" % show(src)
    if REAL.match(d):
        return True, ""
    if re.match(r"^(strtof|.*\bstof)\b", d):
        return (False, "converted with single precision (%s)" % d) if ty == "double" else (True, "")
    if INT.match(d):
        return (False, "converted as an integer (%s)" % d) if ty == "double" else (True, "")
    return None, "converted by %s" % d


def isoptarg(p):
    return isinstance(p, Ptr) and p.base[0] == "P" and T.atom_of(p.base[1])[0] == "ld" and T.atom_of(p.base[1])[1] == ("g", "optarg") and not p.off.t


def string(F, S, e, v):
    if len(v) == 1 and len(v[0][1]) == 1 and v[0][1][0][0] == "c" and isoptarg(v[0][1][0][1]):
        return True, ""
    for c, p in v:
        if any(q[0] == "s" and q[1][0] == "?" for q in p):
            return None, pretty(p)
    return False, "set to %s" % " or ".join(pretty(p) for c, p in v)


def defaults(m, F, S, rep):
    for c, (n, ty, d) in sorted(NUM.items()):
        g = m.globals.get(n)
        if g is None:
            raise Unresolved("variable %s" % n)
        v = g.get("init")
        x = 0 if v is None or v[0] in ("z", "u") else float.fromhex(v[1]) if v[0] == "f" else int(v[1]) if v[0] == "i" else None
        rep.decide("default:" + n, None if x is None else x == d, g.get("where") or "utils/cgmf/cgmf.cpp", "%s is %g unless option -%s is given" % (n, d, c), "initialised to %s" % x)


def filename(F, S, rep):
    k = S.global_("outfilename")
    if k is None or k not in S.st:
        raise Unresolved("result file name")
    hs = [x for x in S.mods if k in S.mods[x]]
    O = (("s", ("after", hs[0], S.name(k))),) if hs else (("s", ("init", S.name(k))),)
    ip = F.vals.get(2)
    tail = (("t", "."), ("num", ip))
    rets = [e for e in F.effects if e.kind == "ret"]
    for given in (True, False):
        for n in (1, 2, 100000, -1, -2, -100000):
            exp = norm((O if given else (("t", "histories.cgmf" if n > 0 else "yields.cgmf"),)) + tail)
            found = False
            for c, p in S.st[k]:
                c = T.bdd_and(c, rets[0].pc) if len(rets) == 1 else c
                c = case(S, c, {O: not given}, {"nevents": n}, F)
                if c == T.FALSE:
                    continue
                found = True
                txt = "a run of %s %s writes to %s" % ("events" if n > 0 else "yields", "with -f" if given else "without -f", pretty(exp))
                if p == exp:
                    rep.ok("file:%s:%d" % (given, n), txt)
                else:
                    opq = bool(unknown(c, S)) or any(q[0] == "s" and q[1][0] == "?" for q in p)
                    rep.decide("file:%s:%d" % (given, n), None if opq else False, "utils/cgmf/cgmf.cpp (readUserInput)", txt, "here to " + pretty(p))
            if not found:
                raise Unresolved("result file name")


def case(S, c, empty, nums, F):
    """condition c in the case: contents -> is it empty; numeric globals -> value"""
    for v in list(T.bdd_support(c)):
        q = T.cond_of(v)
        s = S.meaning(q, True)
        if s is not None and len(s[1]) == 1 and len(s[2]) == 1 and (s[2][0][1] == () or s[1][0][1] == ()):
            x = s[1][0][1] if s[2][0][1] == () else s[2][0][1]
            if x in empty:
                c = T.bdd_cofactor(c, v, empty[x] == s[3])
    mp = {}
    for v in T.bdd_support(c):
        for a in T.deep_atoms(T.cond_of(v)[1:]):
            t = T.atom_of(a)
            if t[0] == "ld" and t[1][0] == "g" and t[1][1] in nums and not t[2]:
                mp[a] = P(nums[t[1][1]])
    return at(c, mp) if mp else c


def window(F, rep):
    rets = [e for e in F.effects if e.kind == "ret"]
    if len(rets) != 1:
        raise Unresolved("return of readUserInput")
    t = F.load(rets[0].mem, glob(F, "timeCoincidenceWindow"), "double")
    exp = T.bdd_or(T.bdd_not(T.lt0(t)), T.eq0(t + ONE))
    d = lin.cond_difference(rets[0].pc, exp)
    # other reasons to stop may exist
    if d is None:
        rep.ok("window", "a window is accepted exactly when it is -1 or not negative")
        return
    if d[0] == "limit" or any(c[0] not in ("lt", "eq") for c, p in d[0]):
        rep.undecided("window", "validity of the time window")
        return
    rep.bad("window", rets[0].where, "a window is accepted exactly when it is -1 or not negative: differs when %s" % ", ".join(show_lit(x) for x in d[0]))


def show_lit(x):
    c, p = x
    return ("" if p else "not ") + "%s %s 0" % (show(c[1]), "=" if c[0] == "eq" else "<") if c[0] in ("lt", "eq") else str(c)[:40]


def driver(ctx, m, rep, cfg):
    F = ctx.sym(m, ctx.fn(m, "main"))
    S = Strs(F)
    summ = ctx.summ(m)
    live = reach.reachable(m, cut=("readUserInput",) + (("printSummaryEvents",) if cfg == "mpi" else ()))
    for n in [x[0] for x in NUM.values()]:
        for f in m.fns.values():
            if f.name in live and f.repo and f.has_body and any(p == ("G", n) for p, _ in summ.direct(f)[0]):
                q = f.dem.split("(")[0]
                if q == "readUserInput" or (n == "nevents" and q == "printSummaryEvents" and cfg == "mpi") or f.dem.startswith("_GLOBAL") or "__cxx_global" in f.dem:
                    continue
                rep.bad("%s:writes:%s:%s" % (cfg, n, q), f.where if hasattr(f, "where") else q, "%s changes %s after the options were read" % (q, n))
    cur = lambda e, n: F.load(e.mem, glob(F, n), "double" if n in ("incidentEnergy", "timeCoincidenceWindow") else "i32")
    rd = calls(F, lambda f: f == "readUserInput") or [e for e in F.effects if e.kind == "call" and cq(F, e) == "readUserInput"]
    if len(rd) != 1:
        raise Unresolved("call of readUserInput")
    rd = rd[0]
    nev = lambda e: cur(e, "nevents")
    n = 0
    for e in F.effects:
        if e.kind != "call" or not e.callee or e.pc == T.FALSE:
            continue
        q = cq(F, e)
        exp = None
        if q == "cgmfEvent::cgmfEvent" and len(e.args) == 5:
            exp = [(1, cur(e, "ZAIDt"), "the isotope of -i"), (2, cur(e, "incidentEnergy"), "the energy of -e"), (4, cur(e, "timeCoincidenceWindow"), "the window of -t")]
        elif q == "cgmfYields::cgmfYields" and len(e.args) >= 5:
            exp = [(1, cur(e, "ZAIDt"), "the isotope of -i"), (2, cur(e, "incidentEnergy"), "the energy of -e"), (3, -nev(e), "the number of -n")]
            s = S.of(e, 4)
            k = S.global_("outfilename")
            rep.decide("%s:yields:file" % cfg, True if s and all(p == (("s", ("init", "outfilename")),) for c, p in s) else None if not s or any(x[0] == "s" and x[1][0] == "?" for c, p in s for x in p) else False,
                       e.where, "yields go to the result file", " or ".join(pretty(p) for c, p in s))
        elif q == "printEventToFile" and len(e.args) == 3:
            exp = [(2, cur(e, "timeCoincidenceWindow"), "the window of -t")]
        elif e.callee == "fopen":
            s = S.of(e, 0)
            rep.decide("%s:events:file" % cfg, True if s and all(p == (("s", ("init", "outfilename")),) for c, p in s) else None if not s or any(x[0] in ("c", "s") and x[1][0] == "?" for c, p in s for x in p) else False,
                       e.where, "events go to the result file", " or ".join(pretty(p) for c, p in s))
            md = cstr(F, e.args[1])
            rep.decide("%s:events:mode" % cfg, None if md is None else md in ("w", "wt", "w+"), e.where, "the result file is written anew", "mode %r" % md)
        else:
            continue
        n += 1
        F_after = F.effects.index(e) > F.effects.index(rd) and T.bdd_implies(e.pc, rd.pc)
        rep.decide("%s:order:%s" % (cfg, q), F_after, e.where, "options are read before %s" % q)
        for i, x, what in exp or ():
            rep.decide("%s:%s:%d" % (cfg, q, i), agree(e.args[i], x), e.where, "%s receives %s" % (q, what), "receives %s" % show(e.args[i]))
        # which mode
        if q == "cgmfYields::cgmfYields":
            rep.decide("%s:mode:yields" % cfg, T.bdd_implies(e.pc, T.ilt0(nev(e))), e.where, "yields are generated only for a negative -n")
        if q == "cgmfEvent::cgmfEvent":
            rep.decide("%s:mode:events" % cfg, T.bdd_implies(e.pc, T.bdd_not(T.ilt0(nev(rd2(F, rd, e))))) or None, e.where, "events are generated only for a non-negative -n")
            h = e.loops[-1] if e.loops else None
            i = F.li.get(h)
            tr = i.trip if i is not None and i.kind in ("header", "latch") else None
            rep.decide("%s:count" % cfg, None if tr is None else same(tr, nev(rd2(F, rd, e))), e.where, "as many events as -n says", "loop runs %s times" % (show(tr) if tr is not None else "?"))
    rep.count("%s: calls of the driver that take an option's value" % cfg, n)
    rep.floor("%s: calls of the driver that take an option's value" % cfg, 4)


def agree(a, b):
    r = same(a, b)
    if r is None and isinstance(a, Poly) and isinstance(b, Poly) and not opaque_rel(a, b):
        return False
    return r


class rd2:
    """memory right after the options were read, where the number of events is looked up"""
    def __init__(self, F, rd, e):
        h = e.loops[0] if e.loops else None
        self.mem = F.li[h].mem_in if h is not None else e.mem
