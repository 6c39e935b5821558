"""The data directory in force is the one asked for, and every table is read from it (or from a file of the same name
in the working directory, where the code looks there first).

Rule: contents of the path strings as sequences of pieces per case: -d given / CGMFDATA set / neither; setdatapath's
result for a given path, and for none; the name of every input file opened is the bare file name or the data directory
followed by the same bare name, and a failed attempt in the working directory is followed by the other one; only
setdatapath changes the directory."""
import re
from props.lib import *
from props.strings import Strs, pretty, norm, text
from props.reach import reachable
from props.c22 import case, at, unknown

# what each reader fills its table from
TABLES = {"FissionFragments::readMultichanceFissionData": "multichancefission.dat", "Yields::setTKEParameters": "tkemodel.dat", "Yields::setYieldParameters": "yamodel.dat",
          "readAnisotropy": "anisotropy.dat", "readDeformations": "deformations.dat", "readDiscreteLevelData": "discreteLevels.dat", "readLDP": "ldp.dat", "readMasses": "masses.dat",
          "readPreEqAngularDistributionParameters": "preeq-scattering-params.dat", "readPreeqData": "preeq-params.dat", "readRTA": "rta.dat", "readSpinScaling": "spinscalingmodel.dat",
          "readTemperatures": "temperatures.dat", "readkcksystdat": "kcksyst.dat"}
WHERE = "libcgmf/src/cgmfEvents.cpp (setdatapath)"


def run(ctx, rep, tier):
    m = ctx.module(())
    rep.part("precedence", precedence, ctx, m, rep)
    rep.part("setdatapath", setpath, ctx, m, rep)
    rep.part("checkdatapath", isdir, ctx, m, rep)
    rep.part("input files", files, ctx, m, rep)
    rep.part("writers", writers, ctx, m, rep)


def precedence(ctx, m, rep):
    F = ctx.sym(m, ctx.fn(m, "readUserInput"))
    S = Strs(F)
    k = S.global_("path")
    es = [e for e in F.effects if e.kind == "call" and cq(F, e) == "setdatapath" and e.pc != T.FALSE]
    if len(es) != 1 or k is None:
        raise Unresolved("call of setdatapath")
    e = es[0]
    hs = [x for x in S.mods if k in S.mods[x]]
    D = (("s", ("after" if hs else "init",) + ((hs[0], S.name(k)) if hs else (S.name(k),))),)
    gets = [x for x in F.effects if x.kind == "call" and x.callee in ("getenv", "secure_getenv") and isinstance(x.res, Ptr) and x.pc != T.FALSE]
    env = [x for x in gets if cstr(F, x.args[0]) == "CGMFDATA"]
    for x in gets:
        rep.decide("variable", cstr(F, x.args[0]) == "CGMFDATA" if cstr(F, x.args[0]) is not None else None, x.where, "the environment variable is CGMFDATA", "%r" % cstr(F, x.args[0]))
    if not env:
        rep.bad("environment", e.where, "CGMFDATA is not looked at")
        return
    alts = S.of(e, 0)
    isenv = lambda p: len(p) == 1 and p[0][0] == "c" and isinstance(p[0][1], Ptr) and any(p[0][1].base[:2] == x.res.base[:2] for x in env)
    rets = [x for x in F.effects if x.kind == "ret"]

    def null(c, val):
        for v in list(T.bdd_support(c)):
            q = T.cond_of(v)
            if q[0] == "peq" and any(isinstance(y, Ptr) and y.base[0] == "call" and y.base[1] in ("getenv", "secure_getenv") for y in q[1:]):
                c = T.bdd_cofactor(c, v, val)
        return c
    for given in (True, False):
        for unset in (True, False):
            name = "-d given" if given else "CGMFDATA unset" if unset else "CGMFDATA set"
            for c, p in alts:
                c = null(case(S, T.bdd_and(c, e.pc), {D: not given}, {}, F), unset)
                if c == T.FALSE:
                    continue
                if given:
                    good = p == D
                elif unset:
                    good = p == D or p == ()
                else:
                    good = isenv(p)
                if not good and (unknown(c, S) or any(q[0] == "s" and q[1][0] == "?" for q in p)):
                    good = None
                rep.decide("path:%s:%s" % (given, unset), good, e.where, "%s: the data directory is %s" % (name, "the one of -d" if given else "left to the default" if unset else "the one of CGMFDATA"), "here " + pretty(p))
    rep.decide("set", T.bdd_implies(rets[0].pc, e.pc) if len(rets) == 1 else None, e.where, "the data directory is set whenever the options were accepted")


def setpath(ctx, m, rep):
    f = [f for f in ctx.fns(m, "setdatapath") if "basic_string" in f.dem]
    if len(f) != 1:
        raise Unresolved("setdatapath")
    F = ctx.sym(m, f[0])
    S = Strs(F)
    k = S.global_("datadir")
    rets = [x for x in F.effects if x.kind == "ret"]
    if k is None or k not in S.st or len(rets) != 1:
        raise Unresolved("datadir in setdatapath")
    R = rets[0].pc
    A = (("s", ("init", "argument 0")),)
    chk = {}
    for e in F.effects:
        if e.kind == "call" and cq(F, e) == "checkdatapath" and isinstance(e.res, Poly):
            s = S.of(e, 0)
            t = {text(p) for c, p in s}
            if len(t) == 1 and None not in t:
                chk[next(iter(t)).rstrip("/")] = e.res
    found = set()
    slash = {}
    for c0, p in S.st[k]:
        c = case(S, T.bdd_and(c0, R), {A: False}, {}, F)
        if c != T.FALSE:
            if p in (A, norm(A + (("t", "/"),))):
                found.add(p)
                slash[p] = c
            else:
                opq = bool(unknown(c, S)) or any(q[0] == "s" and q[1][0] == "?" for q in p)
                rep.decide("given:%s" % pretty(p), None if opq else False, WHERE, "a given path is used as it is, with a slash at its end", "here " + pretty(p))
        c = case(S, T.bdd_and(c0, R), {A: True}, {}, F)
        if c != T.FALSE:
            t = text(p)
            if t is None:
                rep.decide("none:%s" % pretty(p), False if p in (A, norm(A + (("t", "/"),)), (("s", ("init", "datadir")),)) and not unknown(c, S) else None, WHERE, "without a path, a default directory is used", "here " + pretty(p))
                continue
            q = t.rstrip("/")
            if q not in chk:
                rep.decide("default:" + q, None if not chk else False, WHERE, "a default directory is used only if it exists", "%s is not looked for" % q)
                continue
            z = at(c, {list(chk[q].atoms())[0]: ZERO}) if len(chk[q].atoms()) == 1 else None
            rep.decide("default:" + q, None if z is None else z == T.FALSE, WHERE, "%s is used only if it exists" % q)
            others = [x for x in chk if x != q]
            if "build" in q:
                for x in others:
                    if "install" in x:
                        z = at(c, {list(chk[x].atoms())[0]: ONE})
                        rep.decide("preferred", z == T.FALSE, WHERE, "the installed data are preferred to those of the build")
    Aslash = norm(A + (("t", "/"),))
    if Aslash not in found and A in found:
        rep.bad("slash", WHERE, "a path without a slash at its end gets none: file names are appended to it directly")
    elif A in found and Aslash in found:
        conds = {T.cond_of(v) for v in T.bdd_support(slash[A])} & {T.cond_of(v) for v in T.bdd_support(slash[Aslash])}
        ends = [c for c in conds if c[0] == "eq" and c[1].c0() in (-47, 47)]
        good = None
        if len(ends) == 1:
            good = (ends[0], True) in T.implied_literals(slash[A])
            if not good and (ends[0], False) not in T.implied_literals(slash[A]):
                good = None
        rep.decide("slash", good, WHERE, "a slash is added exactly when the path does not end with one")
    elif Aslash in found:
        rep.ok("slash", "a slash is added at the end")
    if chk:
        mp = {list(r.atoms())[0]: ZERO for r in chk.values() if len(r.atoms()) == 1}
        z = at(case(S, R, {A: True}, {}, F), mp)
        rep.decide("nowhere", z == T.FALSE if not unknown(z, S) else None, WHERE, "without a path and without default directories the run ends")
    rep.count("default directories", len(chk))


def isdir(ctx, m, rep):
    f = [f for f in ctx.fns(m, "checkdatapath") if "basic_string" in f.dem]
    if len(f) != 1:
        raise Unresolved("checkdatapath")
    F = ctx.sym(m, f[0])
    st = [e for e in F.effects if e.kind == "call" and e.callee in ("stat", "stat64", "__xstat") and isinstance(e.res, Poly)]
    rs = [e for e in F.effects if e.kind == "ret"]
    if len(st) != 1 or len(rs) != 1 or not isinstance(rs[0].val, Poly):
        raise Unresolved("stat in checkdatapath")
    v = T.dsubst(rs[0].val, {list(st[0].res.atoms())[0]: P(-1)})
    rep.decide("missing", v.const() == 0 if v.const() is not None else None, rs[0].where, "a directory that does not exist is not accepted", "returns %s" % show(v))
    v = T.dsubst(rs[0].val, {list(st[0].res.atoms())[0]: ZERO})
    rep.decide("exists", False if v.const() is not None and v.const() == 0 else True, rs[0].where, "an existing directory is accepted", "returns %s" % show(v))
    rep.decide("kind", False if v.const() is not None and v.const() != 0 else True, rs[0].where, "a file that is not a directory is not accepted", "returns %s" % show(v))


def files(ctx, m, rep):
    R = reachable(m)
    n = 0
    for f in sorted(m.fns.values(), key=lambda f: f.dem):
        if not (f.repo and f.has_body and f.name in R):
            continue
        if not any(x.op in ("call", "invoke") and x.callee and ("ifstream" in x.callee or "fopen" in x.callee or "filebuf" in x.callee) for x in f.all_insts()):
            continue
        try:
            F = ctx.sym(m, f)
        except Exception:
            rep.undecided("files:" + f.dem, "not summarised")
            continue
        S = Strs(F)
        got = []
        for e in F.effects:
            if e.kind != "call" or not e.callee or e.pc == T.FALSE:
                continue
            d = S.dem(e)
            if re.search(r"basic_ifstream<[^>]*>+::(open|basic_ifstream)\((char const\*|S)", d) or re.search(r"ifstream::(open|basic_ifstream)\((char const\*|S)", d):
                i = 1
            elif e.callee == "fopen" and (cstr(F, e.args[1]) or "r").startswith("r"):
                i = 0
            else:
                continue
            for c, p in S.of(e, i):
                got.append((e, T.bdd_and(c, e.pc), p))
        for e, c, p in got:
            if any(q[0] == "s" and q[1][0] in ("?", "loop", "after") or q[0] == "s" and q[1][0] == "init" and q[1][1] != "datadir" or q[0] == "c" for q in p):
                rep.count("input files whose name the caller gives (not decided)")
                continue
            n += 1
            fn = f.dem.split("(")[0]
            local = text(p) is not None
            indir = len(p) == 2 and p[0] == ("s", ("init", "datadir")) and p[1][0] == "t"
            nm = p[-1][1] if p and p[-1][0] == "t" else ""
            ok = (local or indir) and nm != "" and not nm.startswith(("/", "../"))
            rep.decide("file:%s:%s" % (fn, nm), ok, e.where, "%s opens %s" % (fn, pretty(p)), "neither a file of the data directory nor one of the same name in the working directory")
            if fn in TABLES:
                rep.decide("table:%s" % fn, nm == TABLES[fn], e.where, "%s reads %s" % (fn, TABLES[fn]), "here %s" % nm)
            if local and ok:
                rest = [(x, cc) for x, cc, q in got if q == (("s", ("init", "datadir")), ("t", nm)) and F.effects.index(x) > F.effects.index(e)]
                rep.decide("fallback:%s:%s" % (fn, nm), bool(rest), e.where, "%s falls back to the data directory when %s is not in the working directory" % (fn, nm))
    rep.count("input files", n)
    rep.floor("input files", 20)


def writers(ctx, m, rep):
    S = ctx.summ(m)
    k = None
    for g in m.globals:
        if re.fullmatch(r"_Z7datadirB5cxx11|_ZL7datadirB5cxx11|datadir", g):
            k = g
    if k is None:
        raise Unresolved("datadir")
    for f in m.fns.values():
        if f.repo and f.has_body:
            for x in f.all_insts():
                if x.op in ("call", "invoke") and x.callee in m.fns and x.ops and x.ops[0] == ["g", k]:
                    d = m.fns[x.callee].dem
                    if re.search(r"::(operator=|operator\+=|append|assign|clear|insert|erase|push_back|replace|resize|pop_back)\(", d):
                        q = f.dem.split("(")[0]
                        if q != "setdatapath" and "_GLOBAL" not in f.name and "cxx_global" not in f.name:
                            rep.bad("writer:" + q, x.loc, "%s changes the data directory" % q)
    rep.ok("writers", "only setdatapath changes the data directory")
