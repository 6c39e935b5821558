"""A yields file holds, for every requested fission and in the order they were sampled, one line for the light and one
for the heavy fragment: Z A KE U spin parity px py pz as sampled, and nothing else; no fission without excitation
energy is kept and none is lost.

Rule: the text the yields constructor prints is derived as a symbolic stream (values, literal text, counted loops)
and compared with the layout; the generator's loop is decided from its symbolic index: the pair at the index is
sampled, the index moves on by one exactly when both fragments are excited, and the loop ends at the requested count."""
from props.lib import *
from props.stream import Node, compare_streams
from props import stream
from props.c08 import report

NAME_OK = re.compile(r"basic_string.*(::operator\[\]|::c_str|::data|::~basic_string|::front)")


def ostream_nodes(F, S):
    """(nodes printed to the ofstream at S, effects) as stream.nodes does for stdio"""
    alias = {S}
    printed = {}
    for e in F.effects:
        if e.kind != "call" or e.pc == T.FALSE or not e.callee or not e.args:
            continue
        a = e.args[0]
        hit = isinstance(a, Ptr) and (a in alias or (a.base == S.base))
        if not hit:
            if any(isinstance(x, Ptr) and x.base == S.base for x in e.args[1:]):
                raise Unresolved("the stream is passed on at %s" % e.where)
            continue
        d = demangle(F, e.callee)
        p = piece(F, d, e)
        if p == "no":
            continue
        if p is None:
            raise Unresolved("%s on the stream at %s" % (d[:60], e.where))
        printed[id(e)] = p
        if isinstance(e.res, Ptr):
            alias.add(e.res)
    return printed


_dem = {}


def demangle(F, c):
    if c in F.mod.fns and F.mod.fns[c].dem:
        return F.mod.fns[c].dem
    if c not in _dem:
        import subprocess
        _dem[c] = subprocess.run(["c++filt", c], capture_output=True, text=True).stdout.strip()
    return _dem[c]


TY = {"int": "%d", "unsigned int": "%u", "long": "%d", "unsigned long": "%u", "short": "%d", "double": "%g", "float": "%g"}


def piece(F, d, e):
    a = e.args
    m = re.search(r"basic_ostream<char, std::char_traits<char> ?>::operator<<\((.*)\)$|std::ostream::operator<<\((.*)\)$", d)
    if m:
        ty = m.group(1) or m.group(2)
        if ty in TY:
            return [("c", TY[ty], a[1])]
        if "(*)" in ty:
            f = repr(a[1])
            if "endl" in f:
                return [("t", "\n")]
            if "flush" in f:
                return []
            return [("m", f)]
        return None
    if re.search(r"operator<< ?<std::char_traits<char> ?>\(.*char const\*\)$", d):
        s = cstr(F, a[1])
        return None if s is None else [("t", s)]
    if re.search(r"operator<< ?<std::char_traits<char> ?>\(.*, char\)$", d) or re.search(r"::put\(char\)$", d):
        c = a[1].const() if isinstance(a[1], Poly) else None
        return None if c is None else [("t", chr(int(c)))]
    if re.search(r"endl<char, std::char_traits<char> ?>\(", d):
        return [("t", "\n")]
    if re.search(r"::flush\(\)|flush<char", d):
        return []
    if re.search(r"_Set(precision|w|fill|base)|_Setiosflags|_Resetiosflags|::precision\(|::setf\(|::width\(|::unsetf\(|::fill\(|::flags\(", d):
        return [("m", d)]
    if re.search(r"::(basic_ofstream|~basic_ofstream|open|close|is_open|operator!|good|fail|bad|operator bool|rdstate|rdbuf|clear)(\(|\[| )", d) or "::operator bool" in d:
        return "no"
    return None


def run(ctx, rep, tier):
    m = ctx.module(set())
    ys = ctx.fns(m, "cgmfYields::cgmfYields")
    if not ys:
        raise AnalysisBroken("cgmfYields constructor not found")
    F = ctx.sym(m, ys[0])
    rep.units.add(ys[0].dem)
    rep.part("C09:file", yfile, ctx, rep, F)
    rep.part("C09:generator", generator, ctx, rep, m)
    rep.part("C09:api", capi, ctx, rep, m)


def yfile(ctx, rep, F):
    iso, eng, n, name = F.vals[1], F.vals[2], F.vals[3], F.vals[4]
    gen = calls(F, lambda q: q.endswith("::generateInitialFissionFragmentHistories"))
    if len(gen) != 1 or gen[0].loops:
        rep.undecided("C09:sample", "%d sampling calls" % len(gen)) if gen else rep.bad("C09:sample", where(F), "no fission is sampled")
        return
    g = gen[0]
    lf, hf = g.args[1], g.args[2]
    compare(rep, "C09:sample:n", F, g.args[3], n, g.where, "as many fissions are sampled as were asked for")
    ff = [e for e in F.effects if e.kind == "call" and e.pc != T.FALSE and cq(F, e) == "FissionFragments::FissionFragments" and e.args and e.args[0] == g.args[0]]
    if len(ff) != 1:
        rep.undecided("C09:sample:of", "%d constructions of the sampled reaction" % len(ff))
    else:
        compare(rep, "C09:sample:isotope", F, ff[0].args[1], iso, ff[0].where, "they are sampled for the requested isotope")
        compare(rep, "C09:sample:energy", F, ff[0].args[2], eng, ff[0].where, "at the requested energy")
    frag = F.types.size("fissionFragmentType")
    for nm, p in (("light", lf), ("heavy", hf)):
        al = [e for e in F.effects if e.kind == "call" and e.res == p]
        if al and al[0].callee in ("_Znam", "_Znwm"):
            compare(rep, "C09:room:%s" % nm, F, al[0].args[0], n * P(frag), al[0].where, "there is room for every %s fragment" % nm, lits(T.bdd_not(T.ilt0(n))))
    rep.decide("C09:two", lf != hf, g.where, "light and heavy fragments are kept apart")
    # the file
    ops = [e for e in F.effects if e.kind == "call" and e.pc != T.FALSE and e.callee and re.search(r"basic_ofstream.*(open|C1EPKc|C1ERK|C2EPKc|C2ERK)", e.callee) and len(e.args) >= 2]
    if len(ops) != 1:
        rep.undecided("C09:file", "%d output files" % len(ops))
        return
    o = ops[0]
    S = Ptr(o.args[0].base, o.args[0].off)
    nm = o.args[1]
    ok = nm == name
    for e in F.effects:
        if e.kind == "call" and e.res == nm and isinstance(nm, Ptr):
            ok = NAME_OK.search(demangle(F, e.callee)) is not None and e.args[0] == name and (len(e.args) < 2 or e.args[1].const() == 0)
    rep.decide("C09:name", True if ok else None, o.where, "the file written is the one asked for")
    if len(o.args) > 2 and isinstance(o.args[2], Poly):
        md = o.args[2].const()
        rep.decide("C09:fresh", None if md is None else int(md) in (16, 48), o.where, "the file is started afresh, as text, with the default precision", "mode %s" % md)
    try:
        printed = ostream_nodes(F, S)
        got = stream.nodes(F, printed)
    except Unresolved as u:
        rep.undecided("C09:lines", str(u))
        return
    man = [(e, p) for e in F.effects if id(e) in printed for p in printed[id(e)] if p[0] == "m"]
    if man:
        rep.bad("C09:lines:format", man[0][0].where, "numbers are written in the default format; here it is changed by %s" % man[0][1][1][:80])
        return
    first = [e for e in F.effects if id(e) in printed and e.loops]
    if not first:
        rep.bad("C09:lines", o.where, "no fragment is written")
        return
    mem = first[0].mem
    iv = T.var("y", 0)
    body = []
    for p in (lf, hf):
        q = Ptr(p.base, p.off, p.ty or "fissionFragmentType")
        r = lambda path: read(F, q, [iv] + path, mem)
        ps = []
        for x, c in (("Z", "%d"), ("A", "%d"), ("KE", "%g"), ("U", "%g"), ("spin", "%g"), ("parity", "%d")):
            ps += [("c", c, r([x])), ("t", " ")]
        for k in range(3):
            ps += [("c", "%g", r(["preMomentum", k])), ("t", " ")]
        body.append(Node(T.TRUE, ps + [("t", "\n")]))
        rep.count("columns", 9)
    exp = [Node(T.TRUE, trip=n, iv=iv.single(), body=body)]
    ne = noexit(F)
    for x in got + exp:
        x.guard = T.bdd_and(x.guard, ne)
    report(rep, "C09:lines", compare_streams(got, exp), F, "one line per fragment, light then heavy: Z A KE U spin parity px py pz")
    # sampled before written
    rep.decide("C09:order", F.effects.index(g) < F.effects.index(first[0]), first[0].where, "fragments are sampled before they are written")
    wr = [e for e in F.effects if e.kind in ("store", "memcpy", "memset") and e.pc != T.FALSE and e.loc is not None and e.loc.base in (lf.base, hf.base) and F.effects.index(e) > F.effects.index(g)]
    rep.decide("C09:as-sampled", not wr, wr[0].where if wr else g.where, "what is written is what was sampled")


def generator(ctx, rep, m):
    fs = [f for f in ctx.fns(m, "FissionFragments::generateInitialFissionFragmentHistories") if len(f.args) == 4 and len(f.args) == 4]
    G = None
    for f in fs:
        X = ctx.sym(m, f)
        if isinstance(X.vals[1], Ptr) and isinstance(X.vals[2], Ptr):
            G = X
    if G is None:
        raise AnalysisBroken("generateInitialFissionFragmentHistories not found")
    rep.units.add(G.fn.dem)
    lf, hf, n = G.vals[1], G.vals[2], G.vals[3]
    size = G.types.size("fissionFragmentType")
    sm = [e for e in calls(G, "FissionFragments::sampleFissionFragments") if e.pc != T.FALSE]
    live = [e for e in sm if len(e.args) == 4]
    if not live:
        rep.bad("C09:gen", where(G), "no fission is sampled from the systematics") if not sm else rep.undecided("C09:gen", "no sampling from the systematics")
        return
    for k, e in enumerate(live):
        oid = "C09:gen%s" % (":%d" % k if k else "")
        rep.count("sampling calls")
        ix = [T.div(a.off - b.off, P(size)) if isinstance(a, Ptr) and a.base == b.base else None for a, b in ((e.args[1], lf), (e.args[2], hf))]
        if None in ix:
            bad = all(isinstance(a, Ptr) and a.base in (lf.base, hf.base) for a in e.args[1:3])
            rep.decide(oid + ":pair", False if bad else None, e.where, "the light fragment goes to the first list and the heavy one to the second")
            continue
        df = ix[0] - ix[1]
        plain = all(T.atom_of(x)[0] in ("phi", "iv", "i") or x in {q.iv for q in G.li.values()} for x in df.atoms())
        rep.decide(oid + ":pair", True if not df.t else (False if plain else None), e.where, "the two fragments of a fission are kept at the same index", "%s and %s" % (show(ix[0]), show(ix[1])))
        i = ix[0]
        if not e.loops:
            rep.bad(oid + ":all", e.where, "a fission is sampled for every requested one; here only once")
            continue
        h = e.loops[-1]
        info = G.li[h]
        a = i.single()
        out = G.li[e.loops[-2]] if len(e.loops) > 1 else None
        Ul, Uh = frag_u(G, info, e)
        if Ul is None or Uh is None:
            free = not (set(info.deltas) - {a}) and (a in info.deltas or a == info.iv)
            rep.decide(oid + ":keep", False if free else None, e.where, "a fission is kept only if both fragments are excited", "the sampled excitation energies are not looked at")
            continue
        excited = T.bdd_and(T.bdd_not(T.eq0(Ul)), T.bdd_not(T.eq0(Uh)))
        none = T.bdd_or(T.bdd_not(T.lt0(-Ul)), T.bdd_not(T.lt0(-Uh)))
        go = info.cont
        if a is not None and a in info.deltas and go is not None:            # one loop whose index stays for a rejected fission
            ini, dl = info.deltas[a]
            rep.decide(oid + ":step", step_ok(dl), e.where, "the index moves on by one or stays", show(dl))
            moved = T.bdd_not(T.eq0(dl)) if not dl.const() == 0 else T.FALSE
            compare(rep, oid + ":all", G, T.ite(go, ONE, ZERO), T.ite(T.ilt0(i - n), ONE, ZERO), e.where, "sampling goes on until every requested fission is there", cond=info.hpc)
            for x in info.exit_live:
                if x[0] != h:
                    c = T.bdd_and(G.rc.get(x[0], T.FALSE), G._edge(x[0], x[1]))
                    compare(rep, oid + ":all:early", G, T.ite(T.ilt0(i + dl - n), ONE, ZERO), ZERO, e.where, "sampling does not stop before", cond=c)
        elif out is not None and out.iv == a and out.kind == "header" and out.trip is not None and go is not None:      # sampled again until kept
            ini = ZERO
            moved = T.bdd_not(go)
            compare(rep, oid + ":all", G, out.trip, n, e.where, "sampling goes on until every requested fission is there")
        else:
            rep.undecided(oid + ":all", "entry %s" % show(i))
            continue
        compare(rep, oid + ":start", G, ini, ZERO, e.where, "the first fission is entry 0")
        compare(rep, oid + ":keep", G, T.ite(moved, ONE, ZERO), T.ite(excited, ONE, ZERO), e.where, "a fission is kept only if both fragments are excited", cond=T.bdd_and(moved, e.pc))
        compare(rep, oid + ":lose", G, T.ite(moved, ONE, ZERO), ONE, e.where, "and is not replaced if they are", cond=T.bdd_and(T.bdd_not(none), e.pc))


def step_ok(d):
    cs = lin.cases([d], ())
    if cs is None:
        return None
    for l, (v,), _ in cs:
        c = v.const()
        if c is None:
            return None
        if c not in (0, 1):
            return False
    return True


def frag_u(G, info, e):
    """the two excitation energies read after the pair was sampled, from the loop's own decisions"""
    got = {}
    for d in [x[1] for x in info.deltas.values()] + ([Bd(info.cont)] if info.cont is not None else []):
        for b in T.deep_atoms(d):
            t = T.atom_of(b)
            if t[0] == "ld" and t[2] and t[2][-1][0] == "f" and t[2][-1][2] == "U":
                got.setdefault(t[1], Poly({((b, 1),): Fraction(1)}))
    return got.get(e.args[1].base), got.get(e.args[2].base)


def capi(ctx, rep, m):
    fs = ctx.fns(m, "cgmf_genfissyields")
    if not fs:
        rep.undecided("C09:capi", "cgmf_genfissyields not found")
        return
    F = ctx.sym(m, fs[0])
    cs = [e for e in F.effects if e.kind == "call" and e.pc != T.FALSE and cq(F, e) == "cgmfYields::cgmfYields"]
    rep.decide("C09:capi", True if len(cs) == 1 and cs[0].pc == T.TRUE else (False if not cs else None), where(F), "the C interface generates the yields once")
    for e in cs:
        for k, w in ((1, "isotope"), (2, "energy"), (3, "number")):
            compare(rep, "C09:capi:%s" % w, F, e.args[k], F.vals[k - 1], e.where, "the C interface hands on the %s" % w)
