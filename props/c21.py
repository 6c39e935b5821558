"""The Python toolkit reads back what the simulation wrote and reports each quantity from the right entries.

Rule: the reader of the history file is summarised per fragment record: for every combination of (neutrons, photons,
pre-fission neutrons, light or heavy, times recorded or not) the position in the file of every stored quantity is
computed from the syntax tree and compared with the layout the simulation writes (the one C08 decides for the writer).
Every public method is then evaluated abstractly to a term over the columns of the file and compared, for every
combination of given and default arguments, with the reference definition in c21_spec.py.  Also: every name and
attribute resolves, arrays combined element by element have the same length, no method changes the stored data."""
import ast
import os
from cg import pyterm as P
from cg import pyx
from cg.pyx import Mod, Ev, Need, Exit, Unsup
from cg.pyterm import num, ZERO
from cg.ir import REPO, AnalysisBroken
from props.tkdiff import diff

HERE = os.path.dirname(os.path.abspath(__file__))
ARRAYPARAMS = {"nubarg": ("timeWindow",), "nubargtot": ("timeWindow",)}
HIST = ["A", "Z", "U", "J", "P", "KEpre", "KEpost", "nu", "nug", "preNu", "nEcm", "nElab", "gE", "ages", "ncm", "nlab",
        "preE", "preDir", "px0", "py0", "pz0", "px1", "py1", "pz1"]
TWO = P.mul(num(2), P.NE)
SKIP_METHODS = {"getFissionHistories", "getFissionYields", "meanList"}


def tok(line, i, count=False):
    i = num(i) if isinstance(i, int) else i
    return ("tokn" if count else "tok", line, i)


# ---------------------------------------------------------------- reader
class Reader:
    """line-by-line reading: which token of which line of the record a value is"""

    def __init__(self):
        self.line = "h"
        self.n = 0
        self.rows = None
        self.end = {}
        self.start = {}
        self.carried = set()
        self.names = None

    def intercept(self, name):
        return False

    def isline(self, t):
        while t[0] == "slice":
            t = t[1]
        return t if t[0] == "line" else None

    def method(self, ev, b, name, args):
        if name == "readline" and b[0] == "file":
            k = self.line
            if k == "h":
                self.line = "?"
                return ("line", "h")
            if k == "?":
                raise Unsup("second line read outside the record loop")
            self.n += 1
            return ("line", self.n - 1)
        l = self.isline(b)
        if l is not None:
            if name in ("strip", "rstrip", "lstrip"):
                return b
            if name == "split" and not args:
                return ("toks", l[1])
        if b[0] == "file" and name in ("close",):
            return P.NONE
        return None

    def func(self, ev, name, args):
        if name == "open" and args:
            return ("file",)
        if name in ("int", "float") and args and args[0][0] == "idx" and args[0][1][0] == "toks":
            k, i = args[0][1][1], args[0][2]
            return tok(k, i, k == 0 and i[0] == "num" and i[1] in (7, 8, 9))
        if name in ("int", "float") and args and args[0][0] in ("tok", "tokn"):
            return args[0]
        return None

    def while_(self, ev, s, env):
        t = s.test
        if not (isinstance(t, ast.Constant) and t.value) or s.orelse:
            raise Unsup("record loop")
        if self.rows is not None:
            raise Unsup("two record loops")
        names = pyx.assigned(s.body)
        lists = {}
        inner = dict(env)
        for v in names:
            if v in env:
                if env[v][0] == P.seq([]):
                    lists[v] = ("lv", v, 0)
                    inner[v] = (P.seq([("cat", lists[v])]), True)
                else:
                    self.start[v] = env[v][0]
                    inner[v] = (("lvr", v), True)
        self.line, self.n = 0, 0
        for st in s.body:
            if isinstance(st, ast.If) and any(isinstance(x, ast.Break) for x in ast.walk(st)):
                if st.orelse or not all(isinstance(x, ast.Break) for x in st.body):
                    raise Unsup("record loop exit")
                continue
            if ev.stmt(st, inner) is not None:
                raise Unsup("return in the record loop")
        self.rows = {}
        for v, lv in lists.items():
            r = inner[v][0]
            if r[0] != "seq" or not r[1] or r[1][0] != ("cat", lv):
                self.rows[v] = ("other", r)
            elif len(r[1]) == 2 and r[1][1][0] == "one":
                self.rows[v] = ("row", r[1][1][1])
            else:
                self.rows[v] = ("other", r)
        self.end = {v: inner[v][0] for v in self.start}
        for v in names:
            env[v] = inner[v] if v in inner else env.get(v, (("name", v), True))
        for v in lists:
            env[v] = (P.seq([("for", TWO, (("one", ("rowval", v, ("b", 0))),))]), True)
        return None


class HEv(Ev):
    def multi(self, b, s, env):
        r = super().multi(b, s, env)
        if r[0] == "stack2":
            cols = []
            for x in r[1]:
                v = x[2][1] if P.isvec(x) and x[2][0] == "rowval" and x[2][2] == ("b", 0) else None
                cols.append(v)
            self.columns = cols
            if self.reader is not None and self.reader.names is not None:
                cols = [self.reader.names.get(c) for c in cols]
            return ("table", tuple(cols))
        return r


def forks(f, limit=4000):
    """run f(decisions) for every combination of the conditions it asks about"""
    todo = [{}]
    n = 0
    while todo:
        d = todo.pop()
        n += 1
        if n > limit:
            raise Unsup("too many cases")
        try:
            r = f(d)
        except Need as x:
            todo.append(dict(d, **{}) | {x.atom: True})
            todo.append(dict(d) | {x.atom: False})
            continue
        yield d, r


def required(nn, ng, npn, light, timed):
    """column -> term, for one record in the given case (the layout the simulation writes)"""
    out = {c: tok(0, i) for i, c in enumerate(["A", "Z", "U", "J", "P", "KEpre", "KEpost"])}
    out.update({"nu": tok(0, 7, True), "nug": tok(0, 8, True), "preNu": tok(0, 9, True)})
    for i, c in enumerate(["px0", "py0", "pz0", "px1", "py1", "pz1"]):
        out[c] = tok(1, i)
    k = 2
    b = ("b", 0)

    def particles(line, stride, what, n):
        f = lambda j: tok(line, P.add(num(j), P.mul(num(stride), b)))
        if what == "dir":
            e = P.seq([("one", f(0)), ("one", f(1)), ("one", f(2))])
        else:
            e = f(what)
        return P.seq([("for", n, (("one", e),))])
    none = P.seq([])
    for c in ("nEcm", "nElab", "gE", "ages", "ncm", "nlab", "preE", "preDir"):
        out[c] = none
    if nn:
        n = tok(0, 7, True)
        out["ncm"], out["nEcm"] = particles(k, 4, "dir", n), particles(k, 4, 3, n)
        out["nlab"], out["nElab"] = particles(k + 1, 4, "dir", n), particles(k + 1, 4, 3, n)
        k += 2
    if ng:
        n = tok(0, 8, True)
        st = 5 if timed else 4
        out["gE"] = particles(k, st, 3, n)
        out["ages"] = particles(k, st, 4, n) if timed else P.seq([("for", n, (("one", ZERO),))])
        k += 1
    if light or not npn:
        out["preE"] = out["preDir"] = None          # not used / placeholder
    else:
        n = tok(0, 9, True)
        out["preE"], out["preDir"] = particles(k, 4, 3, n), particles(k, 4, "dir", n)
        k += 1
    return out, k


def reader(mod, rep, where):
    """-> {list variable: column name}"""
    cases = {}
    ATN = P.cmp_(">", tok(0, 7, True), ZERO)
    ATG = P.cmp_(">", tok(0, 8, True), ZERO)
    ATP = P.cmp_(">", tok(0, 9, True), ZERO)
    LT = P.cmp_("<", tok("h", -1), ZERO)
    init = mod.classes["Histories"].get("__init__")
    if init is None:
        raise AnalysisBroken("constructor of Histories")
    good = []
    columns = None
    timeterms = set()

    def one(d):
        R = Reader()
        ev = HEv(mod, "Histories", {}, d, reader=R)
        ev.init = True
        try:
            ev.run("__init__", {"nevents": P.NONE, "filename": ("p", "filename")})
        except Exit:
            return None
        return R, ev
    flag = None
    for d, r in forks(one):
        if r is None:
            continue
        R, ev = r
        if R.rows is None or getattr(ev, "columns", None) is None:
            raise Unsup("no record loop or no table of columns found")
        columns = ev.columns
        good.append((d, R, ev))
    if not good:
        raise Unsup("no complete path through the constructor")
    flags = {a[1][1] for d, R, ev in good for a in d if a[0] == "truthy" and a[1][0] == "lvr"}
    flags = {f for f in flags if good[0][1].start.get(f, ("?",))[0] == "bool"}
    if len(flags) != 1:
        raise Unsup("light/heavy marker")
    flag = flags.pop()
    first = good[0][1].start[flag][1]
    stat = {}      # (var, column) -> [all equal so far]
    vars_ = set(good[0][1].rows)
    ncase = 0
    align = []
    alt = []
    diffs = {}
    for d, R, ev in good:
        fa = ("truthy", ("lvr", flag))
        if fa not in d:
            raise Unsup("light/heavy marker not consulted")
        light = d[fa] == first
        for nn in ((d[ATN],) if ATN in d else (True, False)):
            for ng in ((d[ATG],) if ATG in d else (True, False)):
                for npn in ((d[ATP],) if ATP in d else (True, False)):
                    if light and npn:
                        continue
                    tt = ev.attrs.get("time")
                    timed_opts = (True, False)
                    if tt is not None and tt[0] == "num":
                        timed_opts = (tt[1] < 0,)
                    elif LT in d:
                        timed_opts = (d[LT],)
                    for timed in timed_opts:
                        want, lines = required(nn, ng, npn, light, timed)
                        ncase += 1
                        case = "%s fragment, %sneutrons, %sphotons%s%s" % (
                            "light" if light else "heavy", "" if nn else "no ", "" if ng else "no ",
                            " with times" if timed and ng else "", ", pre-fission neutrons" if npn else "")
                        if R.n != lines:
                            align.append((case, R.n, lines))
                        for v in vars_:
                            k, t = R.rows.get(v, ("other", P.NONE))
                            for c, w in want.items():
                                if w is None:
                                    continue
                                same = k == "row" and t == w
                                stat.setdefault((v, c), [True, 0])
                                if not same:
                                    stat[(v, c)][0] = False
                                    diffs.setdefault((v, c), []).append((case, k, t, w))
                                else:
                                    stat[(v, c)][1] += 1
        e = R.end.get(flag)
        if e is None or e[0] != "bool":
            alt.append(None)
        else:
            alt.append(e[1] != d[fa])
    rep.count("record cases", ncase)
    if alt and all(x is True for x in alt):
        rep.ok("records alternate", "records are taken as light, heavy, light, ...")
    elif any(x is False for x in alt):
        rep.bad("records alternate", where, "a record does not switch between light and heavy fragment: %s keeps its value" % flag)
    else:
        rep.undecided("records alternate", "marker %s" % flag)
    if align:
        case, a, b = align[0]
        rep.bad("lines per record", where, "for a %s the reader consumes %d lines of the record, the simulation writes %d" % (case, a, b))
    else:
        rep.ok("lines per record", "the reader consumes exactly the lines written, in %d cases" % ncase)
    used = [v for v in columns if v is not None]
    names = {}
    for c in HIST:
        ok = [v for v in used if stat.get((v, c), [False, 0])[0]]
        for v in ok:
            names.setdefault(v, c)
    missing = [c for c in HIST if c not in names.values()]
    rest = [v for v in dict.fromkeys(used) if v not in names]
    rep.count("columns identified", len(HIST) - len(missing))
    # best guess for a missing column: the leftover list that matches it in most cases, or by elimination
    for c in missing:
        cand = sorted(rest, key=lambda v: -stat.get((v, c), [0, 0])[1])
        if len(missing) == 1 and len(rest) == 1 or (cand and stat.get((cand[0], c), [0, 0])[1] > 0):
            v = cand[0]
            hard = []
            for case, k, t, w in diffs.get((v, c), []):
                if k == "row":
                    hard += [(case, x[1]) for x in diff(t, w) if x[0] == "hard"]
            if hard:
                rep.bad("column " + c, where, "%s (list %s), for a %s: %s" % (c, v, hard[0][0], hard[0][1]))
                names.setdefault(v, c)
                continue
            rep.undecided("column " + c, "list %s" % v)
            names.setdefault(v, c)
        elif rest:
            hard = []
            for v in rest:
                for case, k, t, w in diffs.get((v, c), []):
                    if k == "row" and t[0] in ("tok", "tokn") and w[0] in ("tok", "tokn"):
                        hard.append((v, case, t, w))
            if hard and len(rest) == len(missing):
                v, case, t, w = hard[0]
                rep.bad("column " + c, where, "no stored quantity is the one written as %s: %s reads %s" % (P.show(w), v, P.show(t)))
            else:
                rep.undecided("column " + c, "no list identified")
        else:
            # something else is stored in its place
            rep.bad("column " + c, where, "no stored quantity is the %s of the record; lists in the table: %s" % (c, ", ".join(sorted(set(used)))))
    for c in HIST:
        if c not in missing:
            rep.ok("column " + c, "read from the position the simulation writes it to, in every case")
    # header
    for d, R, ev in good:
        t = ev.attrs.get("time")
        if t is not None:
            timeterms.add(t)
    bad = [t for t in timeterms if t[0] in ("tok", "tokn") and t != tok("h", -1) and t != tok("h", 2)]
    if bad:
        rep.bad("time window", where, "the time window is read from %s" % P.show(bad[0]))
    elif any(t in (tok("h", -1), tok("h", 2)) for t in timeterms):
        rep.ok("time window", "last entry of the header line")
    else:
        rep.undecided("time window", "not found")
    good.sort(key=lambda g: repr(sorted(map(repr, g[0].items()))))
    return names, good[0][0]


# ---------------------------------------------------------------- methods
def columns(names):
    return {c: P.vec(TWO, ("cell", c, ("b", 0))) for c in names}


def params(fn):
    """[(name, default term or None)]"""
    out = []
    a = fn.args
    ds = [None] * (len(a.args) - len(a.defaults)) + list(a.defaults)
    for p, d in list(zip(a.args, ds))[1:]:
        out.append((p.arg, d))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((p.arg, d))
    return out


def const(d):
    if d is None:
        return None
    if isinstance(d, ast.Constant):
        v = d.value
        return P.NONE if v is None else ("bool", v) if isinstance(v, bool) else num(v) if isinstance(v, (int, float)) else ("str", v)
    if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
        return num(-d.operand.value)
    return ("opaque",)


def cases(ps):
    """every combination of given / default for the parameters with a default"""
    out = [({}, "")]
    for n, d in ps:
        if d is None:
            continue
        out = [(dict(a, **{n: dv}), s + t) for a, s in out
               for dv, t in ((d, ""), (("p", n), (", " if s else "") + n + " given"))]
    return out


def compare(mod, cls, attrs, spec, sattrs, rep, where):
    ms = mod.classes[cls]
    for name, sfn in spec.classes[cls].items():
        if name.startswith("_"):
            continue
        oid = cls + "." + name
        fn = ms.get(name)
        if fn is None:
            rep.undecided(oid, "no such method")
            continue
        w = "%s:%d" % (where, fn.lineno)
        rep.count("methods")
        sps = [(n, const(d)) for n, d in params(sfn)]
        ips = [(n, const(d)) for n, d in params(fn)]
        if dict(sps) != {n: d for n, d in ips if n in dict(sps)}:
            rep.bad(oid + " defaults", w, "parameters of %s are %s, documented: %s" % (
                name, [(n, P.show(d) if d else None) for n, d in ips], [(n, P.show(d) if d else None) for n, d in sps]))
            continue
        extra = {n: d for n, d in ips if n not in dict(sps)}
        if any(d is None or d == ("opaque",) for d in extra.values()):
            rep.undecided(oid, "further parameters")
            continue
        verdict = "ok"
        text = ""
        n = 0
        hz = set()
        try:
            for args, label in cases(sps):
                a = dict(args)
                a.update(extra)

                def runboth(d):
                    es = Ev(spec, cls, sattrs, d)
                    ask = None
                    s = es.run(name, args)[0]
                    ei = Ev(mod, cls, attrs, d, ARRAYPARAMS.get(name, ()))
                    try:
                        i = ei.run(name, a)[0]
                    except P.ShapeError as x:
                        i = ("shape", str(x))
                    except Exit:
                        i = ("exit",)
                    hz.update(ei.hazards)
                    return s, i
                # a condition only the code asks about must not change the answer for both outcomes at once
                groups = {}
                satoms = set()
                for d, (s, i) in forks(runboth, 600):
                    es = Probe()
                    key = tuple(sorted(((k, v) for k, v in d.items() if k in asked(spec, cls, sattrs, name, args, d)), key=repr))
                    groups.setdefault(key, []).append((d, s, i))
                for key, rs in groups.items():
                    n += 1
                    res = []
                    for d, s, i in rs:
                        if i[0] == "shape":
                            res.append(("hard", i[1]))
                        elif i == ("exit",):
                            res.append(("soft", "stops"))
                        else:
                            ds = diff(i, s)
                            h = [x for x in ds if x[0] == "hard"]
                            res.append(h[0] if h else ds[0] if ds else ("ok", ""))
                    ks = {r[0] for r in res}
                    if ks == {"ok"}:
                        continue
                    lab = (" with " + label if label else "")
                    if ks == {"hard"}:
                        verdict = "bad"
                        text = "%s%s: %s" % (name, lab, res[0][1])
                        break
                    verdict = "soft"
                    text = "%s%s: %s" % (name, lab, next(r[1] for r in res if r[0] != "ok"))
                if verdict == "bad":
                    break
        except Unsup as x:
            verdict, text = "soft", "not summarised: %s" % x
        except (P.ShapeError, RecursionError) as x:
            verdict, text = "soft", "not summarised: %s" % x
        except pyx.PyError as x:
            verdict, text = "soft", "raises %s" % x.name
        rep.count("argument cases", n)
        for ln, msg in sorted(hz):
            rep.bad("%s data" % oid, "%s:%d" % (where, ln), "%s: %s" % (name, msg))
        if verdict == "bad":
            rep.bad(oid, w, text)
        elif verdict == "soft":
            rep.undecided(oid, text)
        else:
            rep.ok(oid, "equal to the reference for every combination of arguments (%d cases)" % n)


class Probe:
    pass


_asked = {}


def asked(spec, cls, sattrs, name, args, d):
    """conditions the reference itself depends on, along decisions d"""
    k = (cls, name, repr(args), repr(sorted(d.items(), key=repr)))
    if k not in _asked:
        seen = set()

        class D(dict):
            def __contains__(self, a):
                r = dict.__contains__(self, a)
                if r:
                    seen.add(a)
                return r
        e = Ev(spec, cls, sattrs, {})
        e.decide = D(d)
        try:
            e.run(name, args)
        except Exception:
            pass
        _asked[k] = seen
    return _asked[k]


def others(mod, cls, attrs, spec, rep, where):
    """methods without a reference: stored data unchanged, lengths agree"""
    for name, fn in mod.classes[cls].items():
        if name in spec.classes[cls] or name == "__init__" or name.startswith("_"):
            continue
        hz = set()
        try:
            def go(d):
                e = Ev(mod, cls, attrs, d)
                try:
                    return e.run(name, {})
                finally:
                    hz.update(e.hazards)
            for _ in forks(go, 64):
                pass
        except (Unsup, Exit, P.ShapeError, pyx.PyError, RecursionError):
            pass
        for ln, msg in sorted(hz):
            rep.bad("%s.%s data" % (cls, name), "%s:%d" % (where, ln), "%s: %s" % (name, msg))


def names_(mod, cls, rep, where):
    bad = pyx.unresolved(mod)
    rep.count("functions resolved", sum(isinstance(n, ast.FunctionDef) for n in ast.walk(mod.tree)))
    for fn, line, name in bad:
        rep.bad("name %s" % name, "%s:%d" % (where, line), "%s uses the name '%s', which nothing defines" % (fn, name))
    if not bad:
        rep.ok("%s names" % cls, "every name used is defined")
    _, und = pyx.attributes(mod, cls)
    for m, line, a in und:
        rep.bad("attribute %s" % a, "%s:%d" % (where, line), "%s.%s uses self.%s, which nothing defines" % (cls, m, a))
    if not und:
        rep.ok("%s attributes" % cls, "every attribute used is defined")


def histories(rep, spec):
    where = "tools/CGMFtk/histories.py"
    mod = Mod(os.path.join(REPO, where))
    if "Histories" not in mod.classes:
        raise AnalysisBroken("class Histories")
    names_(mod, "Histories", rep, where)
    init = mod.classes["Histories"]["__init__"]
    rd = next((m.lineno for n, m in mod.classes["Histories"].items() if "readline" in ast.dump(m)), init.lineno)
    try:
        names, dec = reader(mod, rep, "%s:%d" % (where, rd))
    except Unsup as x:
        rep.undecided("reader", "not summarised: %s" % x)
        return
    R = Reader()
    R.names = names
    ev = HEv(mod, "Histories", {}, dec, reader=R)
    ev.init = True
    try:
        ev.run("__init__", {"nevents": P.NONE, "filename": ("p", "filename")})
    except (Unsup, Exit, P.ShapeError) as x:
        rep.undecided("constructor", "not summarised: %s" % x)
        return
    attrs = dict(ev.attrs)
    attrs["time"] = ("time",)
    cols = columns(HIST)
    s = dict(cols)
    s["NE"] = P.NE
    s["time"] = ("time",)
    row = lambda a, b, c: P.lift(lambda *x: ("row", tuple(x)), cols[a], cols[b], cols[c])
    s["pre"], s["post"] = row("px0", "py0", "pz0"), row("px1", "py1", "pz1")
    compare(mod, "Histories", attrs, spec, s, rep, where)
    others(mod, "Histories", attrs, spec, rep, where)


YIELD = ["Z", "A", "KE", "U", "J", "P", "px", "py", "pz"]


class YReader:
    names = None

    def intercept(self, name):
        return False

    def method(self, ev, b, name, args):
        if b[0] == "file":
            return P.NONE
        return None

    def func(self, ev, name, args):
        if name == "open":
            return ("file",)
        return None


class YEv(Ev):
    def np(self, n, a, kws):
        if n in ("loadtxt", "genfromtxt"):
            return ("table", tuple(YIELD)), True
        return super().np(n, a, kws)


def yields(rep, spec):
    where = "tools/CGMFtk/yields.py"
    mod = Mod(os.path.join(REPO, where))
    if "Yields" not in mod.classes:
        raise AnalysisBroken("class Yields")
    names_(mod, "Yields", rep, where)
    ev = None
    try:
        def one(d):
            e = YEv(mod, "Yields", {}, d, reader=YReader())
            e.init = True
            try:
                e.run("__init__", {"nevents": P.NONE, "filename": ("p", "filename")})
            except Exit:
                return None
            return e
        rs = [e for d, e in forks(one) if e is not None]
        ev = rs[0] if rs else None
    except (Unsup, P.ShapeError) as x:
        rep.undecided("yields constructor", "not summarised: %s" % x)
        return
    if ev is None:
        rep.undecided("yields constructor", "no complete path")
        return
    cols = columns(YIELD)
    s = dict(cols)
    s["NE"] = P.NE
    s["mom"] = P.lift(lambda *x: ("row", tuple(x)), cols["px"], cols["py"], cols["pz"])
    compare(mod, "Yields", ev.attrs, spec, s, rep, where)
    others(mod, "Yields", ev.attrs, spec, rep, where)


def run(ctx, rep, tier):
    spec = Mod(os.path.join(HERE, "c21_spec.py"))
    rep.part("histories", histories, rep, spec)
    rep.part("yields", yields, rep, spec)
