"""Abstract evaluation of the Python toolkit's methods into the terms of pyterm.

No code of the repository is executed: method bodies are read from the syntax tree,
loops are summarised into list/array terms, helper methods are expanded in place and
branches on data become conditional terms.  Whatever cannot be summarised raises Unsup."""
import ast
import builtins
from . import pyterm as P
from .pyterm import num, NONE, TRUE, FALSE, ZERO, ONE


class Unsup(Exception):
    pass


class Need(Exception):
    def __init__(self, atom):
        self.atom = atom


class Exit(Exception):
    pass


class PyError(Exception):
    """an exception the analysed code itself raises (and may catch)"""

    def __init__(self, name):
        self.name = name


class Brk(Exception):
    pass


class Mutation(Exception):
    pass


class Mod:
    """one Python source file"""

    def __init__(self, path, text=None):
        self.path = path
        self.text = text if text is not None else open(path).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.text)
        self.classes = {}
        self.funcs = {}
        self.consts = {}
        self.listclasses = set()
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef):
                if any(isinstance(b, ast.Name) and b.id == "list" for b in n.bases):
                    self.listclasses.add(n.name)
                self.classes[n.name] = {m.name: m for m in n.body if isinstance(m, ast.FunctionDef)}
            elif isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value


def assigned(stmts):
    """names (re)bound or mutated in place in a block"""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.For)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for m in ast.walk(t):
                        if isinstance(m, ast.Name):
                            out.add(m.id)
                        if isinstance(m, ast.Subscript) and isinstance(m.value, ast.Name):
                            out.add(m.value.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    isinstance(n.func.value, ast.Name) and n.func.attr in ("append", "extend"):
                out.add(n.func.value.id)
    return out


class Ev:
    def __init__(self, mod, cls, attrs, decide=None, arrayparams=(), reader=None):
        self.mod = mod
        self.meths = mod.classes.get(cls, {})
        self.attrs = dict(attrs)          # self.x -> term
        self.decide = dict(decide or {})
        self.depth = 0
        self.fvs = []                     # bound variables of the open loops
        self.arrayparams = set(arrayparams)
        self.hazards = []                 # (lineno, text)
        self.reader = reader
        self.init = False

    # -------------------------------------------------- decisions
    def truth(self, c, node=None):
        """True/False, or the condition itself when it depends on an open loop"""
        c = self.cond(c)
        if c[0] == "bool":
            return c[1]
        if c == NONE:
            return False
        if self.loopdep(c):
            return c
        return self.split(c)

    def cond(self, t):
        if t[0] == "num":
            return ("bool", t[1] != 0)
        if t[0] in ("bool", "none", "cmp", "not", "and", "or", "in", "isnone"):
            return t
        if P.iscount(t):
            return P.cmp_(">", t, ZERO)
        if t[0] == "str":
            return ("bool", bool(t[1]))
        if t[0] == "seq":
            n = P.length(t)
            if n[0] == "num":
                return ("bool", n[1] != 0)
            return P.cmp_(">", n, ZERO)
        if t[0] == "ite":
            return P.ite(t[1], self.cond(t[2]), self.cond(t[3]))
        if t[0] == "paren":
            return self.cond(t[1])
        return ("truthy", t)

    def loopdep(self, t):
        return any(P.free(t, v) for v in self.fvs) or self.haslv(t)

    def haslv(self, t):
        if t and t[0] == "lv":
            return True
        return any(self.haslv(x) for x in t if isinstance(x, tuple))

    def split(self, c):
        if c[0] == "bool":
            return c[1]
        if c[0] == "not":
            return not self.split(c[1])
        if c[0] == "and":
            return all(self.split(x) for x in c[1])
        if c[0] == "or":
            return any(self.split(x) for x in c[1])
        if c[0] == "cmp" and c[1] == ">=":
            n = P.not_(c)
            if n in self.decide:
                return not self.decide[n]
        if c in self.decide:
            return self.decide[c]
        if c[0] == "cmp" and c[1] in (">", "=="):
            x, y = c[2], c[3]
            for o in (("cmp", ">", y, x), ("cmp", ">", x, y), ("cmp", "==", x, y), ("cmp", "==", y, x)):
                if o != c and self.decide.get(o) is True:
                    return False
        if c[0] == "cmp" and c[1] == ">=":
            c = P.not_(c)
        raise Need(c)

    # -------------------------------------------------- calls
    def run(self, name, args):
        """args: {param: term}; returns the returned term"""
        fn = self.meths[name]
        env = {"self": (("self",), False)}
        ps = fn.args
        names = [a.arg for a in ps.args][1:]
        for a in names + [a.arg for a in ps.kwonlyargs]:
            env[a] = (args.get(a, ("p", a)), False)
        if ps.kwarg:
            env[ps.kwarg.arg] = (("kw",), False)
        return self.body(fn, env)

    def body(self, fn, env):
        self.depth += 1
        if self.depth > 12:
            raise Unsup("recursion")
        try:
            r = self.block(fn.body, env)
        finally:
            self.depth -= 1
        if r is None:
            return (NONE, True)
        return r

    def inline(self, fn, node, env, bound):
        ps = fn.args
        names = [a.arg for a in ps.args]
        new = {}
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
        if bound and not static:
            new[names[0]] = (("self",), False)
            names = names[1:]
        vals = [self.ev(a, env) for a in node.args]
        if any(isinstance(a, ast.Starred) for a in node.args):
            raise Unsup("*args")
        for n, v in zip(names, vals):
            new[n] = v
        extra = []
        for k in node.keywords:
            if k.arg is None:
                raise Unsup("**kwargs")
            new[k.arg] = self.ev(k.value, env)
        defs = ps.defaults
        for a, d in zip([a.arg for a in ps.args][len(ps.args) - len(defs):], defs):
            if a not in new:
                new[a] = self.ev(d, {})
        for a, d in zip(ps.kwonlyargs, ps.kw_defaults):
            if a.arg not in new and d is not None:
                new[a.arg] = self.ev(d, {})
        if ps.kwarg:
            new[ps.kwarg.arg] = (("kw",), False)
        return self.body(fn, new)

    # -------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            r = self.stmt(s, env)
            if r is not None:
                return r
        return None

    def stmt(self, s, env):
        try:
            return self.stmt_(s, env)
        except (IndexError, KeyError, TypeError, ValueError, AttributeError) as x:
            raise Unsup("line %d: %r" % (s.lineno, x))

    def stmt_(self, s, env):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return None
            self.ev(s.value, env)
            return None
        if isinstance(s, ast.Pass):
            return None
        if isinstance(s, ast.Return):
            if self.fvs and self.depth == self.loopdepth:
                raise Unsup("return inside a loop")
            if s.value is None:
                return (NONE, True)
            return self.ev(s.value, env)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return None
            v = self.ev(s.value, env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, v, env)
            return None
        if isinstance(s, ast.AugAssign):
            self.aug(s, env)
            return None
        if isinstance(s, ast.If):
            c = self.truth(self.test(s.test, env))
            if c is True:
                return self.block(s.body, env)
            if c is False:
                return self.block(s.orelse, env)
            e1, e2 = dict(env), dict(env)
            skip1, skip2 = self.continues(s.body), self.continues(s.orelse)
            if skip1 or skip2:
                raise Unsup("continue")
            if self.block(s.body, e1) is not None or self.block(s.orelse, e2) is not None:
                raise Unsup("return under a data-dependent condition")
            self.merge(c, e1, e2, env)
            return None
        if isinstance(s, ast.For):
            if s.orelse:
                raise Unsup("for-else")
            self.loop(s, env)
            return None
        if isinstance(s, ast.Try):
            try:
                return self.block(s.body, env)
            except PyError as x:
                for h in s.handlers:
                    ns = [] if h.type is None else [n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)]
                    if h.type is None or x.name in ns or "Exception" in ns:
                        return self.block(h.body, env)
                raise
        if isinstance(s, (ast.Raise,)):
            raise Exit()
        if isinstance(s, ast.Break):
            raise Brk()
        if isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            return self.block(s.body, env)
        if isinstance(s, ast.While):
            if self.reader is not None:
                return self.reader.while_(self, s, env)
            raise Unsup("while")
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Assert, ast.Global)):
            return None
        if isinstance(s, ast.Delete):
            return None
        if isinstance(s, ast.FunctionDef):
            env[s.name] = (("closure", s.name, id(s)), True)
            self.closures[id(s)] = (s, env)
            return None
        raise Unsup(type(s).__name__)

    closures = {}
    loopdepth = 0

    def continues(self, stmts):
        return any(isinstance(n, (ast.Continue, ast.Break)) for s in stmts for n in ast.walk(s))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    raise Unsup("starred")
                self.assign(e, (P.idx(v[0], num(i)), v[1]), env)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                env.get(t.value.id, (None,))[0] == ("self",):
            if not self.init and t.attr in self.attrs and self.attrs[t.attr] != v[0]:
                self.hazards.append((t.lineno, "self.%s is overwritten outside the constructor" % t.attr))
            self.attrs[t.attr] = v[0]
        elif isinstance(t, ast.Subscript):
            self.setitem(t, v, env)
        else:
            raise Unsup("assignment target")

    def setitem(self, t, v, env):
        if not isinstance(t.value, ast.Name):
            b = self.ev(t.value, env)
            if not b[1] and not self.init:
                self.hazards.append((t.lineno, "data held by the object are overwritten in place"))
                return
            raise Unsup("subscript store")
        n = t.value.id
        if n not in env:
            raise Unsup("store to " + n)
        base, own = env[n]
        if not own and not self.init:
            self.hazards.append((t.lineno, "'%s' refers to data held by the object, and is overwritten in place" % n))
        key = self.key(t.slice, env)
        env[n] = (("upd", base, key, v[0]), own)

    def key(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.ev(x, env)[0]
            return ("slicek", f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return ("tuple", tuple(self.key(e, env) for e in s.elts))
        return self.ev(s, env)[0]

    def aug(self, s, env):
        v = self.ev(s.value, env)
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            n = s.target.id
            if n not in env:
                raise Unsup("augmented assignment to " + n)
            base, own = env[n]
            mutable = P.isvec(base) or P.islist(base) or base[0] in ("filt",)
            if mutable and not own and not self.init:
                self.hazards.append((s.lineno, "'%s' refers to data held by the object, and is changed in place" % n))
            if P.islist(base) and op == "Add" and not P.islist(v[0]):
                r = P.seq(P.aslist(base) + [("cat", v[0])])
            else:
                r = self.bin(op, base, v[0])
            env[n] = (r, own if mutable else True)
            return
        if isinstance(s.target, ast.Attribute):
            cur = self.ev(s.target, env)
            r = self.bin(op, cur[0], v[0])
            self.assign(s.target, (r, True), env)
            return
        if isinstance(s.target, ast.Subscript):
            cur = self.ev(s.target, env)
            self.setitem(s.target, (self.bin(op, cur[0], v[0]), True), env)
            return
        raise Unsup("augmented target")

    def merge(self, c, e1, e2, env):
        for n in set(e1) | set(e2):
            a, b = e1.get(n), e2.get(n)
            if a is None or b is None:
                env[n] = a or b
                continue
            if a[0] == b[0]:
                env[n] = (a[0], a[1] and b[1])
                continue
            env[n] = (self.join(c, a[0], b[0]), a[1] and b[1])

    def join(self, c, a, b):
        if a[0] == "seq" and b[0] == "seq":
            k = 0
            while k < len(a[1]) and k < len(b[1]) and a[1][k] == b[1][k]:
                k += 1
            out = list(a[1][:k])
            if a[1][k:]:
                out.append(("if", c, a[1][k:]))
            if b[1][k:]:
                out.append(("if", P.not_(c), b[1][k:]))
            return P.seq(out)
        if a[0] == "upd" and b[0] == "upd" and a[1] == b[1] and a[2] == b[2]:
            return ("upd", a[1], a[2], P.ite(c, a[3], b[3]))
        if a[0] == "upd" and a[1] == b:
            return ("upd", b, a[2], P.ite(c, a[3], ("old",)))
        if b[0] == "upd" and b[1] == a:
            return ("upd", a, b[2], P.ite(c, ("old",), b[3]))
        return P.ite(c, a, b)

    # -------------------------------------------------- loops
    def iteration(self, it):
        """term iterated over -> (count, element function)"""
        if it[0] == "range":
            lo, hi, st = it[1:]
            if st == ONE:
                return P.sub(hi, lo), (lambda x: P.add(lo, x))
            return ("call", "ceildiv", (P.sub(hi, lo), st), ()), (lambda x: P.add(lo, P.mul(st, x)))
        if it[0] == "enumerate":
            n, f = self.iteration(it[1])
            return n, (lambda x: ("tuple", (P.add(it[2], x), f(x))))
        if it[0] == "zip":
            ns = [self.iteration(t) for t in it[1]]
            n = ns[0][0]
            for m, _ in ns[1:]:
                if m != n:
                    if P.definite(m) and P.definite(n):
                        n = ("call", "min", tuple(sorted((m, n), key=P._key)), ())
                    else:
                        n = ("call", "min", tuple(sorted((m, n), key=P._key)), ())
            return n, (lambda x: ("tuple", tuple(f(x) for _, f in ns)))
        return P.length(it), (lambda x: P.idx(it, x))

    def loop(self, s, env):
        it, _ = self.ev(s.iter, env)
        if it[0] == "seq" and len(it[1]) <= 6 and all(x[0] == "one" for x in it[1]):
            for x in it[1]:                       # literal list: unroll
                self.assign(s.target, (x[1], False), env)
                if self.block(s.body, env) is not None:
                    raise Unsup("return inside a loop")
            return
        n, elem = self.iteration(it)
        x = P.fresh()
        self.fvs.append(x)
        saved = self.loopdepth
        self.loopdepth = self.depth
        try:
            inner = dict(env)
            names = assigned(s.body)
            marks = {}
            for v in names:
                if v in env:
                    lv = ("lv", v, x[1])
                    base = env[v][0]
                    inner[v] = (P.seq([("cat", lv)]) if base[0] == "seq" else lv,
                                env[v][1])
                    marks[v] = lv
            e = elem(x)
            self.assign(s.target, (e, not (P.isvec(e) or P.islist(e))), inner)
            tnames = assigned([ast.Assign(targets=[s.target], value=ast.Constant(0))])
            body, skip = self.decontinue(s.body)
            if self.block(body, inner) is not None:
                raise Unsup("return inside a loop")
        finally:
            self.fvs.pop()
            self.loopdepth = saved
        res = {v: inner[v][0] for v in set(names) | tnames if v in inner}
        own = {v: inner[v][1] for v in res}
        # constant-step counters first: their value at turn i is base + step*i
        for _ in range(4):
            again = False
            for v in list(marks):
                lv = marks[v]
                r = res[v]
                if v not in res or not self._has(r, lv):
                    continue
                d = P.sub(r, lv) if env[v][0][0] != "seq" and r[0] in ("poly", "lv", "fv") else None
                if d is not None and not self._has(d, lv) and not P.free(d, x) and not self.haslvof(d, marks):
                    cur = P.add(env[v][0], P.mul(d, x))
                    for w in res:
                        res[w] = P.subst(res[w], lv, cur)
                    env[v] = (P.add(env[v][0], P.mul(d, n)), True)
                    del marks[v], res[v]
                    again = True
            if not again:
                break
        for v, r in res.items():
            lv = marks.get(v)
            for w, l2 in marks.items():
                if w != v and self._has(r, l2):
                    raise Unsup("loop-carried value of %s" % w)
            if lv is None or not self._has(r, lv):
                env[v] = (("last", n, P.abstract(r, x)) if P.free(r, x) else r, own[v])
                if lv is not None and not P.free(r, x):
                    env[v] = (P.ite(P.cmp_(">", n, ZERO), r, env[v][0]) if not P.definite(n) else r, own[v])
                continue
            base = env[v][0]
            if r[0] == "seq" and r[1] and r[1][0] == ("cat", lv):
                segs = r[1][1:]
                if self._has(("seq", segs), lv):
                    raise Unsup("list %s used while being built" % v)
                segs = P.abstract(("seq", tuple(segs)), x)[1]
                env[v] = (P.seq(list(base[1]) + [("for", n, segs)]), own[v])
                continue
            if r[0] == "upd" and r[1] == lv and not self._has(r[2], lv) and not self._has(r[3], lv):
                key, val = r[2], r[3]
                zero = base[0] == "call" and base[1] in ("zeros", "empty", "ones")
                if key == x and zero and base[2][0] == n:
                    init = num(1 if base[1] == "ones" else 0)
                    val = P.tmap(val, lambda t, d: init if t == ("old",) else None)
                    env[v] = (P.vec(n, P.abstract(val, x)), own[v])
                else:
                    env[v] = (("updfor", base, n, P.vec(n, P.abstract(key, x)), P.vec(n, P.abstract(val, x))), own[v])
                continue
            d = self.delta(r, lv)
            if d is None:
                raise Unsup("loop-carried value of %s" % v)
            env[v] = (P.add(base, P.total(P.toarray(P.vec(n, P.abstract(d, x))))), True)

    def decontinue(self, body):
        """turn 'if c: continue; rest' into 'if not c: rest'"""
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and \
                    isinstance(s.body[0], ast.Continue):
                rest, _ = self.decontinue(body[i + 1:])
                if rest:
                    out.append(ast.copy_location(ast.If(
                        test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=s.test), s.test),
                        body=rest, orelse=[]), s))
                return out, True
            out.append(s)
        return out, False

    def _has(self, t, lv):
        if t == lv:
            return True
        return any(self._has(x, lv) for x in t if isinstance(x, tuple))

    def haslvof(self, t, marks):
        return any(self._has(t, l) for l in marks.values())

    def delta(self, r, lv):
        if r == lv:
            return ZERO
        if r[0] == "ite":
            if self._has(r[1], lv):
                return None
            a, b = self.delta(r[2], lv), self.delta(r[3], lv)
            return None if a is None or b is None else P.ite(r[1], a, b)
        if r[0] == "poly":
            d = P.sub(r, lv)
            return None if self._has(d, lv) else d
        return None

    # -------------------------------------------------- expressions
    def test(self, e, env):
        """expression in a truth context"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Eq):
            for side in (e.left, e.comparators[0]):
                if isinstance(side, ast.Name) and side.id in self.arrayparams:
                    t = env.get(side.id, (None,))[0]
                    if t == ("p", side.id):
                        self.hazards.append((e.lineno, "'%s' may be an array, whose comparison has no truth value"
                                             % side.id))
        if isinstance(e, ast.BoolOp):
            k = "and" if isinstance(e.op, ast.And) else "or"
            out = []
            for v in e.values:
                t = self.cond(self.test(v, env))
                if t == NONE:
                    t = FALSE
                if t == (FALSE if k == "and" else TRUE):
                    out.append(t)
                    break
                out.append(t)
            return P.nary(k, out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.cond(self.test(e.operand, env))
            if t == NONE:
                return TRUE
            return P.not_(t)
        return self.ev(e, env)[0]

    def ev(self, e, env):
        """-> (term, owned): owned is False when the value is data held by the object"""
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None:
                return NONE, True
            if isinstance(v, bool):
                return ("bool", v), True
            if isinstance(v, (int, float)):
                return num(v), True
            return ("str", str(v)), True
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.mod.consts:
                return self.ev(self.mod.consts[e.id], {})
            if e.id in self.mod.funcs:
                return ("func", e.id), True
            return ("name", e.id), True
        if isinstance(e, ast.Attribute):
            return self.attr(e, env)
        if isinstance(e, (ast.List, ast.Tuple)):
            items = [self.ev(x, env)[0] for x in e.elts]
            if isinstance(e, ast.Tuple):
                return ("tuple", tuple(items)), True
            return P.seq([("one", x) for x in items]), True
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env)[0], self.ev(e.right, env)[0]
            try:
                return self.bin(type(e.op).__name__, a, b), True
            except P.ShapeError as x:
                x.lineno = e.lineno
                raise
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.USub):
                return P.neg(self.ev(e.operand, env)[0]), True
            if isinstance(e.op, ast.UAdd):
                return self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return self.test(e, env), True
            return P.not_(self.ev(e.operand, env)[0]), True
        if isinstance(e, ast.BoolOp):
            vals = [self.ev(v, env)[0] for v in e.values]
            if all(v[0] in ("cmp", "not", "and", "or", "bool") for v in vals):
                return P.nary("and" if isinstance(e.op, ast.And) else "or", vals), True
            # value-selecting and/or
            r = vals[-1]
            for v in reversed(vals[:-1]):
                c = self.truth(v)
                if isinstance(c, bool):
                    r = (r if c else v) if isinstance(e.op, ast.And) else (v if c else r)
                else:
                    r = P.ite(c, r, v) if isinstance(e.op, ast.And) else P.ite(c, v, r)
            return r, False
        if isinstance(e, ast.Compare):
            return self.compare(e, env), True
        if isinstance(e, ast.IfExp):
            c = self.truth(self.test(e.test, env))
            if isinstance(c, bool):
                return self.ev(e.body if c else e.orelse, env)
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            return P.ite(c, a[0], b[0]), a[1] and b[1]
        if isinstance(e, ast.Subscript):
            return self.subscript(e, env)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.comp(e, env), True
        if isinstance(e, ast.JoinedStr):
            return ("call", "format", tuple(self.ev(v.value, env)[0] for v in e.values
                                            if isinstance(v, ast.FormattedValue)), ()), True
        if isinstance(e, ast.Lambda):
            return ("lambda", id(e)), True
        raise Unsup(type(e).__name__)

    def comp(self, e, env):
        def rec(gens, env):
            if not gens:
                return [("one", self.ev(e.elt, env)[0])]
            g = gens[0]
            it, _ = self.ev(g.iter, env)
            n, elem = self.iteration(it)
            x = P.fresh()
            self.fvs.append(x)
            try:
                inner = dict(env)
                el = elem(x)
                self.assign(g.target, (el, False), inner)
                segs = None
                conds = []
                for c in g.ifs:
                    t = self.truth(self.test(c, inner))
                    if t is False:
                        segs = []
                    elif t is not True:
                        conds.append(t)
                if segs is None:
                    segs = rec(gens[1:], inner)
                if conds:
                    segs = [("if", P.nary("and", conds), tuple(segs))]
            finally:
                self.fvs.pop()
            segs = P.abstract(("seq", tuple(segs)), x)[1]
            segs = self.flat(segs)
            return [("for", n, tuple(segs))]
        return P.seq(rec(e.generators, env))

    def flat(self, segs):
        """for j<len(L): one L[j]   ->   cat L"""
        out = []
        for s in segs:
            if s[0] == "for" and len(s[2]) == 1 and s[2][0][0] == "one":
                b = s[2][0][1]
                if b[0] == "idx" and b[2] == ("b", 0) and P.shift(P.shift(b[1], -1, 1), 1) == b[1]:
                    L = P.shift(b[1], -1, 1)
                    if P.length(L) == s[1]:
                        out.append(("cat", L))
                        continue
            out.append(s)
        return out

    def compare(self, e, env):
        left = self.ev(e.left, env)[0]
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)[0]
            o = {ast.Gt: ">", ast.GtE: ">=", ast.Lt: "<", ast.LtE: "<=", ast.Eq: "==",
                 ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}[type(op)]
            if o in ("is", "isnot"):
                t = self.is_(left, right)
                out.append(t if o == "is" else P.not_(t))
            elif o in ("in", "notin"):
                t = ("in", left, right)
                out.append(t if o == "in" else P.not_(t))
            else:
                if (left == NONE) != (right == NONE) and o in ("==", "!="):
                    t = self.is_(left, right)
                    out.append(t if o == "==" else P.not_(t))
                else:
                    out.append(P.cmp_(o, P.toarray(left), P.toarray(right)))
            left = right
        return P.nary("and", out)

    def is_(self, a, b):
        if a == NONE and b == NONE:
            return TRUE
        if NONE in (a, b):
            o = b if a == NONE else a
            if o[0] == "ite":
                return P.ite(o[1], self.is_(o[2], NONE), self.is_(o[3], NONE))
            return FALSE                 # parameters given explicitly are not None
        if NONE not in (a, b) and (a[0] == "bool" or b[0] == "bool"):
            return P.cmp_("==", a, b)
        return P.cmp_("==", a, b)

    def bin(self, op, a, b):
        if op == "Add":
            return P.add(a, b)
        if op == "Sub":
            return P.sub(a, b)
        if op == "Mult":
            return P.mul(a, b)
        if op == "Div":
            return P.div(a, b)
        if op == "Pow":
            return P.power(a, b)
        if op == "BitAnd":
            return P.nary("and", [a, b])
        if op == "BitOr":
            return P.nary("or", [a, b])
        if op == "FloorDiv":
            d = P.div(a, b)
            return d if self.integral(d) else P.lift(lambda x, y: ("call", "floordiv", (x, y), ()), a, b)
        return P.lift(lambda x, y: ("call", op, (x, y), ()), a, b)

    def integral(self, t):
        d = P.aspoly(t)
        return all(c.denominator == 1 and all(self.intatom(a) and e > 0 for a, e in m) for m, c in d.items())

    def intatom(self, a):
        return a[0] in ("NE", "len", "count", "fv", "b") or (a[0] == "cell" and a[1] in ("A", "Z", "P", "nu", "nug", "preNu"))

    def attr(self, e, env):
        if isinstance(e.value, ast.Name):
            b = env.get(e.value.id, (None,))[0]
            if b == ("self",):
                if e.attr in self.attrs:
                    t = self.attrs[e.attr]
                    return t, not (P.isvec(t) or P.islist(t) or t[0] in ("table", "updated"))
                if e.attr in self.meths:
                    return ("meth", e.attr), True
                raise Unsup("self.%s" % e.attr)
            if b is None and e.value.id not in self.mod.consts:
                return ("name", e.value.id + "." + e.attr), True
        b, own = self.ev(e.value, env)
        if b[0] == "name":
            return ("name", b[1] + "." + e.attr), True
        if e.attr == "T":
            return (b[1] if b[0] == "T" else ("T", b)), own
        if e.attr == "size":
            return P.length(b), True
        if e.attr == "shape":
            return ("tuple", (P.length(b), ("shape1", b))), True
        return ("attr", b, e.attr), own

    def subscript(self, e, env):
        b, own = self.ev(e.value, env)
        s = e.slice
        if isinstance(s, ast.Tuple):
            return self.multi(b, s, env), own
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)[0]
            lo, hi, st = f(s.lower), f(s.upper), f(s.step)
            if b[0] == "seq":
                b2 = P.toarray(b)
                if P.isvec(b2):
                    return P.slice_(b2, lo, hi, st), True
            if b[0] == "table":
                return b, own
            return P.slice_(b, lo, hi, st), own
        i = self.ev(s, env)[0]
        i = P.toarray(i)
        if i[0] == "slicek":
            g = lambda x: None if x == NONE else x
            return P.slice_(P.toarray(b), g(i[1]), g(i[2]), g(i[3])), own
        r = P.idx(b, i)
        return r, own if not P.ismask(i) else True

    def multi(self, b, s, env):
        ks = s.elts
        if b[0] == "table" and len(ks) == 2 and isinstance(ks[0], ast.Slice) and not isinstance(ks[1], ast.Slice):
            k = self.ev(ks[1], env)[0]
            if k[0] != "num":
                raise Unsup("table column")
            j = int(k[1])
            if not -len(b[1]) <= j < len(b[1]):
                raise Unsup("table column out of range")
            x = P.fresh()
            name = b[1][j]
            if name is None:
                col = P.vec(P.mul(num(2), P.NE), ("cell", "?%d" % j, ("b", 0)))
            else:
                col = P.vec(P.mul(num(2), P.NE), ("cell", name, ("b", 0)))
            f = lambda x: None if x is None else self.ev(x, env)[0]
            r = ks[0]
            if r.lower is None and r.upper is None and r.step is None:
                return col
            return P.slice_(col, f(r.lower), f(r.upper), f(r.step))
        if b[0] == "dstack" and len(ks) == 3:
            k0 = ks[0]
            if isinstance(k0, ast.Constant) and k0.value == 0 and all(isinstance(k, ast.Slice) for k in ks[1:]):
                return ("stack2", b[1])
        if P.isvec(b) and len(ks) == 2:
            if isinstance(ks[0], ast.Slice) and ks[0].lower is None and ks[0].upper is None and ks[0].step is None:
                k = self.ev(ks[1], env)[0]
                y = P.fresh()
                return P.vec(b[1], P.abstract(P.idx(P.instantiate(b[2], y), k), y))
            if not isinstance(ks[0], ast.Slice) and not isinstance(ks[1], ast.Slice):
                return P.idx(P.idx(b, self.ev(ks[0], env)[0]), self.ev(ks[1], env)[0])
        return ("idx2", b, tuple(self.key(k, env) for k in ks))

    # -------------------------------------------------- calls
    def call(self, e, env):
        f = e.func
        # methods of the object
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and env.get(f.value.id, (None,))[0] == ("self",):
                if f.attr in self.meths:
                    if self.reader is not None and self.reader.intercept(f.attr):
                        return self.reader.result, False
                    return self.inline(self.meths[f.attr], e, env, True)
            if isinstance(f.value, ast.Name) and f.value.id in self.mod.classes and f.value.id not in env:
                m = self.mod.classes[f.value.id].get(f.attr)
                if m is not None:
                    static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list)
                    if static:
                        return self.inline(m, e, env, False)
            if isinstance(f.value, ast.Name) and f.value.id not in env and f.value.id not in self.mod.consts:
                return self.lib(f.value.id + "." + f.attr, e, env)
            if isinstance(f.value, ast.Attribute):
                b, _ = self.ev(f.value, env)
                if b[0] == "name":
                    return self.lib(b[1] + "." + f.attr, e, env)
            return self.method(f, e, env)
        if isinstance(f, ast.Name):
            if f.id in env and env[f.id][0][0] == "closure":
                fn, cenv = self.closures[env[f.id][0][2]]
                new = dict(cenv)
                names = [a.arg for a in fn.args.args]
                for n, a in zip(names, e.args):
                    new[n] = self.ev(a, env)
                return self.body(fn, new)
            if f.id in self.mod.funcs:
                return self.inline(self.mod.funcs[f.id], e, env, False)
            if f.id in self.mod.listclasses and not e.args:
                return P.seq([]), True
            return self.lib(f.id, e, env)
        raise Unsup("call")

    def method(self, f, e, env):
        name = f.attr
        if isinstance(f.value, ast.Name) and f.value.id in env and name in ("append", "extend", "sort", "reverse",
                                                                           "insert", "pop", "remove", "clear"):
            v = f.value.id
            base, own = env[v]
            if not own and not self.init:
                self.hazards.append((e.lineno, "'%s' refers to data held by the object, and is changed in place" % v))
            if name == "append" and base[0] == "seq":
                env[v] = (P.seq(list(base[1]) + [("one", self.ev(e.args[0], env)[0])]), own)
                return NONE, True
            if name == "extend" and base[0] == "seq":
                env[v] = (P.seq(list(base[1]) + [("cat", self.ev(e.args[0], env)[0])]), own)
                return NONE, True
            raise Unsup("list." + name)
        b, own = self.ev(f.value, env)
        if name in ("append", "extend", "sort", "reverse", "insert", "pop", "remove", "clear", "fill", "resize") and \
                not own and not self.init:
            self.hazards.append((e.lineno, "data held by the object are changed in place by %s()" % name))
        args = [self.ev(a, env)[0] for a in e.args]
        kws = {k.arg: self.ev(k.value, env)[0] for k in e.keywords}
        if self.reader is not None:
            r = self.reader.method(self, b, name, args)
            if r is not None:
                return r, True
        if name in ("astype", "copy", "tolist", "flatten", "ravel") and not (name in ("flatten", "ravel")):
            return P.toarray(b) if name != "tolist" else b, True
        if name == "mean":
            return self.np("mean", [b] + args, kws)
        if name == "sum":
            return self.np("sum", [b] + args, kws)
        if name in ("any", "all") and not args and not kws:
            return self.np(name, [b], kws)
        if name in ("max", "min", "any", "all"):
            return ("call", name, (b,) + tuple(args), ()), True
        if name == "reshape":
            if b[0] == "dstack":
                shp = args[0][1] if len(args) == 1 and args[0][0] == "tuple" else tuple(args)
                if len(shp) == 2 and shp[1] == num(len(b[1])) and shp[0] in (P.length(b[1][0]), num(-1)):
                    return self.rows(b[1]), True
            return ("call", "reshape", (b,) + tuple(args), ()), True
        if name == "append" and b[0] not in ("seq",):
            # table rows and other local containers: order of the cells is what counts
            if b[0] in ("call", "rows"):
                pass
            raise Unsup("append to " + b[0])
        if name == "format" and b[0] == "str":
            return ("call", "format", tuple(args), tuple(sorted(kws.items()))), True
        return ("call", "." + name, (b,) + tuple(args), tuple(sorted(kws.items()))), True

    def rows(self, items):
        return P.lift(lambda *xs: ("row", tuple(xs)), *items)

    def lib(self, name, e, env):
        if name.startswith("np.") or name.startswith("numpy."):
            n = name.split(".", 1)[1]
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    raise Unsup("*args")
                args.append(self.ev(a, env))
            kws = {k.arg: self.ev(k.value, env)[0] for k in e.keywords}
            own = all(o for _, o in args)
            try:
                r, o = self.np(n, [t for t, _ in args], kws)
            except P.ShapeError as x:
                x.lineno = e.lineno
                raise
            if n in ("asarray", "asanyarray", "ravel", "transpose"):
                o = own
            return r, o
        if name in ("sys.exit", "exit", "quit"):
            raise Exit()
        if name == "print":
            return NONE, True
        args = [self.ev(a, env)[0] for a in e.args]
        kws = {k.arg: self.ev(k.value, env)[0] for k in e.keywords}
        if self.reader is not None:
            r = self.reader.func(self, name, args)
            if r is not None:
                return r, True
        if name == "len" and len(args) == 1:
            return P.length(args[0]), True
        if name == "range":
            if len(args) == 1:
                return ("range", ZERO, args[0], ONE), True
            if len(args) == 2:
                return ("range", args[0], args[1], ONE), True
            return ("range",) + tuple(args), True
        if name == "slice":
            a = [NONE] + args if len(args) == 1 else args
            return ("slicek",) + tuple((a + [NONE] * 3)[:3]), True
        if name in ("any", "all") and len(args) == 1:
            return self.np(name, args, kws)
        if name == "enumerate":
            return ("enumerate", args[0], args[1] if len(args) > 1 else kws.get("start", ZERO)), True
        if name == "zip":
            return ("zip", tuple(args)), True
        if name == "map" and len(args) == 2 and args[0] in (("name", "float"), ("name", "int")):
            n, el = self.iteration(args[1])
            y = P.fresh()
            v = el(y)
            if self.reader is not None:
                v = self.reader.func(self, args[0][1], [v]) or v
            return P.seq([("for", n, P.abstract(P.seq([("one", v)]), y)[1])]), True
        if name in ("int", "float", "str", "list", "tuple", "dict", "bool") and not args:
            name, args = ("list", []) if name in ("list", "tuple") else (name, args)
            if name in ("int", "float"):
                return ZERO, True
            if name == "bool":
                return FALSE, True
        if name == "float":
            return args[0], True
        if name == "int":
            if args[0] == NONE:
                raise PyError("TypeError")
            if args[0][0] == "num" or self.integral(args[0]) or (self.init and args[0][0] == "p"):
                return args[0], True
            return ("call", "int", (args[0],), ()), True
        if name in ("list", "tuple"):
            return (args[0] if args else P.seq([])), True
        if name == "sum":
            if len(args) == 2 and args[1] == P.seq([]):
                n, el = self.iteration(args[0])
                y = P.fresh()
                return P.seq([("for", n, P.abstract(P.seq([("cat", el(y))]), y)[1])]), True
            return self.np("sum", args, kws)
        if name == "abs":
            return P.lift(lambda x: ("call", "abs", (x,), ()), args[0]), True
        if name == "bool":
            return self.cond(args[0]), True
        if name in ("max", "min"):
            return ("call", name, tuple(args), ()), True
        return ("call", name, tuple(args), tuple(sorted(kws.items()))), True

    def np(self, n, a, kws):
        if n in ("array", "asarray", "asanyarray"):
            return P.toarray(a[0]), True
        if n in ("mean", "average") and len(a) == 1 and not kws:
            return P.mean(P.toarray(a[0])), True
        if n == "sum":
            x = P.toarray(a[0])
            ax = kws.get("axis", a[1] if len(a) > 1 else None)
            if ax in (None, NONE):
                return P.total(x), True
            if ax == ONE and P.isvec(x):
                y = P.fresh()
                b = P.instantiate(x[2], y)
                if b[0] == "row":
                    s = ZERO
                    for c in b[1]:
                        s = P.add(s, c)
                    return P.vec(x[1], P.abstract(s, y)), True
            return ("call", "sumaxis", (x, ax), ()), True
        if n in ("any", "all") and len(a) == 1 and not kws and P.ismask(P.toarray(a[0])):
            m = P.toarray(a[0])
            return (P.cmp_(">", P.count(m), ZERO) if n == "any" else
                    P.not_(P.cmp_(">", P.count(P.not_(m)), ZERO))), True
        if n in ("dot", "inner", "vdot") and len(a) == 2 and all(
                x[0] == "idx" and x[1][0] == "cell" and x[1][1] in ("ncm", "nlab", "preDir") for x in a):
            r = ZERO
            for k in range(3):
                r = P.add(r, P.mul(P.idx(a[0], num(k)), P.idx(a[1], num(k))))
            return r, True
        if n == "size":
            return P.length(a[0]), True
        if n == "count_nonzero":
            return P.count(P.toarray(a[0])), True
        if n in ("zeros", "empty", "ones"):
            return ("call", n, (a[0],), ()), True
        if n == "zeros_like":
            return ("call", "zeros", (P.length(a[0]),), ()), True
        if n == "arange":
            lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else kws.get("step", ONE))
            if st == ONE:
                return P.vec(P.sub(hi, lo), P.add(P.shift(lo, 1), ("b", 0))), True
            return ("call", "arange", (lo, hi, st), ()), True
        if n == "logical_and":
            return P.nary("and", a), True
        if n == "logical_or":
            return P.nary("or", a), True
        if n == "logical_not":
            return P.not_(a[0]), True
        if n == "sqrt":
            return P.power(P.toarray(a[0]), ("num", P.Fraction(1, 2))), True
        if n == "square":
            return P.power(P.toarray(a[0]), num(2)), True
        if n in ("abs", "absolute", "log10", "log", "exp"):
            n = "abs" if n == "absolute" else n
            return P.lift(lambda x: ("call", n, (x,), ()), P.toarray(a[0])), True
        if n in ("max", "amax", "min", "amin"):
            return ("call", n[-3:], (P.toarray(a[0]),), ()), True
        if n in ("dstack",):
            its = a[0][1] if a[0][0] == "tuple" else None
            if its is None and a[0][0] == "seq" and all(s[0] == "one" for s in a[0][1]):
                its = tuple(s[1] for s in a[0][1])
            if its is None:
                raise Unsup("dstack")
            return ("dstack", tuple(P.toarray(x) for x in its)), True
        if n in ("column_stack", "stack", "vstack"):
            its = a[0][1] if a[0][0] == "tuple" else tuple(s[1] for s in a[0][1] if s[0] == "one") \
                if a[0][0] == "seq" else None
            if its is None:
                raise Unsup(n)
            its = [P.toarray(x) for x in its]
            ax = kws.get("axis", a[1] if len(a) > 1 else None)
            if (n == "column_stack" or (n == "stack" and ax in (ONE, num(-1)))) and all(P.isvec(x) for x in its):
                return self.rows(its), True
            return ("call", n, tuple(its), tuple(sorted(kws.items()))), True
        if n == "concatenate":
            its = a[0]
            if its[0] == "tuple":
                return P.seq([("cat", x) for x in its[1]]), True
            if its[0] == "seq" and all(s[0] == "one" for s in its[1]):
                return P.seq([("cat", s[1]) for s in its[1]]), True
            m, el = self.iteration(its)
            y = P.fresh()
            return P.seq([("for", m, P.abstract(P.seq([("cat", el(y))]), y)[1])]), True
        return ("call", n, tuple(P.toarray(x) for x in a), tuple(sorted(kws.items()))), True


# ------------------------------------------------------------------ name resolution
def unresolved(mod):
    """[(function, line, name)] global names no definition provides"""
    import symtable
    out = []
    top = set(dir(builtins)) | {"__file__", "__name__"}
    for n in ast.walk(mod.tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                top.add((a.asname or a.name).split(".")[0])
    for n in mod.tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            top.add(n.name)
        for m in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else []:
            if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                top.add(m.id)
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Global):
            top |= set(n.names)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = symtable.symtable(mod.text, mod.path, "exec")

    def walk(t, path):
        if t.get_type() == "function":
            for s in t.get_symbols():
                if s.is_global() and s.is_referenced() and s.get_name() not in top:
                    out.append((".".join(path), s.get_name()))
        for c in t.get_children():
            walk(c, path + [c.get_name()])
    walk(st, [])
    res = []
    for fn, name in out:
        line = next((n.lineno for n in ast.walk(mod.tree) if isinstance(n, ast.Name) and n.id == name), 0)
        res.append((fn, line, name))
    return res


def attributes(mod, cls):
    """(defined attributes, [(method, line, attr)] reads of undefined ones)"""
    ms = mod.classes[cls]
    defined = set(ms)
    reads = []
    for n in mod.tree.body:
        if isinstance(n, ast.ClassDef) and n.name == cls:
            for m in n.body:
                if isinstance(m, ast.Assign):
                    for t in m.targets:
                        if isinstance(t, ast.Name):
                            defined.add(t.id)
    dyn = False
    for name, fn in ms.items():
        if not fn.args.args:
            continue
        me = fn.args.args[0].arg
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                if isinstance(n.ctx, ast.Store):
                    defined.add(n.attr)
                else:
                    reads.append((name, n.lineno, n.attr))
            if isinstance(n, ast.Name) and n.id in ("setattr", "__dict__"):
                dyn = True
    if dyn:
        return defined, []
    return defined, [r for r in reads if r[2] not in defined and not hasattr(object, r[2])]
