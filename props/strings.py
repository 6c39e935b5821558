"""Contents of std::string objects, string streams and C strings in one function, as sequences of pieces under conditions."""
import re
from props.lib import *

LONG = re.compile(r"std::(?:__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>")
SS = re.compile(r"std::(?:__cxx11::)?basic_(o|i)?stringstream<char, std::char_traits<char>, std::allocator<char> ?>")
OS = re.compile(r"std::basic_ostream<char, std::char_traits<char> ?>")
EMPTY = ()


def norm(ps):
    out = []
    for p in ps:
        if p[0] == "t":
            if not p[1]:
                continue
            if out and out[-1][0] == "t":
                out[-1] = ("t", out[-1][1] + p[1])
                continue
        out.append(p)
    return tuple(out)


def cat(*alts):
    """concatenation of guarded alternatives"""
    r = [(T.TRUE, ())]
    for a in alts:
        n = []
        for c, p in r:
            for d, q in a:
                e = T.bdd_and(c, d)
                if e != T.FALSE:
                    n.append((e, norm(p + q)))
        r = merge(n)
    return r


def merge(a):
    d = {}
    for c, p in a:
        if c != T.FALSE:
            d[p] = T.bdd_or(d.get(p, T.FALSE), c)
    return [(c, p) for p, c in d.items()]


def text(ps):
    """the literal text, None when not a literal"""
    if ps == ():
        return ""
    return ps[0][1] if len(ps) == 1 and ps[0][0] == "t" else None


def pretty(ps):
    out = []
    for p in ps:
        out.append('"%s"' % p[1] if p[0] == "t" else "str(%s)" % show(p[1]) if p[0] == "num" else "%s" % (p[1] if p[0] == "s" else show(p[1]),))
    return " + ".join(map(str, out)) or '""'


class Strs:
    def __init__(self, F):
        self.F = F
        self.st = {}
        self.cp = {}
        self.sem = {}             # condition -> ("eq", alternatives, alternatives)
        self.at = {}              # id(effect) -> {argument number: alternatives}
        self.streams = {}
        self.log = []             # (effect, object, contents) of every assignment, in order
        self._e = None
        self.mods = {}
        self.lastpos = {}
        for n, e in enumerate(F.effects):
            for h in e.loops:
                self.lastpos[h] = n
        for e in F.effects:
            if e.kind == "call" and e.loops:
                for k in self._written(e):
                    for h in e.loops:
                        self.mods.setdefault(h, set()).add(k)
        open_ = []
        for n, e in enumerate(F.effects):
            while open_ and open_[-1] not in e.loops:
                self._havoc(open_.pop(), "after")
            for h in e.loops:
                if h not in open_:
                    self._havoc(h, "loop")
                    open_.append(h)
            if e.kind == "call" and e.callee and e.pc != T.FALSE:
                self._e = e
                self._call(e)
        while open_:
            self._havoc(open_.pop(), "after")

    def _havoc(self, h, what):
        for k in self.mods.get(h, ()):
            self.st[k] = [(T.TRUE, (("s", (what, h, self.name(k))),))]

    # ------------------------------------------------------------ keys
    def key(self, p):
        if not isinstance(p, Ptr) or p.base[0] == "ite":
            return None
        c = p.off.const()
        if c is None:
            return None
        return (p.base, int(c))

    def skey(self, p):
        """string stream object an ostream pointer belongs to"""
        k = self.key(p)
        if k is None:
            return None
        return ("ss", k[0])

    def name(self, k):
        b = k[0]
        if k[0] == "ss":
            b = k[1]
        if b[0] == "g":
            g = self.F.mod.globals.get(b[1], {})
            return re.sub(r"B5cxx11$", "", re.sub(r"^_Z\d+", "", b[1]))
        if b[0] == "arg":
            return "argument %d" % b[1]
        return "%s+%s" % (b[:2], k[1])

    def content(self, p):
        k = self.key(p)
        if k is None:
            return [(T.TRUE, (("s", ("?", repr(p))),))]
        return self.st.get(k) or [(T.TRUE, (("s", ("init", self.name(k))),))]

    def chars(self, p):
        """contents of the C string p"""
        if isinstance(p, Ptr):
            t = cstr(self.F, p)
            if t is not None:
                return [(T.TRUE, norm((("t", t),)))]
            if p in self.cp:
                return self.cp[p]
            if p.base[0] == "ite":
                _, c, a, b = p.base
                return merge([(T.bdd_and(c.n, x), y) for x, y in self.chars(a)] + [(T.bdd_and(T.bdd_not(c.n), x), y) for x, y in self.chars(b)])
        return [(T.TRUE, (("c", p),))]

    def assign(self, k, alts, pc):
        if k is None:
            return
        self.log.append((self._e, k, alts))
        old = self.st.get(k) or [(T.TRUE, (("s", ("init", self.name(k))),))]
        self.st[k] = merge([(T.bdd_and(c, pc), p) for c, p in alts] + [(T.bdd_and(c, T.bdd_not(pc)), p) for c, p in old])

    # ------------------------------------------------------------ calls
    def dem(self, e):
        g = self.F.mod.fns.get(e.callee)
        d = g.dem if g is not None else e.callee
        d = re.sub(r"> >", ">>", d)
        d = LONG.sub("S", d)
        d = SS.sub("SS", d)
        d = OS.sub("OS", d)
        return d.replace("std::ostream", "OS").replace("std::string", "S").replace("<char, std::char_traits<char>, std::allocator<char>>", "")

    def _written(self, e):
        d = self.dem(e) if e.callee else ""
        a = e.args
        if re.match(r"S::(operator=|operator\+=|append|assign|basic_string|clear|insert|erase|push_back|replace|resize|pop_back)", d):
            return [self.key(a[0])] if self.key(a[0]) else []
        if re.match(r"SS::(str|basic_stringstream|basic_ostringstream)\b", d) and a:
            return [self.skey(a[0])] if self.key(a[0]) else []
        if "operator<<" in d and a and isinstance(a[0], Ptr) and self.skey(a[0]):
            return [self.skey(a[0])]
        g = self.F.mod.fns.get(e.callee)
        if d.startswith(("S std::operator+", "std::to_string", "S::substr", "SS::str() const", "SS::str()")):
            return [self.key(a[0])] if self.key(a[0]) else []
        return []

    def _str(self, d, i):
        """is parameter i of the demangled signature a string (or a C string)?"""
        m = re.search(r"\((.*)\)(?: const)?$", d)
        if not m:
            return None
        ps = [x.strip() for x in _split(m.group(1))]
        if i >= len(ps):
            return None
        p = ps[i]
        if p.startswith("S"):
            return "S"
        if p.startswith("char const*") or p.startswith("char*"):
            return "C"
        return p

    def _arg(self, d, i, v):
        t = self._str(d, i)
        if t == "S":
            return self.content(v)
        if t == "C":
            return self.chars(v)
        if t == "char" and isinstance(v, Poly) and v.const() is not None:
            return [(T.TRUE, (("t", chr(int(v.const()))),))]
        return None

    def _call(self, e):
        d = self.dem(e)
        a = e.args
        F = self.F
        rec = self.at.setdefault(id(e), {})
        for i, v in enumerate(a):
            if isinstance(v, Ptr):
                if v in self.cp or cstr(F, v) is not None:
                    rec[i] = self.chars(v)
                elif self.key(v) in self.st or v.base[0] in ("g", "al", "arg"):
                    rec[i] = self.content(v)
        m = re.match(r"S::(operator=|operator\+=|append|assign|push_back)\(", d)
        if m:
            v = self._arg(d, 0, a[1]) if len(a) == 2 else None
            if v is None:
                v = [(T.TRUE, (("s", ("?", e.where)),))]
            k = self.key(a[0])
            if m.group(1) in ("operator=", "assign"):
                self.assign(k, v, e.pc)
            else:
                self.assign(k, cat(self.content(a[0]), v), e.pc)
            if isinstance(e.res, Ptr) and k is not None:
                self.alias(e.res, a[0])
            return
        if re.match(r"S::basic_string(<.*>)?\(", d) and a:
            k = self.key(a[0])
            if len(a) == 1:
                self.assign(k, [(T.TRUE, ())], e.pc)
            else:
                v = self._arg(d, 0, a[1])
                self.assign(k, v if v is not None and len(a) <= 3 else [(T.TRUE, (("s", ("?", e.where)),))], e.pc)
            return
        if re.match(r"S::clear\(", d):
            self.assign(self.key(a[0]), [(T.TRUE, ())], e.pc)
            return
        if re.match(r"S std::operator\+", d):
            self.assign(self.key(a[0]), cat(self._arg(d, 0, a[1]) or self.content(a[1]), self._arg(d, 1, a[2]) or self.content(a[2])), e.pc)
            return
        if d.startswith("std::to_string") or re.match(r"S std::to_string|std::__cxx11::to_string", d):
            self.assign(self.key(a[0]), [(T.TRUE, (("num", a[1]),))], e.pc)
            return
        if re.match(r"S::(c_str|data|operator\[\]|begin|front)\(", d):
            if isinstance(e.res, Ptr) and (len(a) < 2 or (isinstance(a[1], Poly) and a[1].const() == 0)):
                self.cp[e.res] = self.content(a[0])
            return
        if re.match(r"SS::basic_(o|i)?stringstream\(", d) and a:
            self.assign(self.skey(a[0]), self.content(a[1]) if len(a) > 1 and self._str(d, 0) == "S" else [(T.TRUE, ())], e.pc)
            return
        if re.match(r"SS::str\(", d):
            if len(a) == 2 and self._str(d, 0) == "S":
                self.assign(self.skey(a[0]), self.content(a[1]), e.pc)
            elif len(a) == 2:
                k = self.skey(a[1])
                self.assign(self.key(a[0]), self.st.get(k) or [(T.TRUE, (("s", ("?", e.where)),))], e.pc)
            return
        if "operator<<" in d and a and isinstance(a[0], Ptr):
            root = self._stream(a[0])
            if root is not None and root in self.st:
                if isinstance(e.res, Ptr):
                    self.streams[e.res] = root
                v = None
                if len(a) == 2:
                    if d.startswith("OS::"):
                        v = [(T.TRUE, (("num", a[1]),))] if isinstance(a[1], Poly) else None
                        t = self._str(d, 0)
                    else:
                        t = self._str(d, 1)
                        v = self._arg(d, 1, a[1])
                if v is None:
                    v = [(T.TRUE, (("s", ("?", e.where)),))]
                self.assign(root, cat(self.st[root], v), e.pc)
            return
        mm = re.match(r"bool std::operator(==|!=)", d)
        if mm and len(a) == 2:
            self._fact(e, "eq", self._arg(d, 0, a[0]), self._arg(d, 1, a[1]), mm.group(1) == "!=")
            return
        if re.match(r"S::empty\(", d):
            self._fact(e, "eq", self.content(a[0]), [(T.TRUE, ())], False)
            return
        if re.match(r"S::(size|length)\(", d) and isinstance(e.res, Poly):
            self.sem[("val", e.res)] = ("size", self.content(a[0]))
            return
        if re.match(r"S::compare\(", d) and isinstance(e.res, Poly) and len(a) == 2:
            self.sem[("val", e.res)] = ("cmp", self.content(a[0]), self._arg(d, 0, a[1]))
            return
        if e.callee in ("strcmp",) and isinstance(e.res, Poly):
            self.sem[("val", e.res)] = ("cmp", self.chars(a[0]), self.chars(a[1]))
            return



    def _stream(self, p):
        if p in self.streams:
            return self.streams[p]
        k = self.skey(p)
        return k if k in self.st else None

    def alias(self, r, p):
        pass

    def global_(self, name):
        """key of the global string `name`"""
        for n in self.F.mod.globals:
            if re.fullmatch(r"_Z\d+%sB5cxx11|_Z\d+%s|%s|_ZL\d+%s(B5cxx11)?" % ((name,) * 4), n):
                return (("g", n), 0)
        return None

    def of(self, e, i):
        """contents argument i of call e has when e is executed"""
        return [(c, p) for c, p in self.at.get(id(e), {}).get(i, []) if T.bdd_and(c, e.pc) != T.FALSE]

    def _fact(self, e, op, x, y, neg):
        if isinstance(e.res, Bd) and x is not None and y is not None:
            if e.res.n not in (T.TRUE, T.FALSE):
                c, lo, hi = T.bdd_top(e.res.n)
                if (lo, hi) in ((T.FALSE, T.TRUE), (T.TRUE, T.FALSE)):
                    self.sem[T.cond_of(c)] = (op, x, y, neg != ((lo, hi) == (T.TRUE, T.FALSE)))

    # ------------------------------------------------------------ meaning of a literal
    def meaning(self, c, pol):
        """('eq', alternatives, alternatives, truth) of a condition about strings, else None"""
        if c in self.sem:
            op, x, y, neg = self.sem[c]
            return (op, x, y, pol != neg)
        if c[0] == "eq":
            for k, v in self.sem.items():
                if isinstance(k, tuple) and k and k[0] == "val" and (c[1] == k[1] or c[1] == -k[1]):
                    if v[0] == "size":
                        return ("eq", v[1], [(T.TRUE, ())], pol)
                    return ("eq", v[1], v[2], pol)
        if c[0] == "lt":
            for k, v in self.sem.items():
                if isinstance(k, tuple) and k and k[0] == "val" and v[0] == "size":
                    if c[1] == k[1] - ONE:
                        return ("eq", v[1], [(T.TRUE, ())], pol)
                    if c[1] == -k[1]:
                        return ("eq", v[1], [(T.TRUE, ())], not pol)
        return None


def _split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out
