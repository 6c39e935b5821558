"""A data file that cannot be opened ends the run: no data is read from a stream, and no function that loads a table
returns, before the stream was opened and the opening was seen to succeed; a result file that cannot be opened ends the run too.

Rule: typestate of every file stream (and FILE*) of every function reachable from the entry points:
unopened -> opened -> checked by a branch; reading or writing in any other state, or returning in the state
"opening failed" or "never looked at", is a violation.  Path-insensitive join (weakest state wins)."""
import re
from props.lib import *
from props.reach import reachable

IF = re.compile(r"basic_ifstream|basic_fstream|basic_ofstream|basic_filebuf")
G, O, F_, U, X = "good", "unchecked", "failed", "unopened", "unknown"
ORDER = [F_, O, U, X, G]         # weakest first


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a if ORDER.index(a) < ORDER.index(b) else b


def base(f, o):
    """alloca an operand points into (through address arithmetic and casts)"""
    n = 0
    while o[0] == "v" and n < 30:
        i = f.insts.get(o[1])
        if i is None:
            return None
        if i.op == "alloca":
            return i
        if i.op == "getelementptr":
            o = i.d.get("base") or i.ops[0]
        elif i.op in ("bitcast", "freeze"):
            o = i.ops[0]
        else:
            return i if i.op == "call" else None
        n += 1
    return None


def name(m, c):
    g = m.fns.get(c)
    return g.dem if g is not None else c


def streams(f, m):
    """stream objects of f: alloca -> kind, FILE* producing calls"""
    out = {}
    for i in f.all_insts():
        if i.op == "alloca" and re.search(r"class\.std::basic_(i|o)?fstream", i.d.get("aty") or ""):
            out[i] = "in" if "ifstream" in i.d["aty"] else ("out" if "ofstream" in i.d["aty"] else "inout")
        elif i.op in ("call", "invoke") and i.callee in ("fopen", "fopen64"):
            out[i] = "file"
    return out


class Ev:
    """what an instruction does to stream s"""


def classify(m, f, i, s, kind):
    """(event, ...) of a call on stream s: open/ctor/close/check/use/escape/None"""
    d = name(m, i.callee or "")
    if kind == "file":
        if i is s:
            return "open"
        if not any(base(f, o) is s for o in i.ops):
            return None
        if i.callee == "fclose":
            return "close"
        g = m.fns.get(i.callee)
        return "use"
    idx = [k for k, o in enumerate(i.ops) if base(f, o) is s]
    if not idx:
        return None
    if re.search(r"basic_(i|o)?fstream<[^>]*>+::basic_(i|o)?fstream\(", d) or re.search(r"::basic_(i|o)?fstream\(", d):
        return "open" if len(i.ops) > 1 else "ctor"
    if re.search(r"::open\(", d):
        return "open"
    if re.search(r"::close\(", d):
        return "close"
    if re.search(r"::~basic_", d):
        return "dtor"
    if re.search(r"::is_open\(|::operator!\(|::operator bool\(|::fail\(|::good\(|::bad\(", d):
        return "check"
    if re.search(r"::clear\(|::width\(|::precision\(|::setf\(|::exceptions\(|::imbue\(|::rdbuf\(", d):
        return None
    g = m.fns.get(i.callee)
    if g is not None and g.has_body and g.repo:
        return "escape"
    if i.callee and i.callee.startswith("llvm."):
        return None
    return "use"


def truth(f, o, neg=False, n=0):
    """condition operand -> (instruction, negated) with negations and i1/i8 conversions peeled"""
    while o[0] == "v" and n < 20:
        i = f.insts.get(o[1])
        if i is None:
            return None, neg
        n += 1
        if i.op in ("zext", "trunc", "freeze", "sext"):
            o = i.ops[0]
        elif i.op == "xor" and len(i.ops) == 2 and i.ops[1][0] == "i" and int(i.ops[1][1]) != 0:
            neg = not neg
            o = i.ops[0]
        elif i.op == "icmp" and i.d["pred"] in ("eq", "ne") and (i.ops[1][0] == "n" or i.ops[1][0] == "i" and int(i.ops[1][1]) == 0):
            if i.d["pred"] == "eq":
                neg = not neg
            o = i.ops[0]
        else:
            return i, neg
    return None, neg


def analyse(m, f, s, kind):
    """typestate of stream s -> list of (inst, state, event)"""
    instate = {}
    bad = []
    nuse = set()
    start = s.bb.id
    work = [f.order[0].id]
    instate[f.order[0].id] = U
    edge = {}

    def transfer(b, st, rec):
        for i in f.blocks[b].insts:
            if i.op in ("call", "invoke"):
                ev = classify(m, f, i, s, kind)
                if ev == "open":
                    st = O
                elif ev == "ctor":
                    st = U
                elif ev in ("close",):
                    if rec is not None and st in (O, F_) and kind != "in":
                        rec.append((i, st, "close"))
                    st = X if st == G else U
                elif ev == "dtor":
                    if rec is not None and st in (F_, O):
                        rec.append((i, st, "end"))
                    st = U
                elif ev == "escape":
                    if rec is not None and kind == "file" and st != G and st != X:
                        rec.append((i, st, "use"))
                    if kind == "file":
                        nuse.add(i)
                    else:
                        st = X
                elif ev == "use":
                    nuse.add(i)
                    if rec is not None and st not in (G, X):
                        rec.append((i, st, "use"))
                if i.callee in m.noreturn or i.d.get("noreturn"):
                    return None
            elif i.op == "ret":
                if rec is not None and kind == "file" and st in (F_, O):
                    pass
        return st

    def refine(b, t, st):
        """state on the edge b -> t"""
        i = f.blocks[b].insts[-1]
        if i.op != "br" or len(i.ops) != 3:
            return st
        c, neg = truth(f, i.ops[0])
        if c is None:
            return st
        fd, td = i.ops[1][1], i.ops[2][1]
        if fd == td:
            return st
        taken = (t == td) != neg        # truth value of the peeled condition on this edge
        if c.op == "phi" and c.bb.id == b and not any(x.op in ("call", "invoke") and classify(m, f, x, s, kind) for x in f.blocks[b].insts):
            r = None                    # each way into the block decides the branch by itself
            for o, p in c.ops:
                es = edge.get((p, b))
                if es is None:
                    continue
                if o[0] == "i":
                    if (int(o[1]) != 0) == taken:
                        r = join(r, es)
                    continue
                x, n2 = truth(f, o)
                r = join(r, es if x is None else outcome(x, taken != n2, es))
            return r
        return outcome(c, taken, st)

    def outcome(c, taken, st):
        if kind == "file":
            if c is s:
                return G if taken else F_
            return st
        if c.op not in ("call", "invoke"):
            return st
        d = name(m, c.callee or "")
        if not any(base(f, o) is s for o in c.ops):
            return st
        if st not in (O, F_, G):
            return st
        if re.search(r"::is_open\(|::operator bool\(|::good\(", d):
            okk = taken
        elif re.search(r"::operator!\(|::fail\(|::bad\(", d):
            okk = not taken
        else:
            return st
        if st == G:
            return G
        return G if okk else F_
    seen = 0
    while work and seen < 20000:
        b = work.pop()
        seen += 1
        st = transfer(b, instate[b], None)
        if st is None:
            continue
        for t in f.blocks[b].succs:
            ns = refine(b, t, st)
            if ns is None:
                continue
            if edge.get((b, t)) != ns:
                edge[(b, t)] = join(edge.get((b, t)), ns)
                if t in instate:
                    work.append(t)
            j = join(instate.get(t), ns)
            if j != instate.get(t):
                instate[t] = j
                work.append(t)
    for b, st in instate.items():
        transfer(b, st, bad)
    return bad, nuse


def run(ctx, rep, tier):
    for mpi in (False, True):
        one(ctx, rep, ctx.module(lambda f: False, mpi=mpi), mpi)
    rep.floor("file streams", 15)
    rep.floor("stream operations", 30)
    rep.assumptions += ["contents of a file that could be opened are not examined"]


def one(ctx, rep, m, mpi):
    R = reachable(m)
    for f in sorted((x for x in m.fns.values() if x.repo and x.has_body and x.name in R), key=lambda x: x.name):
        ss = streams(f, m)
        if not ss:
            continue
        q = C.qual(f)
        if mpi and q != "main" and not (f.file or "").startswith("utils"):
            continue            # the library is the same in both builds
        rep.units.add(f.dem)
        for n, (s, kind) in enumerate(sorted(ss.items(), key=lambda p: p[0].id)):
            rep.count("file streams")
            bad, use = analyse(m, f, s, kind)
            rep.count("stream operations", len(use))
            oid = "C05:%s%s:%d" % (q, ":mpi" if mpi else "", n)
            if not bad:
                rep.ok(oid, "%s stream of %s: opened and checked before all %d uses" % (kind, q, len(use)))
                continue
            i, st, ev = bad[0]
            what = {O: "without looking whether the file could be opened", F_: "although the file could not be opened", U: "without opening the file"}.get(st, st)
            if ev == "use":
                rep.bad(oid, i.loc, "%s %s a file %s" % (q, "reads from" if kind == "in" else "uses", what))
            else:
                rep.bad(oid, i.loc, "%s goes on %s" % (q, what))
