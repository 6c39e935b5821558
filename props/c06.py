"""A fatal error ends the process with a failure status, and only an orderly end reports success: the fatal-error
routine never returns whatever message it is given, no reachable call ends the process with status 0, and the
driver returns 0 and nothing else.

Every message that announces a fatal condition (an error, something that cannot be found, opened, handled or
recognised) is followed by the end of the process on every path.

Rule: inter-procedural never-returns analysis (fixpoint over the call graph) on the fatal-error routines; constant
status of every process-ending call reachable from the entry points; everything after a fatal call is dead."""
from props.lib import *
from props.reach import reachable

EXIT = ("exit", "_exit", "_Exit", "quick_exit")
FATAL = re.compile(r"ERROR|[Cc]annot|[Cc]ould not (find|open|read)|not (recognized|implemented|found|allowed)|(^|\] )No \w.* (found|probabilities)|terminated|^discrete levels for Z"
                   r"|can only be|allocation error|too many|too large|not complete|spin/parity not assigned")
PUTS = "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"
STREAMS = ("_ZSt4cerr", "_ZSt4cout", "_ZSt4clog")


def ends(f, b, k, m):
    """no return of f is reachable from instruction k of block b without the process having ended"""
    seen, work = set(), [(b, k, None)]
    while work:
        x, kk, pr = work.pop()
        if (x, kk, pr) in seen:
            continue
        seen.add((x, kk, pr))
        stop = False
        for i in f.blocks[x].insts[kk:]:
            if i.op in ("call", "invoke") and (i.callee in m.noreturn or i.d.get("noreturn")):
                stop = True
                break
            if i.op == "ret":
                if C.qual(f) == "main" and failure(f, i, pr):
                    break
                return False
        if not stop:
            work += [(t, 0, x) for t in f.blocks[x].succs]
    return True


def failure(f, i, pr):
    """the driver returns a failure status here, coming from block pr"""
    o = i.ops[0] if i.ops else None
    if o and o[0] == "v":
        y = f.insts.get(o[1])
        if y is None or y.op != "phi" or y.bb.id != i.bb.id:
            return False
        o = next((v for v, b in y.ops if b == pr), None)
    return bool(o) and o[0] == "i" and int(o[1]) % 256 != 0


def returned(f):
    """constants the function can return, or None"""
    out, work, seen = set(), [i.ops[0] for i in f.all_insts() if i.op == "ret" and i.ops], set()
    while work:
        o = work.pop()
        if o[0] == "i":
            out.add(int(o[1]) % 256)
        elif o[0] == "v" and f.insts.get(o[1]) is not None and f.insts[o[1]].op == "phi":
            if o[1] not in seen:
                seen.add(o[1])
                work += [v for v, _ in f.insts[o[1]].ops]
        else:
            return None
    return out


def run(ctx, rep, tier):
    for mpi in (False, True):
        m = ctx.module(lambda f: False, mpi=mpi)
        cfg = "mpi" if mpi else "serial"
        ts = ctx.fns(m, "cgmTerminateCode")
        if not ts:
            raise AnalysisBroken("fatal-error routine not found")
        for f in ts:
            rep.count("fatal-error routines")
            rep.decide("C06:%s:%s" % (cfg, f.dem), f.name in m.noreturn, "%s:%s" % (f.file, f.line), "%s never returns" % f.dem)
        R = reachable(m)
        for f in m.fns.values():
            if not (f.repo and f.has_body and f.name in R):
                continue
            for i in f.all_insts():
                if i.op not in ("call", "invoke"):
                    continue
                if i.callee in EXIT:
                    rep.count("process-ending calls")
                    F = None
                    o = i.ops[0]
                    if o[0] == "i":
                        v = int(o[1]) % 256
                        rep.decide("C06:%s:%s:%s" % (cfg, C.qual(f), i.line), v != 0, i.loc, "%s ends the process with a failure status" % C.qual(f), "exit(%s)" % o[1])
                    else:
                        F = ctx.sym(m, f)
                        es = [e for e in F.effects if e.inst is i and e.pc != T.FALSE]
                        for e in es:
                            c = lin.cases([e.args[0]], [], conds=[e.pc]) if isinstance(e.args[0], Poly) else None
                            vals = None if c is None else [x.const() for l, (x,), (g,) in c if g != T.FALSE]
                            good = None if not vals or any(x is None for x in vals) else all(int(x) % 256 for x in vals)
                            rep.decide("C06:%s:%s:%s" % (cfg, C.qual(f), i.line), good, i.loc, "%s ends the process with a failure status" % C.qual(f), show(e.args[0]))
                elif i.callee in m.noreturn:
                    rep.count("fatal calls")
            for b in f.order:
                for k, i in enumerate(b.insts):
                    if i.op in ("call", "invoke") and i.callee == PUTS and (i.ops[0][0] != "g" or i.ops[0][1] in STREAMS):
                        s = m.cstr(i.ops[1])
                        if s and FATAL.search(s):
                            rep.count("fatal messages")
                            rep.decide("C06:%s:%s:msg:%s" % (cfg, C.qual(f), s[:50]), ends(f, b.id, k, m), i.loc, "%s ends the process after its message '%s'" % (C.qual(f), s.strip()[:60]), "a path goes on after the message")
        M = ctx.sym(m, "main")
        v = ret(M)
        # statuses returned after a fatal message (see above) are failures; what remains has to be 0
        stat = returned(M.fn)
        told = any(i.op in ("call", "invoke") and i.callee == PUTS and FATAL.search(m.cstr(i.ops[1]) or "") for i in M.fn.all_insts())
        good = isinstance(v, Poly) and v.const() == 0
        if isinstance(v, Poly) and v.const() is None:
            good = None
            for l, (x,), _ in lin.cases([v], ()) or ():
                if x.const() not in (None, 0) and not any("phi" in str(c) or "peq" in str(c) for c in l):
                    good = None if told and stat is not None and 0 in stat else False
        elif not isinstance(v, Poly):
            good = None
        rep.decide("C06:%s:main" % cfg, good, where(M), "the driver returns success at its orderly end", show(v))
    rep.floor("process-ending calls", 30)
    rep.floor("fatal calls", 30)
    rep.floor("fatal messages", 10)
