"""Which memory a function reads before it has written it (upward-exposed reads), interprocedurally.

Patterns are those of cg/summ.py: globals, members of records, memory behind pointer arguments.  A write anywhere into an
array counts as a write of it and a loop counts as executed at least once (both make fewer reads exposed: an exposed read is
reported only when no write of the object can have come before it on some path).
"""
from cg.ctx import qual

SKIP = ("_ZSt4cout", "_ZSt4cerr", "_ZSt3cin", "stdout", "stderr")


class Flow:
    def __init__(self, ctx, m, stop=(), track=None):
        self.m = m
        self.S = ctx.summ(m)
        self.stop = stop            # callees ignored
        self.track = track or (lambda p: True)
        self.memo = {}
        self.active = set()

    def calls_of(self, f, x):
        g = self.m.fns.get(x.callee) if x.callee else None
        return g if g is not None and g.has_body and x.callee not in self.m.noreturn else None

    def accesses(self, f):
        """inst id -> (reads, kills): reads [(pattern, witness)], kills set of patterns"""
        S = self.S
        acc = {}
        mods, refs = S.direct(f)
        n = {}
        for p, x in mods:
            if S._local(p) or p[0] == "?":
                continue
            n.setdefault(x.id, []).append(p)
        for p, x in refs:
            if S._local(p) or p[0] == "?":
                continue
            acc.setdefault(x.id, ([], set()))[0].append((p, ((f, x),)))
        for i, ps in n.items():
            x = f.insts[i]
            if x.op == "store" and len(ps) > 1:
                continue            # may write any of several: kills none
            acc.setdefault(i, ([], set()))[1].update(ps)
        for x in f.calls():
            g = self.calls_of(f, x)
            if g is None or qual(g) in self.stop:
                continue
            ex, md = self.summary(g)
            a = acc.setdefault(x.id, ([], set()))
            for p, w in ex.items():
                for q in S._bind1(f, x, p):
                    if not S._local(q) and q[0] != "?":
                        a[0].append((q, w + ((f, x),)))
            for p in md:
                b = S._bind1(f, x, p)
                if len(b) == 1:
                    q = next(iter(b))
                    if not S._local(q) and q[0] != "?":
                        a[1].add(q)
        return acc

    def summary(self, f):
        """(exposed: pattern -> witness path, must-written patterns)"""
        if f.name in self.memo:
            return self.memo[f.name]
        if f.name in self.active:
            return {}, set()
        self.active.add(f.name)
        acc = self.accesses(f)
        ALL = None
        out = {}
        entry = f.order[0].id
        live = self.S.liveblocks(f)

        def transfer(b, cur, ex=None):
            for x in f.blocks[b].insts:
                a = acc.get(x.id)
                if a:
                    if ex is not None:
                        for p, w in a[0]:
                            if p not in cur and p not in ex:
                                ex[p] = w
                    cur = cur | a[1] if a[1] - cur else cur
            return cur
        ch = True
        inn = {entry: frozenset()}
        while ch:
            ch = False
            for b in f.rpo:
                if b == entry:
                    i = frozenset()
                else:
                    i = None
                    for p in f.blocks[b].preds:
                        if p not in out:
                            continue
                        o = out[p]
                        L = f.loops.get(p)
                        # leaving a loop from its header: at least one iteration is assumed
                        while L is not None and b not in L.blocks:
                            lo = [out[l] for l in L.latches if l in out]
                            if len(lo) == len(L.latches) and lo:
                                o = o | frozenset.intersection(*lo)
                            L = L.parent if L.parent is not None and L.parent.header == p else None
                        i = o if i is None else i & o
                    if i is None:
                        continue
                o = transfer(b, i)
                if inn.get(b) != i or out.get(b) != o:
                    inn[b] = i; out[b] = frozenset(o); ch = True
        ex = {}
        for b in f.rpo:
            if b in inn and b in live:
                transfer(b, inn[b], ex)
        md = None
        for b in f.rpo:
            if b in out and not f.blocks[b].succs and f.blocks[b].insts[-1].op == "ret" and b in live:
                md = out[b] if md is None else md & out[b]
        self.active.discard(f.name)
        self.memo[f.name] = (ex, set(md or ()))
        return self.memo[f.name]
