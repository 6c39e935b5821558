"""functions reachable from the entry points of the program and the library"""
import re
from cg import ctx as C


def entries(m):
    out = []
    for f in m.fns.values():
        if not (f.repo and f.has_body):
            continue
        q = C.qual(f)
        if q == "main" or (f.file or "").endswith("cgmfEvents_capi.cpp") or re.match(r"^(cgmEvent|cgmfEvent|cgmfYields)::", q) or q in ("cgmf_cleanup", "setdatapath", "checkdatapath", "set_rng"):
            out.append(f)
    return out


def graph(m):
    g = {}
    for f in m.fns.values():
        if not f.has_body:
            continue
        s = set()
        for i in f.all_insts():
            if i.op in ("call", "invoke") and i.callee:
                s.add(i.callee)
            for o in i.ops:
                _fnrefs(o, s)
        g[f.name] = s
    return g


def _fnrefs(o, s):
    if isinstance(o, (list, tuple)):
        if len(o) >= 2 and o[0] == "fn" and isinstance(o[1], str):
            s.add(o[1])
        else:
            for x in o:
                if isinstance(x, (list, tuple)):
                    _fnrefs(x, s)


def reachable(m, roots=None, cut=()):
    """names of the functions reachable from the roots (default: all entry points) without entering `cut`"""
    g = graph(m)
    for f in m.fns.values():
        if cut and f.repo and C.qual(f) in cut:
            g[f.name] = set()
    work = [f.name for f in (roots if roots is not None else entries(m))]
    seen = set()
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        work += [x for x in g.get(n, ()) if x not in seen]
    return seen
