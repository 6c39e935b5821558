"""Analysis context shared by the property rules: builds the program model from /repo's current tree."""
import os, shutil, tempfile, json, time
from . import ir, summ as S, sym, term as T
from .ir import AnalysisBroken

BASE = os.path.join(ir.HERE, "baseline_functions.txt")


def qual(fn):
    """qualified name without parameter list / return type"""
    d = fn.dem
    if "(" not in d:
        return d
    # cut at the parameter list: last top-level '('
    depth = 0
    end = None
    i = len(d) - 1
    while i >= 0:
        if d[i] == ")":
            depth += 1
        elif d[i] == "(":
            depth -= 1
            if depth == 0:
                end = i
                break
        i -= 1
    q = d[:end] if end else d
    return q


class Ctx:
    def __init__(self, prop="x"):
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="cgmf-%s-" % prop)
        self._bc = {}
        self._mods = {}
        self._sums = {}
        self._syms = {}
        self.analysed = set()
        self.sources = []

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    @property
    def baseline(self):
        if not hasattr(self, "_base"):
            self._base = set(l.strip() for l in open(BASE) if l.strip())
        return self._base

    def bc(self, mpi=False):
        if mpi not in self._bc:
            defs = []
            if mpi:
                defs = ["-DMPIRUN", "-I" + mpi_include()]
            b, srcs = ir.build_bitcode(self.work, defs)
            self._bc[mpi] = b
            self.sources = srcs
        return self._bc[mpi]

    def raw(self, mpi=False):
        k = ("raw", mpi)
        if k not in self._mods:
            self._mods[k] = ir.dump(self.bc(mpi), self.work, name="raw%d" % mpi)
        return self._mods[k]

    def module(self, inline=(), mpi=False, keep_extra=(), unroll=True):
        """program with every function not in the baseline inlined, plus those whose qualified name
        is in `inline` (a set of names, or a predicate on ir.Fn)"""
        key = ("m", mpi, inline if callable(inline) else frozenset(inline), frozenset(keep_extra), unroll)
        if key in self._mods:
            return self._mods[key]
        raw = self.raw(mpi)
        keep = []
        for f in raw.fns.values():
            if not (f.repo and f.has_body):
                continue
            q = qual(f)
            inl = inline(f) if callable(inline) else (q in inline)
            if (q in self.baseline and not inl) or q in keep_extra:
                keep.append(f.name)
        self._mods[key] = ir.dump(self.bc(mpi), self.work, keep=keep, name="m%d" % len(self._mods), unroll=unroll)
        return self._mods[key]

    def summ(self, mod):
        if id(mod) not in self._sums:
            self._sums[id(mod)] = S.Summ(mod)
        return self._sums[id(mod)]

    def sym(self, mod, fn, **kw):
        if isinstance(fn, str):
            fn = self.fn(mod, fn)
        k = (id(mod), fn.name, repr(sorted(kw.items())))
        if k not in self._syms:
            self._syms[k] = sym.FnSym(fn, self.summ(mod), **kw)
            self.analysed.add(fn.dem)
        return self._syms[k]

    def fn(self, mod, q, nargs=None, required=True):
        c = [f for f in mod.fns.values() if f.has_body and f.repo and qual(f) == q]
        if nargs is not None:
            c = [f for f in c if len(f.args) == nargs]
        if not c:
            if required:
                raise AnalysisBroken("function %s not found" % q)
            return None
        # prefer complete-object variants
        return sorted(c, key=lambda f: f.name)[0]

    def fns(self, mod, q):
        return sorted([f for f in mod.fns.values() if f.has_body and f.repo and qual(f) == q], key=lambda f: f.name)


def mpi_include():
    for p in ("/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/include/x86_64-linux-gnu/mpi", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"):
        if os.path.exists(os.path.join(p, "mpi.h")):
            return p
    raise AnalysisBroken("no mpi.h")
