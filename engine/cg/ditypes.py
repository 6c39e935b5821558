"""Debug-info type strings: sizes, and byte offset -> member/index path."""
from . import term as T
from .term import Poly, P, ZERO
from fractions import Fraction
import re

SC = {"double": 8, "int": 4, "unsigned int": 4, "bool": 1, "char": 1, "float": 4, "long": 8, "unsigned long": 8,
      "short": 2, "long long": 8, "unsigned long long": 8, "unsigned char": 1, "signed char": 1, "unsigned short": 2,
      "long int": 8, "long unsigned int": 8, "long double": 16}


class Types:
    def __init__(self, mod):
        self.mod = mod
        self.rec = mod.records
        self._sz = {}

    @staticmethod
    def split(ty):
        """-> ('ptr', inner) | ('arr', n, elem) | ('leaf', name)"""
        if ty is None:
            return ("leaf", None)
        if ty.endswith("*") or ty.endswith("&"):
            return ("ptr", ty[:-1])
        if ty.endswith("]"):
            m = re.match(r"^(.*?)((?:\[-?\d+\])+)$", ty)
            dims = re.findall(r"\[(-?\d+)\]", m.group(2))
            rest = "".join("[%s]" % d for d in dims[1:])
            return ("arr", int(dims[0]), m.group(1) + rest)
        return ("leaf", ty)

    def size(self, ty):
        if ty in self._sz:
            return self._sz[ty]
        k = self.split(ty)
        if k[0] == "ptr":
            r = 8
        elif k[0] == "arr":
            e = self.size(k[2])
            r = None if e is None else e * k[1]
        elif ty in SC:
            r = SC[ty]
        elif ty in self.rec:
            r = self.rec[ty]["size"]
        else:
            r = None
            for pre in ("class.", "struct.", "class.std::", "struct.std::"):
                s = self.mod.structs.get(pre + str(ty))
                if s:
                    r = s["size"]
                    break
            if r is None and ty and ty.startswith("basic_string<char"):
                r = 32
            if r is None and ty and ty.startswith("complex<double"):
                r = 16
        self._sz[ty] = r
        return r

    def isrec(self, ty):
        return ty in self.rec

    def members(self, rec):
        return self.rec[rec]["members"]

    def pointee(self, ty):
        k = self.split(ty)
        return k[1] if k[0] == "ptr" else None

    # ------------------------------------------------------------------ paths
    def path(self, ty, off, size, indexed, fld=None):
        if fld is not None and fld != off:
            r = self._path(ty, off, size, indexed, fld)
            if not any(c[0] == "o" for c in r[0]):
                return r
        return self._path(ty, off, size, indexed, None)

    def _path(self, ty, off, size, indexed, fld):
        """components of the access at byte offset `off` (Poly) of an object of type ty.
        indexed: base is a pointer, so an array of ty of unknown length.
        component: ('f', record, member) | ('i', Poly) | ('o', Poly)
        fld: offset of the member last selected (decides which array a variable index belongs to)
        returns (components, leaf type or None)"""
        at = False
        comps = []
        if ty is None:
            return ((("o", off),) if True else ()), None
        if indexed:
            ty = ty + "[-1]" if not ty.endswith("]") else self._arrof(ty)
        steps = 0
        while True:
            steps += 1
            if steps > 24:
                comps.append(("o", off))
                return tuple(comps), None
            k = self.split(ty)
            if k[0] == "arr":
                es = self.size(k[2])
                if not es:
                    comps.append(("o", off))
                    return tuple(comps), None
                if not off.t and size is not None and k[1] > 0 and size == es * k[1] and size not in (1, 4, 8):
                    return tuple(comps), ty
                idx = {}
                rem = {}
                if at and fld is not None and not fld.t:
                    fld = None
                fq = fld.c0() // es if fld is not None else None
                if fq is not None:
                    if fq and () not in off.t:
                        off = Poly({**off.t, (): Fraction(0)})
                    fld = fld - P(fq * es)
                for m, c in off.t.items():
                    if m == ():
                        q = c // es if fq is None else fq
                        if q:
                            idx[m] = Fraction(q)
                        if c - q * es:
                            rem[m] = c - q * es
                    elif (c / es).denominator == 1:
                        idx[m] = c / es
                    else:
                        q = (c // es)
                        if abs(c) < es:
                            rem[m] = c
                        else:
                            idx[m] = Fraction(q)
                            rem[m] = c - q * es
                comps.append(("i", Poly(idx)))
                if fld is not None:
                    fld = P(fld.c0())
                off = Poly(rem)
                ty = k[2]
                continue
            if k[0] == "leaf" and ty in self.rec:
                r = self.rec[ty]
                if not off.t and size is not None and size == r["size"] and size > 8:
                    return tuple(comps), ty
                c0 = off.c0()
                v = off - P(c0)
                pick = None
                f0 = c0 if fld is None else fld.c0()
                for m in r["members"]:
                    if m["off"] <= f0 < m["off"] + m["size"]:
                        pick = m
                        if v.t and not self._indexable(m["type"]):
                            pick = None
                            continue
                        break
                if pick is None and v.t:
                    # constant part fell outside the array member (a[i-1]): nearest array member above
                    best = None
                    for m in r["members"]:
                        if self._indexable(m["type"]):
                            es = self._elemsize(m["type"])
                            d = abs(m["off"] - c0)
                            if (c0 - m["off"]) % 1 == 0 and es and ((c0 - m["off"]) / es).denominator == 1:
                                if best is None or d < best[0]:
                                    best = (d, m)
                    if best:
                        pick = best[1]
                if pick is None:
                    comps.append(("o", off))
                    return tuple(comps), None
                if pick["name"] != "<base>":
                    comps.append(("f", ty, pick["name"]))
                off = off - P(pick["off"])
                if fld is not None:
                    fld = fld - P(pick["off"])
                    at = True
                ty = pick["type"]
                continue
            # scalar, pointer or foreign class
            if off.t:
                comps.append(("o", off))
                return tuple(comps), None
            return tuple(comps), ty

    def _arrof(self, ty):
        m = re.match(r"^(.*?)((?:\[-?\d+\])+)$", ty)
        return m.group(1) + "[-1]" + m.group(2)

    def _indexable(self, ty):
        k = self.split(ty)
        if k[0] == "arr":
            return True
        if k[0] == "leaf" and ty in self.rec:
            return any(self._indexable(m["type"]) for m in self.rec[ty]["members"])
        return False

    def _elemsize(self, ty):
        k = self.split(ty)
        if k[0] == "arr":
            return self.size(k[2])
        return None


def compare(pa, pb, sa=8, sb=8):
    """'must' | 'no' | 'may' | ('if', [Poly...])  for two component tuples under one base"""
    eqs = []
    n = min(len(pa), len(pb))
    for k in range(n):
        a = pa[k]; b = pb[k]
        if a[0] == "f" and b[0] == "f":
            if a[1] == b[1]:
                if a[2] != b[2]:
                    return "no"
                continue
            return "no"     # a base-class member and a derived-class member of one object
        if a[0] == "i" and b[0] == "i":
            d = a[1] - b[1]
            c = d.const()
            if c is not None:
                if c != 0:
                    return "no"
                continue
            eqs.append(d)
            continue
        if a[0] == "o" and b[0] == "o":
            d = a[1] - b[1]
            c = d.const()
            if c is not None:
                if c == 0:
                    continue
                if c >= sb or -c >= sa:
                    return "no"
                return "may"
            eqs.append(d)
            continue
        return "may"
    if len(pa) != len(pb):
        return "may"
    if not eqs:
        return "must"
    return ("if", eqs)
