"""Shared by C19/C20: what the end-of-run summary prints, in terms of per-event quantities."""
import re
from props.lib import *
from props.stream import Node, nodes, compare_streams, fmt
from props.c08 import getter, invariants

TEMPLATE_HEAD = "\n\n //// CGMF Results ////\n\n"


def acc(p):
    """accumulated total of a per-event quantity (linear)"""
    r = ZERO
    for m, c in P(p).t.items():
        if m == ():
            r = r + T.var("count") * P(c)
        else:
            r = r + T.var("acc", Poly({m: 1})) * P(c)
    return r


def globals_stored(F):
    out = {}
    for e in F.effects:
        if e.kind == "store" and e.loc.base[0] == "g" and e.pc != T.FALSE:
            out.setdefault((e.loc.base, e.loc.comps), (e.ptr, e.size))
    return out


def accumulators(ctx, m, rep):
    """global -> total over events, as a term over acc(per-event quantity); from recordEvent"""
    F = ctx.sym(m, "recordEvent")
    ev = F.vals[0]
    inv = invariants(F, ev)
    mem = final(F)
    post = {}
    for (b, c), (p, sz) in globals_stored(F).items():
        v = F.load(mem, p, sz)
        if isinstance(v, Poly):
            post[(b, c)] = lin.simp(v, inv)
    pre = {k: Poly({((T.atom("ld", k[0], k[1], 0), 1),): 1}) for k in post}
    atoms = {v.single() for v in pre.values()}
    tot = {}
    back = {}
    for k, v in post.items():
        d = v - pre[k]
        if not (T.deep_atoms(d) & atoms):
            tot[k] = acc(d)
            back[pre[k].single()] = T.var("POST", k) - d
    for k, v in post.items():
        if k in tot:
            continue
        w = T.dsubst(v, back)
        mp = {}
        for a in w.atoms():
            t = T.atom_of(a)
            if t[0] == "POST":
                mp[a] = tot[t[1]]
        w2 = T.subst(w, mp)
        if any(T.atom_of(a)[0] not in ("acc", "count") for a in w2.atoms()):
            rep.undecided("accumulate:%s" % F.mod.globals[k[0][1]].get("name"), "update is %s" % show(v))
            continue
        tot[k] = w2
    # initial values must be zero
    for k in tot:
        g = F.mod.globals[k[0][1]]
        init = g.get("init")
        z = init in (["z"], None) or (isinstance(init, list) and init[:1] in (["i"], ["f"]) and F.val(init, None) == ZERO)
        if not z:
            rep.bad("initial:%s" % g.get("name"), "global", "running total %s does not start at zero" % g.get("name"))
    return F, tot


def spec(F, ev):
    """totals a summary must report, over per-event quantities"""
    inv = invariants(F, ev)
    g = lambda n: acc(getter(F, ev, n))
    n1 = getter(F, ev, "getLightFragmentNeutronNu"); n2 = getter(F, ev, "getHeavyFragmentNeutronNu")
    q1 = getter(F, ev, "getLightFragmentPhotonNu"); q2 = getter(F, ev, "getHeavyFragmentPhotonNu")
    npf = getter(F, ev, "getPreFissionNeutronNu")

    def s(n, cnt, off=ZERO):
        bv = T.var("bv", 0)
        return acc(lin.simp(T.var("sum", cnt, getter(F, ev, n, bv + off)), inv))
    d = {}
    for side, t in (("Light", "LF"), ("Heavy", "HF")):
        for k, n in (("Z", "Charge"), ("A", "Mass"), ("KE", "KineticEnergy"), ("XE", "ExcitationEnergy"), ("J", "Spin"), ("Nu", "NeutronNu"), ("Nug", "PhotonNu")):
            d[k + t] = g("get%sFragment%s" % (side, n))
    d["TKE"] = d["KELF"] + d["KEHF"]; d["TXE"] = d["XELF"] + d["XEHF"]
    d["J"] = T.div(d["JLF"] + d["JHF"], P(2))
    d["NuPre"] = g("getPreFissionNeutronNu")
    d["NuTot"] = d["NuLF"] + d["NuHF"] + d["NuPre"]
    d["EcmLF"] = s("getCmNeutronEnergy", n1); d["EcmHF"] = s("getCmNeutronEnergy", n2, n1)
    d["ElabLF"] = s("getNeutronEnergy", n1); d["ElabHF"] = s("getNeutronEnergy", n2, n1)
    d["EnPre"] = s("getPreFissionNeutronEnergy", npf)
    d["Ecm"] = d["EcmLF"] + d["EcmHF"] + d["EnPre"]; d["Elab"] = d["ElabLF"] + d["ElabHF"] + d["EnPre"]
    d["NugTot"] = d["NugLF"] + d["NugHF"]
    d["EgLF"] = s("getPhotonEnergy", q1); d["EgHF"] = s("getPhotonEnergy", q2, q1)
    d["Eg"] = d["EgLF"] + d["EgHF"]
    return d


def layout(d, n, guard, za, en, enev):
    mx = lambda x: T.ite(T.ilt0(x - ONE), ONE, x)
    q = lambda k: T.div(d[k], n)
    a = lambda k, c: T.div(d[k], mx(d[c]))
    Zt = T.fn("toint", T.div(za, P(1000)))
    At = T.fn("toint", za - P(1000) * Zt)
    sf = T.eq0(en)
    G = lambda c, s, *ar: Node(T.bdd_and(guard, c), fmt(s, list(ar)))
    return [
        G(T.TRUE, "\n\n //// CGMF Results ////\n\n"),
        G(sf, "Reaction: spontaneous fission of (%2i,%3i)\n\n", Zt, At),
        G(T.bdd_not(sf), "Reaction: (n,f) on (%2i,%3i) at En=%7.2e MeV\n\n", Zt, At, enev),
        G(T.TRUE, "Average Light Fragment (Z,A) = (%.2f,%.2f)\n", q("ZLF"), q("ALF")),
        G(T.TRUE, "Average Heavy Fragment (Z,A) = (%.2f,%.2f)\n\n", q("ZHF"), q("AHF")),
        G(T.TRUE, "Average Kinetic Energies: LF = %.2f MeV ; HF = %.2f MeV ; <TKE> = %.2f MeV\n", q("KELF"), q("KEHF"), q("TKE")),
        G(T.TRUE, "Average Excitation Energies: LF = %.2f MeV ; HF = %.2f MeV ; <TXE> = %.2f MeV\n\n", q("XELF"), q("XEHF"), q("TXE")),
        G(T.TRUE, "Average Fragment Spins: <J>_LF = %.2f hbar ; <J>_HF = %.2f hbar ; <J> = %.2f hbar\n", q("JLF"), q("JHF"), q("J")),
        G(T.TRUE, "\n*** Prompt Fission Neutrons ***\n\n"),
        G(T.TRUE, "Multiplicities (n/f):  <nu>_LF = %.2f ; <nu>_HF = %.2f ; <nu>_prefission = %.2f ; <nu>_tot = %.2f \n", q("NuLF"), q("NuHF"), q("NuPre"), q("NuTot")),
        G(T.TRUE, "c-o-m Energies:  <Ecm>_LF = %.2f MeV ; <Ecm>_HF = %.2f MeV ; <Ecm>_prefission = %.2f MeV ; <Ecm>_tot = %.2f MeV\n",
          a("EcmLF", "NuLF"), a("EcmHF", "NuHF"), a("EnPre", "NuPre"), a("Ecm", "NuTot")),
        G(T.TRUE, "Lab. Energies:   <Elab>_LF = %.2f MeV ; <Elab>_HF = %.2f MeV ; <Elab>_prefission = %.2f MeV ; <Elab>_tot = %.2f MeV\n",
          a("ElabLF", "NuLF"), a("ElabHF", "NuHF"), a("EnPre", "NuPre"), a("Elab", "NuTot")),
        G(T.TRUE, "\n*** Prompt Fission Gammas ***\n\n"),
        G(T.TRUE, "Multiplicities (g/f):  <nu_g>_LF = %.2f ; <nu_g>_HF = %.2f ; <nu_g>_tot = %.2f \n", q("NugLF"), q("NugHF"), q("NugTot")),
        G(T.TRUE, "Gamma Energies:   <Eg>_LF = %.2f MeV ; <Eg>_HF = %.2f MeV ; <Eg>_tot = %.2f MeV\n", a("EgLF", "NugLF"), a("EgHF", "NugHF"), a("Eg", "NugTot")),
        G(T.TRUE, "\n\n //// THE END ////\n\n"),
    ]


def subst_nodes(ns, mp):
    out = []
    for n in ns:
        g = T.dsubst(Bd(n.guard), mp).n
        if n.pieces is not None:
            out.append(Node(g, [(p[0], p[1], T.dsubst(p[2], mp)) if p[0] == "c" else p for p in n.pieces], where=n.where))
        else:
            out.append(Node(g, trip=T.dsubst(n.trip, mp), iv=n.iv, body=subst_nodes(n.body, mp), where=n.where))
    return out
