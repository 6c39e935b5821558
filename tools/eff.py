import sys,time,os
sys.path.insert(0,'/verif/engine')
from cg import ir,summ,term as T,sym,ctx
C=ctx.Ctx('t')
try:
    t=time.time()
    raw=C.raw()
    if 'base' in sys.argv:
        names=sorted({ctx.qual(f) for f in raw.fns.values() if f.repo and f.has_body})
        open(ctx.BASE,'w').write("\n".join(names)+"\n"); print(len(names))
    inl=lambda f: False
    for a in sys.argv[1:]:
        if a.startswith('inl='): pat=a[4:]; import re; inl=(lambda f: re.search(pat,ctx.qual(f)) is not None)
    m=C.module(inl, mpi='mpi' in sys.argv)
    Sm=C.summ(m)
    print('built',time.time()-t)
    for q in [a[3:] for a in sys.argv if a.startswith('fn=')]:
      for f in C.fns(m,q):
        t=time.time()
        F=C.sym(m,f)
        print('=====',f.dem,time.time()-t, F.notes)
        for h,i in F.li.items(): print('  loop',h,'trip',i.trip is not None and T.show(i.trip),i.kind)
        for e in F.effects:
            w=e.inst.line
            pc=T.show_cond(e.pc)
            sh=lambda v:(T.show(v) if isinstance(v,T.Poly) else repr(v))
            if e.kind=='store': print(w,e.loops,'[',pc[:150],'] ', sym.show_path(e.loc.base,e.loc.comps),':=',sh(e.val)[:300])
            elif e.kind=='call': print(w,e.loops,'[',pc[:150],'] CALL',e.callee,[ sh(a)[:120] for a in e.args])
            elif e.kind=='ret': print(w,'RET',sh(e.val)[:300])
            else: print(w,e.kind,e.args)
finally: C.close()
