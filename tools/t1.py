import sys,glob,os,time,importlib
sys.path[:0]=['/verif/wvc','/verif/wvc/contracts']
import ir,engine,loops,term
def load(d): return ir.Program({os.path.basename(x)[:-3]:x for x in glob.glob(d+'/*.ll')})
if __name__=='__main__':
    d=os.environ.get('WVC_LL','/tmp/w/b'); P=load(d)
    mods=sys.argv[1].split(','); want=sys.argv[2:]
    C={}
    for m in mods:
        for c in importlib.import_module(m).CONTRACTS: C[c.name]=c
    for n in want or list(C):
        full=n; n=n.split('#')[0]
        c=C[n]; t=time.time()
        E=engine.Eng(P,{k:v for k,v in C.items() if k!=n} if True else C)
        if '#' in full: E.only=int(full.split('#')[1])
        ap='/verif/wvc/inv/%s.json'%full
        if os.environ.get('WVC_ANN') and os.path.exists(ap):
            import json; E.annot=json.load(open(ap)); E.trust=True
        f=P.func(c.name if not hasattr(c,'fname') else c.fname) or [m.funcs[c.name] for m in P.mods.values() if c.name in m.funcs][0]
        if os.environ.get('WVC_FORCE'): E.trust=True
        q0=term.STATS['queries'];
        try:
            r=E.verify(c,f)
            bad=[o for o in E.obligs if o.status!='ok']
            print(n,'rets',len(r),'obl',len(E.obligs),'bad',len(bad),'paths',E.npaths,'t %.1f'%(time.time()-t),'q',term.STATS['queries']-q0)
            if os.environ.get('WVC_SLOW'):
                for o in sorted(E.obligs,key=lambda o:-o.time)[:int(os.environ['WVC_SLOW'])]: print('   slow %.1f'%o.time,o.func,o.kind,o.line,o.desc)
            for o in bad[:12]: print('    ',o.status,o.func,o.kind,o.line,o.desc, (o.model or '')[:300])
            if os.environ.get('WVC_SAVE') and not bad and E.annot_new:
                import json; json.dump(E.annot_new, open(ap,"w"), indent=0, sort_keys=True)
        except engine.Unsupported as e:
            print(n,'UNSUPPORTED',e,'t %.1f'%(time.time()-t))
            if os.environ.get('TB'): raise
    print({k:v for k,v in term.STATS.items() if k not in('slow','bytag')}); print(sorted([(round(v[1],1),v[0],k) for k,v in term.STATS.get('bytag',{}).items()],reverse=True)[:14])
