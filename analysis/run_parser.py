import sys, time
sys.setrecursionlimit(10000)
import mir, engine, models, parser_client
def main(path):
    t=time.time()
    P=mir.Prog(path)
    C=parser_client.ParserClient(P)
    E=engine.Engine(P,C)
    import os
    E.dbg=os.environ.get('DUMP')
    str_models(E,C)
    root=P.by_path['yamd::op::parse']
    st=engine.State()
    st.z=st.z.add(0,parser_client.NSYM,0)
    res=E.exec_body(root,[("s",("src",))],st,1)
    print('time',time.time()-t, 'states',E.stats['states'],'joins',E.stats['joins'])
    for s,v in res: print('RET', v, sorted(s.taint))
    return E,C,res
def str_models(E,C):
    import parser_models; parser_models.install(E,C)
if __name__=='__main__':
    E,C,res=main(sys.argv[1] if len(sys.argv)>1 else '/tmp/mirout/yamd.json')
    for k,f in E.findings.items(): print(k, f['what'], 'TAINT' if f['tainted'] else '', f['chain'], f['taint'][:3], f['span'])
    print(E.stats['unmodelled'])
    for n,r in sorted(C.closes.items()):
        print(n, sorted(x.rsplit('::',1)[-1] for x in r['fns']), [C.nname(i) for i in range(64) if r['ch']>>i&1], r['seqs'] and [tuple(C.nname(i) for i in q) for q in r['seqs']])
        for k in ('start','end'):
            for c,ts in r[k].items(): print('    ',k,c, ts if ts is True else [[C.cls.show(m) for m in t] for t in ts])
    for k,m in C.values.items(): print("VAL",k,C.cls.show(m)[:300])
    print(C.edges)
