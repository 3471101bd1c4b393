import json,os,shutil,subprocess,sys,time
from concurrent.futures import ThreadPoolExecutor
OUT='/tmp/mut/chk.jsonl'
done=set()
if os.path.exists(OUT): done={json.loads(l)['i'] for l in open(OUT)}
def props(f):
    if f.startswith('src/lexer'): return 'P06,P07,P16,P02'
    if f.startswith('src/nodes'): return 'P13,P14,P15,P17'
    if f.endswith('to_yamd.rs'): return 'P11,P12,P15'
    if f=='src/op/mod.rs': return 'P02,P03,P04,P05,P09,P10,P11,P15'
    return 'P02,P03,P04,P05,P09,P10,P18'
T={}
def one(r):
    d='/tmp/mut/c%d'%r['i']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copytree('/repo/src',d+'/src'); shutil.copy('/repo/Cargo.toml',d)
    p=os.path.join(d,r['f']); t=open('/repo/'+r['f']).read()
    open(p,'w').write(t[:r['s']]+r['new']+t[r['e']:])
    x=subprocess.run([sys.executable,'/verif/check.py',props(r['f']),'--repo',d],capture_output=True,text=True)
    hit=sorted({l.split('property=')[1].split()[0] for l in x.stdout.splitlines() if l.startswith('VIOLATION')})
    und=[l[:200] for l in x.stdout.splitlines() if l.startswith('UNDECIDED')]
    with open(OUT,'a') as f: f.write(json.dumps(dict(i=r['i'],hit=hit,und=und[:3],nund=len(und),rc=x.returncode,err=x.stderr[-300:] if x.returncode not in (0,1) else ''))+'\n')
    shutil.rmtree(d)
W=int(sys.argv[1])
sel=set(map(int,sys.argv[2:]))
rs=[json.loads(l) for l in open('/tmp/mut/res.jsonl')]
rs=[r for r in rs if r['st']=='survived' and (r['i'] in sel if sel else r['i'] not in done)]
print(len(rs))
with ThreadPoolExecutor(W) as ex: list(ex.map(one,rs))
