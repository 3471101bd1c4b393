import json,os,shutil,subprocess,sys,signal
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
N=int(sys.argv[1]); muts=json.load(open('/tmp/mut/muts.json'))
Q=Queue()
env=dict(os.environ,PROPTEST_RNG_SEED='20240101',PROPTEST_DISABLE_FAILURE_PERSISTENCE='1',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1')
for l in open('/opt/vp/env.sh'):
    pass
for i in range(N):
    d='/tmp/mut/w%d'%i
    if not os.path.exists(d): subprocess.run(['cp','-a','/repo',d])
    Q.put(d)
done={}
if os.path.exists('/tmp/mut/res.jsonl'):
    for l in open('/tmp/mut/res.jsonl'):
        r=json.loads(l); done[r['i']]=r
log=open('/tmp/mut/res.jsonl','a')
def sh(cmd,d,to):
    p=subprocess.Popen(cmd,shell=True,cwd=d,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True,text=True)
    try: o,_=p.communicate(timeout=to); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.communicate(); return 'timeout',''
def one(i):
    if i in done: return
    m=muts[i]; d=Q.get()
    p=os.path.join(d,m['f']); t=open(p).read()
    try:
        open(p,'w').write(t[:m['s']]+m['new']+t[m['e']:])
        r,o=sh('ulimit -v 8000000; cargo test --offline --all-features --lib --tests -- --test-threads 4',d,90)
        st='survived' if r==0 else 'nocompile' if r!='timeout' and 'could not compile' in o else 'killed'
        log.write(json.dumps(dict(i=i,st=st,**m))+'\n'); log.flush()
    finally:
        open(p,'w').write(t); Q.put(d)
import random
idx=list(range(len(muts))); random.Random(1).shuffle(idx)
with ThreadPoolExecutor(N) as ex: list(ex.map(one,idx))
