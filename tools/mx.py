"""mx.py SPEC.py [NAME..]: apply each edit list to a copy and run check.py for the property"""
import sys, os, shutil, subprocess, runpy
spec=runpy.run_path(sys.argv[1])
names=sys.argv[2:]
for n,props,edits in spec['M']:
    if names and n not in names: continue
    d='/tmp/mxr'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copytree('/repo/src',d+'/src'); shutil.copy('/repo/Cargo.toml',d); shutil.copy('/repo/Cargo.lock',d)
    for f,o,w in edits:
        p=os.path.join(d,f); t=open(p).read()
        if o is None: t=t+w
        else:
            assert t.count(o)>=1,(n,f,o)
            t=t.replace(o,w,1)
        open(p,'w').write(t)
    r=subprocess.run([sys.executable,'/verif/check.py',props,'--repo',d],capture_output=True,text=True)
    print('###',n,'rc',r.returncode); print('\n'.join((r.stdout+r.stderr[-1500:]).splitlines()[-12:])[:3000])
    shutil.rmtree(d)
