import json
rs={}
for l in open('/tmp/mut/chk.jsonl'):
    r=json.loads(l); rs[r['i']]=r
T={}
ms={json.loads(l)['i']:json.loads(l) for l in open('/tmp/mut/res.jsonl')}
n=0
for i,r in sorted(rs.items(),key=lambda x:(ms[x[0]]['f'],ms[x[0]]['s'])):
    if r['hit']: n+=1; continue
    m=ms[i]; t=T.setdefault(m['f'],open('/repo/'+m['f']).read())
    ln=t.count('\n',0,m['s'])+1; a=t.rfind('\n',0,m['s'])+1; b=t.find('\n',m['e'])
    print(i,m['f'],ln,m['op'],repr(t[m['s']:m['e']])[:50],'=>',repr(m['new'])[:50],'| und',r['nund'],'rc',r['rc'],'|',t[a:b].strip().split('\n')[0][:80])
print(n,'caught of',len(rs))
