import re,os,json,random
SRC='/repo/src'
KINDS='Terminator Eol CollapsibleStart CollapsibleEnd LeftSquareBracket RightSquareBracket LeftParenthesis RightParenthesis Underscore Pipe LeftCurlyBrace RightCurlyBrace Tilde Star Space Minus Hash GreaterThan Bang Backtick Plus Literal'.split()
out=[]
def add(f,s,e,new,op): out.append(dict(f=f,s=s,e=e,new=new,op=op))
for d,_,fs in os.walk(SRC):
    for fn in sorted(fs):
        if not fn.endswith('.rs'): continue
        p=os.path.join(d,fn); f=os.path.relpath(p,'/repo'); t=open(p).read()
        m=re.search(r'^#\[cfg\(test\)\]',t,re.M); end=m.start() if m else len(t)
        # for document.rs w/ two cfg(test), take first "mod test"
        m=re.search(r'^#\[cfg\(test\)\]\s*\nmod',t,re.M); end=m.start() if m else end
        # mask comments and attributes
        live=bytearray(b'\1'*len(t))
        for m in re.finditer(r'//[^\n]*|^\s*#!?\[[^\n]*\]|^use [^;]*;|^\s*(pub )?(mod|enum|struct) [^\n]*',t,re.M):
            for i in range(m.start(),m.end()): live[i]=0
        strs=[(m.start(),m.end()) for m in re.finditer(r'b?"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'',t)]
        ins=bytearray(len(t))
        for a,b in strs:
            for i in range(a,b): ins[i]=1
        def ok(i,st=False): return i<end and live[i] and (st or not ins[i])
        subs=[(r' == ',[' != ']),(r' != ',[' == ']),(r' < ',[' <= ',' > ']),(r' > ',[' >= ',' < ']),(r' <= ',[' < ',' >= ']),(r' >= ',[' > ',' <= ']),
              (r' \+ ',[' - ']),(r' - ',[' + ']),(r' && ',[' || ']),(r' \|\| ',[' && ']),(r' \+= ',[' -= ']),(r' -= ',[' += ']),
              (r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'\.is_some\b',['.is_none']),(r'\.is_none\b',['.is_some']),(r'\.is_ok\b',['.is_err']),
              (r'\.any\(',['.all(']),(r'\.all\(',['.any(']),(r'\.first\(',['.last(']),(r'\.last\(',['.first(']),(r'\.max\(',['.min(']),(r'\.min\(',['.max(']),
              (r'\.starts_with\(',['.ends_with(','.contains(']),(r'\.trim_matches\(',['.trim_start_matches(','.trim_end_matches(']),(r'\.trim_end_matches\(',['.trim_matches(']),
              (r'\.trim_start_matches\(',['.trim_matches(']),(r'\.strip_prefix\(',['.strip_suffix(']),(r'!(?=[a-z(])(?<![a-z_]!)',['']),
              (r'\.insert\(',['.push(']),(r'\.is_empty\(\)',['.is_empty() == false']),(r'\bcontinue\b',['break']),(r'\bbreak\b',['continue'])]
        for pat,news in subs:
            for m in re.finditer(pat,t):
                if ok(m.start()):
                    for n in news: add(f,m.start(),m.end(),n,'sub')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',t):
            if ok(m.start()):
                v=int(m.group(1))
                add(f,m.start(),m.end(),str(v+1),'int')
                if v>0: add(f,m.start(),m.end(),str(v-1),'int')
        for m in re.finditer(r'TokenKind::(\w+)',t):
            if ok(m.start()) and m.group(1) in KINDS:
                for k in random.Random(m.start()).sample([k for k in KINDS if k!=m.group(1)],2): add(f,m.start(),m.end(),'TokenKind::'+k,'kind')
        for m in re.finditer(r'\n[ \t]*\.replace\((?:[^()"\']|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\')*\)',t):
            if ok(m.start()): add(f,m.start(),m.end(),'','unreplace')
        for m in re.finditer(r'^([ \t]+)((?!let |use |return|pub |\}|\)|[A-Z]).[^\n]*;)\n',t,re.M):
            if ok(m.start(2)): add(f,m.start(2),m.end(2),'','delstmt')
        for m in re.finditer(r'\bif (?!let )([^{\n]+) \{',t):
            if ok(m.start()):
                add(f,m.start(),m.end(),'if (%s) || true {'%m.group(1),'iftrue'); add(f,m.start(),m.end(),'if (%s) && false {'%m.group(1),'iffalse')
        for a,b in strs:
            s=t[a:b]
            if ok(a,True) and s.startswith('"') and len(s)>2:
                add(f,a,b,'"'+s[1:-1]+' "','str'); 
                if len(s)>3: add(f,a,b,'"'+re.sub(r'^(\\.|.)','',s[1:-1])+'"','str'); add(f,a,b,'"'+re.sub(r'(\\.|[^\\])$','',s[1:-1])+'"','str')
            elif ok(a,True) and s.startswith("'"):
                add(f,a,b,"'x'",'chr')
        for m in re.finditer(r'^([ \t]+)([^\n=]*?\S) =>',t,re.M):
            if ok(m.start(2)) and ' if ' not in m.group(2) and '|' in m.group(2):
                alts=m.group(2).split(' | ')
                for i in range(len(alts)):
                    add(f,m.start(2),m.end(2),' | '.join(alts[:i]+alts[i+1:]),'alt')
seen=set(); res=[]
for m in out:
    k=(m['f'],m['s'],m['e'],m['new'])
    if k not in seen: seen.add(k); res.append(m)
json.dump(res,open('/tmp/mut/muts.json','w'))
from collections import Counter
print(len(res),Counter(m['op'] for m in res),Counter(m['f'] for m in res).most_common(8))
