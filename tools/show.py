#!/usr/bin/env python3
"""show.py TRACE VERDICTS [n]: print the sessions with a bad verdict in readable form."""
import json,sys,re
def txt(a): return ''.join(map(chr,a))
def val(v):
    t=v['t']
    if t=='null': return None
    if t=='bool': return v['b']
    if t=='num':
        return '#%s%se%d'%('-' if v['neg'] else '',''.join(map(str,v['d'])) or '0',v['e'])
    if t=='str': return txt(v['s'])
    if t=='arr': return [val(x) for x in v['a']]
    if t=='obj': return {txt(k):val(x) for k,x in zip(v['k'],v['v'])}
    if t=='flat':
        st=[]
        for x in v['x']:
            n=x['n'] if t_(x)=='arr' else len(x['k']) if t_(x)=='obj' else 0
            kids=st[len(st)-n:] if n else []
            if n: del st[len(st)-n:]
            st.append(kids if t_(x)=='arr' else {txt(k):y for k,y in zip(x['k'],kids)} if t_(x)=='obj' else val(x))
        return st[0]
    return t
def t_(x): return x['t']
def show(o):
    r={k:x for k,x in o.items() if k not in('lines','v','id') and not (k=='msg' and not x)}
    print('  ',json.dumps(r,ensure_ascii=False)[:300])
    if 'v' in o and isinstance(o['v'],dict) and 't' in o['v']: print('     v =',json.dumps(val(o['v']),ensure_ascii=False))
    for l in o.get('lines',[]): print('     |'+repr(txt(l))[1:-1])
if __name__=='__main__':
    bad={}
    for l in open(sys.argv[2]):
        m=re.match(r'<<"V", (\d+), (\d+), "(\w+)", "bad", (\d+)>>',l)
        if m: bad.setdefault(int(m[1]),[]).append((int(m[2]),m[3],int(m[4])))
    n=int(sys.argv[3]) if len(sys.argv)>3 else 5
    for l in open(sys.argv[1]):
        s=json.loads(l)
        if s['id'] in bad and n>0:
            n-=1; print('session',s['id'],bad[s['id']])
            for o in s['obs']: show(o)
