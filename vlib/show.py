import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import facts as F
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='d': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='ci': s+='[%s%d]'%('-' if e[3] else '',e[1])
        elif e[0]=='sub': s+='[%d..%d]'%(e[1],e[2])
        elif e[0]=='v': s+=' as v%d'%e[1]
    return s
def op(o):
    if o[0] in 'cm': return ('move ' if o[0]=='m' else '')+pl(o[1])
    if o[0]=='k':
        k=o[1]
        if 'fn' in k: return 'fn '+(k['fn'].get('rk') or k['fn']['d'])+('' if k['fn'].get('body') else ' [nobody]')
        if 'v' in k:
            v=k['v']
            for q in ('i','b','f','str','static'):
                if q in v: return repr(v[q])
            return 'const(%s)'%({x:y for x,y in v.items() if x!='t'})+(k.get('promoted',''))
        return 'const?'+str(k)
    return str(o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k in('ref','raw','reborrow'): return '&%s%s%s'%('raw ' if k=='raw' else '','mut ' if r[1] else '',pl(r[2]))
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='cast': return '%s as t%s (%s)'%(op(r[2]),r[3],r[1])
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='agg': return '%s{%s}'%(r[1],', '.join(map(op,r[2])))
    return str(r)
def show(f,b):
    print('==',b['key'],b['span'],'argc',b['argc'])
    for i,(t,nm) in enumerate(b['locals']): print('   _%d: %s %s'%(i,f.ts(t),nm or ''))
    for i,(st,term,cl) in enumerate(b['blocks']):
        print(' bb%d%s:'%(i,' (cleanup)' if cl else ''))
        for x in st:
            if x[0]=='=': print('    %s = %s'%(pl(x[1]),rv(x[2])))
            elif x[0]!='dead': print('    ',x)
        t=term
        if t[0]=='call': print('    %s = CALL %s(%s) -> %s unwind %s'%(pl(t[3]),op(t[1]),', '.join(map(op,t[2])),t[4],t[5]))
        elif t[0]=='switch': print('    switch %s %s else %s'%(op(t[1]),t[2],t[3]))
        elif t[0]=='drop': print('    drop %s -> %s unwind %s needs=%s'%(pl(t[1]),t[2],t[3],t[5]))
        elif t[0]=='assert': print('    assert %s==%s %s -> %s'%(op(t[1]),t[2],t[3][0],t[4]))
        else: print('    ',t)
if __name__=='__main__':
    fs=F.extract()
    for c,f in fs.items():
        for k,b in f.bodies.items():
            if sys.argv[1] in k: show(f,b)
