"""Dev aid: python3 tr.py FILES[:BACKEND] CLASS METHOD... prints abstract paths."""
import sys, pprint
import ir, interp, terms as T
def short(x, d=0):
    if isinstance(x, bytes): return repr(x)[1:]
    if isinstance(x,int): return str(x)
    if not isinstance(x, tuple): return str(x)
    if not x: return '()'
    k=x[0]
    if k=='+':
        return '('+'+'.join([str(x[1])]*(x[1]!=0)+[(('%d*'%c) if c!=1 else '')+short(a) for a,c in x[2]])+')'
    if k=='sym': return '%s#%d'%(x[1],x[2])
    if k=='v' and len(x)==4: return 'V[%s@%s]'%(short(x[1]),x[2])
    if k=='v': return 'loc%s.%s'%(x[1], x[2][1] if isinstance(x[2],tuple) and len(x[2])>1 else x[2])
    if k=='f': return short(x[1])+'.'+str(x[2])
    if k=='e': return short(x[1])+'['+short(x[2])+']'
    if k=='m': return short(x[1])+'{'+short(x[2])+'}'
    if k=='o': return '<'+str(x[1])+'>'
    if k=='d': return '*'+short(x[1])
    if k=='ptr': return '&'+short(x[1])
    if k=='h': return 'heap%d'%x[1]
    if k=='t': return 't%s'%x[1]
    if k=='clo': return 'clo<%s %s>'%(x[1].split('/')[-1][:40], ','.join(short(c[2]) for c in x[3]))
    if k=='seq': return 'seq('+', '.join(short(p) for p in x[1])+')'
    if k=='sl': return '%s[%s:+%s]'%(short(x[1]),short(x[2]),short(x[3]))
    if k=='lit': return repr(x[1])
    if k=='at': return 'at(%s,%s)'%(short(x[1]),short(x[2]))
    if k in ('le','eq'): return '%s%s0'%(short(x[1]),'<=' if k=='le' else '==')
    if k=='not': return '!'+short(x[1])
    return str(k)+'('+', '.join(short(y) for y in x[1:])+')'
def pos(p): return '%s:%d'%(p[0].split('/')[-1],p[1]) if p else '?'
def evs(evl, ind='    '):
    for e in evl:
        if e[0]=='loop':
            print(ind+'loop', pos(e[1]), 'K' , short(e[4]))
            for b in e[3]:
                print(ind+'  body:')
                evs(b, ind+'    ')
        else:
            print(ind+e[0], pos(e[1]), 'L%d'%len(e[2]), ' '.join(short(x) for x in e[3:]))
def facts(f):
    return [ '%s<=0'%short(T.mk(c,dict(d))) for c,d in f.cons]+[('' if v else '!')+short(k) for k,v in f.truth.items() if k[0] not in ('eq','le')]
def dump(rs, skip=('cset',)):
    for i,(st,v) in enumerate(rs):
        print('-- path',i,'ret',short(v) if not (isinstance(v,tuple) and v and v[0]=='L') else 'L:'+short(v[1]), 'locks',[short(l[0]) for l in st.locks], 'notes',sorted(st.notes))
        evs([e for e in st.events() if e[0] not in skip])
        print('    facts:', '; '.join(facts(st.facts)))
