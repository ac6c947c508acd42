"""MIR pretty printer (development aid)."""
import sys
from facts import facts
def pl(p):
    s="_%d"%p['l']
    for e in p['p']:
        k=e[0]
        if k=='deref': s="(*%s)"%s
        elif k=='field': s="%s.%s"%(s,e[2])
        elif k=='variant': s="(%s as %s)"%(s,e[2])
        elif k=='index': s="%s[_%d]"%(s,e[1])
        else: s="%s%s"%(s,e)
    return s
def op(o):
    if o['k'] in('copy','move'): return ('' if o['k']=='copy' else 'mv ')+pl(o['pl'])
    if o['k']=='const':
        if 'fn' in o: return fn(o['fn'])
        for k in('int','bool','str','bytes','promoted','zst','tyconst'):
            if k in o: return "%s:%s=%s%s"%(o['ty'],k,o[k],(' '+o.get('cpath','') ))
        return "const "+o['ty']+' '+str(o.get('cpath'))
    return str(o)
def fn(f):
    return "%s<%s>%s"%(f['path'],','.join(f['args']),(' => '+f['rpath']+'<'+','.join(f.get('rargs',[]))+'>') if 'rpath' in f else '')
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&'+('mut ' if r['mut'] else '')+pl(r['pl'])
    if k=='bin': return "%s(%s,%s)"%(r['op'],op(r['a']),op(r['b']))
    if k=='un': return "%s(%s)"%(r['op'],op(r['a']))
    if k=='cast': return "%s as %s [%s]"%(op(r['o']),r['ty'],r['ck'])
    if k=='agg': return "%s::%s(%s)"%(r.get('adt',r.get('closure',r['ak'])),r.get('variant',''),', '.join(map(op,r['ops'])))
    if k=='discr': return "discr(%s)"%pl(r['pl'])
    return str(r)
def show(b):
    print("==",b['id'],b['path'],b['kind'],b.get('generics'))
    for i,l in enumerate(b['locals']): print("  _%d: %s"%(i,l), [n for n,p in b['names'] if p['l']==i and not p['p']])
    for n,p in b['names']:
        if p['p']: print("  name",n,pl(p))
    for i,bb in enumerate(b['blocks']):
        if bb['cleanup']: continue
        print(" bb%d:"%i)
        for s in bb['s']:
            if s['k']=='assign': print("   ",pl(s['pl']),'=',rv(s['rv']))
            else: print("   ",s)
        t=bb['t'];k=t['k']
        if k=='call': print("    CALL",pl(t['dest']),'=',op(t['f']),'(',', '.join(map(op,t['args'])),') ->',t['t'],'L%d'%t['sp'][1])
        elif k=='switch': print("    SWITCH",op(t['o']),t['targets'],t['otherwise'])
        elif k=='assert': print("    ASSERT",op(t['o']),t['exp'],t['mk'],t['t'])
        else: print("   ",{x:y for x,y in t.items() if x!='sp'})
if __name__=='__main__':
    f=facts(sys.argv[2] if len(sys.argv)>2 else 'all')
    for b in f['bodies']:
        if sys.argv[1] in b['id'] or sys.argv[1] in b['path']: show(b)
