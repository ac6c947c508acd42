import sys,time,signal,collections
from facts import facts
from engine import *
p=Program(facts('all'))
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
unk=collections.Counter()
for b in list(p.bodies.values()):
    if b['kind']!='fn' or '::tests' in b['id'] or b.get('derived'): continue
    e=Engine(p); t=time.time(); r='';
    signal.alarm(20)
    try:
        rs=e.run(b); r='rets=%d'%len(rs)
    except TO: r='TIMEOUT'
    except RecursionError as x: r='RECURSION'
    except Exception as x:
        import traceback
        r='EXC '+repr(x)[:100]+' '+traceback.format_exc().split('\n')[-4].strip()
    signal.alarm(0)
    for u in e.unknown: unk[str(u)[:150]]+=1
    print('%-70s %s panics=%d loops=%d steps=%d unk=%d notes=%d %.1fs'%(b['id'][-70:],r,len(e.panics),len(e.loops),e.steps,len(e.unknown),len(e.notes),time.time()-t),flush=True)
print('---')
for u,c in unk.most_common(120): print(c,u)
