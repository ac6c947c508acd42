import sys
from facts import facts
from engine import *
p=Program(facts('all'))
def show_run(name, self_head=None, **k):
    bs=[b for b in p.bodies.values() if b['kind']=='fn' and b.get('name')==name and (self_head is None or head(b.get('impl_self') or '').endswith(self_head))]
    for b in bs:
        e=Engine(p,**k)
        print("#####",b['id'])
        rs=e.run(b)
        for s,v in rs:
            print('RET',v)
            for f,x in s.facts.items():
                if isinstance(f,Term): print('     ',x,f)
        print('PANICS');
        for q in e.panics: print('   ',q.kind,q.ops,q.site)
        print('LOOPS')
        for l in e.loops.values():
            print('  ',l.uid, l.site)
            for v,d in l.vars.items():
                print('     ',v,'init',d['init'])
                for fs,nx in d['next']: print('        next',nx); print('           if',fs)
        print('steps',e.steps,'notes',e.notes,'unknown',e.unknown)
if __name__=='__main__':
    show_run(sys.argv[1], sys.argv[2] if len(sys.argv)>2 else None)
