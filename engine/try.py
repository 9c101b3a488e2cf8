import sys, json, time
sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(20000)
from execu import *
m=Module(sys.argv[1])
for f in sorted(m.funcs):
    if f.startswith('vcproof__') and (len(sys.argv)<3 or sys.argv[2] in f):
        e=Exec(m, dict(verbose=1, opaque=[r'^stingray::.*Exception::', r'StringBuilder', r'basic_string_ostream']))
        t=time.time()
        try:
            e.run(f)
        except EngineError as x:
            print('ENGINE', x)
        print(f, 'paths',e.stats['paths'],'steps',e.stats['steps'],'q',e.stats['queries'],'%.2fs solver %.2fs'%(time.time()-t,e.stats['solver_s']))
        for l,d in e.vcs.items(): print('   ',l,{k:v for k,v in d.items() if v})
        print('   covers',e.covers, 'bounded', e.bounded, 'backends', e.backends)
        for v in e.violations: print('   VIOL',v.label,v.vals,v.notes,v.where[:4])
