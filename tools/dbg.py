"""dbg.py C02 'contract substring' [defs substring]: run one contract verbosely in-process."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, llvm, engine, solve
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(V+'/scratch/dbg', exist_ok=True)
m = importlib.import_module('contracts.'+sys.argv[1].lower())
for drv, defs, cs in m.contracts('quick'):
    if len(sys.argv) > 3 and sys.argv[3] not in ' '.join(defs): continue
    for c in cs:
        if sys.argv[2] not in c.name: continue
        ir = build.compile_ir(os.path.join(V,drv), defs, V+'/scratch/dbg')
        e = engine.Engine(llvm.Module(ir), c, dict(verbose=True, dump=os.environ.get('DUMP')))
        print('##', c.name, defs)
        obls = e.run()
        for o in obls:
            if o.result != 'proved':
                print('FAILED', o.name, o.result, o.path[-600:]); print('  model', str(o.backend)[:1500])
                if '-f' in sys.argv:
                    for f in o.facts: print('     ', engine.show(f)[:300])
                    print('   goal', engine.show(o.goal)[:600])
        print(len(obls), 'obligations', e.vacuity()); print(solve.STAT)
        sys.exit()
