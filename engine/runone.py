"""debugging: verify one contract and print"""
import json, re, sys, time, importlib, traceback
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts'))
import world, contract, execu, vc
from sorts import Unsupported

def main():
    mod, pat = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ''
    unroll = int(sys.argv[3]) if len(sys.argv) > 3 else None
    R = contract.Registry()
    m = importlib.import_module(mod)
    m.register(R)
    W = world.World(getattr(m, 'SRC', []))
    for c in R.list:
        if pat not in c.name or c.trusted:
            continue
        fs = c.find(W)
        if not fs:
            print(c.name, 'NO FUNCTION')
        for fn in fs:
            if os.environ.get('FN') and os.environ['FN'] not in fn.id: continue
            t0 = time.time()
            ex = execu.Exec(W, R)
            ex.unroll = unroll
            hf = '/tmp/hint_%s_%s.json' % (mod, re.sub(r'\W+', '_', c.name))
            if os.environ.get('HINT') and os.path.exists(hf): ex.hints = json.load(open(hf))
            try:
                contract.verify(ex, c, fn)
            except Unsupported as e:
                print('==', c.name, fn.id, 'UNSUPPORTED', e, 'line', ex.curline)
                if os.environ.get('TB'):
                    traceback.print_exc()
                continue
            t1 = time.time()
            if not ex.hints: json.dump(ex.newhints, open(hf, 'w'))
            res = vc.discharge(ex)
            bad = [r for r in res if r[1] != 'unsat']
            print('==', c.name, '|', fn.id[-60:], 'obls', len(res), 'bad', len(bad), 'exec %.1fs solve %.1fs' % (t1 - t0, time.time() - t1), 'taint' if any(o.taint for o in ex.obls) else '', ex.stats)
            for q, l, inv in ex.loopinfo:
                print('   loop', q.split('::')[-1], l, inv)
            for o, st, be, s, m in bad:
                print('   FAIL', st, o.name, 'line', o.line, '%.1fs' % s)
                if os.environ.get('MODEL') and m is not None:
                    print(m)
                if os.environ.get('PC'):
                    for k, f in o.pc: print('     ', k, str(f)[:300])
                    print('      GOAL', o.goal)
            if os.environ.get('ASSUMED'):
                for a in ex.assumed: print('   assumed', a)
main()
