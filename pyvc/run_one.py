import importlib, sys, time
from .engine import Interp
def verify(pid, only=None):
    m = importlib.import_module(f'pyvc.contracts.{pid}')
    out = []
    for name, h in m.HARNESSES:
        if only and name != only: continue
        I = Interp()
        t=time.time()
        und = I.explore(h)
        out.append((name, I, und, time.time()-t))
    return out
if __name__ == '__main__':
    for name, I, und, t in verify(sys.argv[1], *(sys.argv[2:3])):
        print('==', name, 'paths', I.npaths, f'{t:.1f}s solver {I.solver_time:.1f}s')
        agg = {}
        for o in I.obligations.values():
            agg.setdefault(o.name, []).append(o)
        for n, os in agg.items():
            st = {}
            for o in os: st[o.status] = st.get(o.status, 0) + 1
            print('  ', n, st, 'cover', I.covers.get(n))
            for o in os:
                if o.status != 'discharged':
                    print('      ', o.where, o.path, o.status, str(o.model)[:600]); break
        for u in und: print('  UNDECIDED', u)
        print('   fns', I.functions_seen)
