import sys, importlib, time
sys.setrecursionlimit(10000)
from engine.interp import Program
from engine import contracts as C, prove as PR
def all_contracts(mods):
    out = []
    for m in mods:
        M = importlib.import_module('contracts.' + m)
        for k, v in list(vars(M).items()):
            if isinstance(v, type) and issubclass(v, C.Contract) and v is not C.Contract and v.__module__ == M.__name__ and v.target: out.append(v)
    return out
if __name__ == '__main__':
    mods = sys.argv[1].split(','); pat = sys.argv[2] if len(sys.argv) > 2 else ''
    verbose = '-v' in sys.argv
    prog = Program()
    for c in all_contracts(mods):
        if pat and pat not in ('-v', '-b') and pat not in c.__name__: continue
        if c.bounded and '-b' not in sys.argv: continue
        for var in (c.variants or [None]):
            v = C.Verifier(prog, c, var, {}, log=(lambda s: print('   ', s)) if verbose else None)
            try:
                r = v.verify()
            except Exception:
                import traceback; traceback.print_exc(); print('CRASH', c.__name__); continue
            print(c.__name__, var[0] if var else '', 'OK' if r['ok'] else 'FAIL', 'unsup=%s' % r['unsupported'], 'obl=%d' % len(r['obligations']), 'paths=%s' % r['paths'], 'inv=%s' % r['invariants'], '%.1fs' % r['time'], 'reach', r['reachable_returns'])
            for f in r['failures']: print('     FAILED:', f['obligation'], f['line'], f['reason'], f['path'])
