#!/usr/bin/env python3
"""python3-vt check.py <property id>

Decides one property: verifies every contract listed for it against the current source of /repo (engine/), one
function at a time and in parallel; beside that it evaluates the same contracts on the real code under Jython
(rt/run.py): validation of contracts and engine when all obligations hold, search for a failing input when one fails.

exit 0   every obligation discharged (or function beyond the engine's reach: bounded check passed, labelled so)
exit 1   VIOLATION property=<id> replay=<path>   [no-failing-input-found]
exit 2   the machinery itself broke
"""
import sys, os, json, time, subprocess, importlib, multiprocessing, traceback, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.setrecursionlimit(20000)
REPO = os.environ.get('GSVC_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
HARD = 840.0 if TIER == 'quick' else 3000.0

def modules():
    return sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'contracts')) if f.endswith('.py') and f not in ('__init__.py', 'drivers_py.py', 'common.py'))

def contracts_for(pid):
    from engine.contracts import Contract
    out = []
    for m in modules():
        M = importlib.import_module('contracts.' + m)
        for k, v in vars(M).items():
            if isinstance(v, type) and issubclass(v, Contract) and v is not Contract and v.__module__ == M.__name__ and v.target and (pid in v.props or pid == 'ALL'):
                for var in (v.variants or [None]):
                    out.append((m, k, v, var))
    # the contracts a caller is checked against belong to the property too
    i = 0
    while i < len(out):
        for v in (getattr(out[i][2], 'calls', None) or ()):
            if not any(o[2] is v for o in out):
                m = v.__module__.split('.')[-1]
                for var in (v.variants or [None]): out.append((m, v.__name__, v, var))
        i += 1
    return out

def item_name(m, k, var): return '%s:%s%s' % (m, k, '/' + var[0] if var else '')

def registry():
    from engine.contracts import Contract
    reg = {}
    for m in modules():
        M = importlib.import_module('contracts.' + m)
        for k, v in vars(M).items():
            if isinstance(v, type) and issubclass(v, Contract) and v is not Contract and v.__module__ == M.__name__ and v.target and v.use_at_calls == 'modular':
                reg[v.target] = v
    return reg

def worker(job, conn):
    m, k, vn, budget, limit = job
    sys.setrecursionlimit(20000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        from engine.interp import Program
        from engine import contracts as C
        con = getattr(importlib.import_module('contracts.' + m), k)
        var = None
        for x in (con.variants or []):
            if x[0] == vn: var = x
        prog = Program(REPO)
        r = C.Verifier(prog, con, var, registry()).verify(budget, time.time() + limit)
    except MemoryError:
        r = {'crash': 'out of memory'}
    except SyntaxError as e:
        r = {'crash': None, 'syntax': str(e)}
    except BaseException:
        r = {'crash': traceback.format_exc()[-3000:]}
    try: conn.send(r)
    except Exception:
        conn.send({'crash': 'unsendable result ' + traceback.format_exc()[-500:]})
    conn.close()

def run_jobs(jobs, nproc, limit):
    """jobs: list of (m, k, vn, budget, limit) -> dict job -> report"""
    out = {}; todo = list(jobs); live = []
    ctx = multiprocessing.get_context('fork')
    while todo or live:
        while todo and len(live) < nproc:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(j, b)); p.start(); b.close()
            live.append((j, p, a, time.time()))
        rest = []
        for j, p, a, t in live:
            if a.poll(0.02):
                try: out[j] = a.recv()
                except EOFError: out[j] = {'crash': 'worker died'}
                p.join(5)
                if p.is_alive(): p.kill()
            elif not p.is_alive():
                if a.poll(0.1):
                    rest.append((j, p, a, t)); continue
                out[j] = {'crash': 'worker died (exit %s)' % p.exitcode}
            elif time.time() - t > j[4] + 60:
                p.kill(); out[j] = {'unsupported': 'time limit', 'ok': False}
            else: rest.append((j, p, a, t))
        live = rest
        time.sleep(0.01)
    return out

CONS = {}

def jython(items, seed, secs, cases, tag):
    """start one Jython process evaluating the items; returns handle"""
    d = os.path.join(HERE, 'evidence', 'work'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s.json' % tag); prog = os.path.join(d, '%s.progress' % tag)
    for f in (out, prog):
        if os.path.exists(f): os.remove(f)
    vm = 'python3-vt' if items and getattr(CONS.get(items[0]), 'runtime_python', None) == 'cpython' else 'jython'
    cmd = [vm, '-B', os.path.join(HERE, 'rt', 'run.py'), '--repo', REPO, '--seed', str(seed), '--time', str(secs), '--cases', str(cases), '--out', out, '--progress', prog] + items
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAVA_TOOL_OPTIONS='', _JAVA_OPTIONS='-Xmx1500m -XX:+UseSerialGC -XX:TieredStopAtLevel=1' if secs < 5 else '-Xmx1500m -XX:+UseSerialGC')
    env.pop('PYTHONPATH', None); env.pop('PYTHONHASHSEED', None)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True, cwd=os.path.join(HERE, 'rt'))
    return {'p': p, 'items': items, 'out': out, 'prog': prog, 'secs': secs, 't0': time.time(), 'limit': secs * len(items) + 60 + 20 * 1}

def jython_wait(h):
    """-> (results list, hang item or None, error or None)"""
    last = None; lastt = time.time(); hang = None
    p = h['p']
    import threading
    buf = {}
    def rd(name, f): buf[name] = f.read()
    th = [threading.Thread(target=rd, args=(n, f)) for n, f in (('o', p.stdout), ('e', p.stderr))]
    for t in th: t.start()
    while p.poll() is None:
        time.sleep(0.05)
        try: cur = open(h['prog']).read()
        except OSError: cur = None
        if cur != last: last, lastt = cur, time.time()
        # one case that does not come to an end (a case takes milliseconds)
        if cur and time.time() - lastt > 45:
            try: hang = json.loads(cur)
            except ValueError: hang = None
            break
        if time.time() - h['t0'] > h['limit'] + 120: break
    if p.poll() is None:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
    for t in th: t.join(5)
    res = []
    try: res = json.load(open(h['out']))
    except (OSError, ValueError): pass
    for f in (h['out'], h['prog']):
        try: os.remove(f)
        except OSError: pass
    err = None
    if not hang and len(res) < len(h['items']):
        err = (buf.get('e') or b'').decode('utf8', 'replace')[-2500:]
    return res, hang, err

def spread(items, n):
    # contracts run under CPython (numpy) in processes of their own
    cp = [x for x in items if getattr(CONS.get(x), 'runtime_python', None) == 'cpython']
    jy = [x for x in items if x not in cp]
    return [x for x in [jy[i::n] for i in range(n)] + [cp] if x]

def known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): out.append(l.split(' ', 2)[2])
    return out

def write_replay(pid, rec):
    d = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (pid, h))
    open(p, 'w').write(json.dumps(rec, indent=1, default=str))
    return p

def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        if rec.get('input'):
            rp = sys.argv[2] + '.in'; open(rp, 'w').write(json.dumps(rec['input']))
            vm = 'jython'
            m, k = rec['contract'].split('/')[0].split(':')
            if getattr(getattr(importlib.import_module('contracts.' + m), k), 'runtime_python', None) == 'cpython': vm = 'python3-vt'
            sys.exit(subprocess.call([vm, '-B', os.path.join(HERE, 'rt', 'run.py'), '--repo', REPO, '--replay', rp]))
        print(json.dumps(rec, indent=1)); sys.exit(1)
    pid = sys.argv[1]
    cons = contracts_for(pid)
    if not cons: print('no contracts for', pid); sys.exit(2)
    thorough = TIER == 'thorough'
    items = {}
    for m, k, v, var in cons: items[item_name(m, k, var)] = (m, k, v, var)
    CONS.update((n, items[n][2]) for n in items)
    rt_items = [n for n in items if getattr(items[n][2], 'runtime', True)]
    ded = [n for n in items if not items[n][2].bounded]
    bounded = {n: items[n][2].bounded for n in items if items[n][2].bounded}
    # the run-time side starts first, the verifier runs beside it
    nrt = 3 if len(rt_items) > 6 else (2 if len(rt_items) > 2 else 1)
    secs = 20.0 if thorough else 4.0
    hs = [jython(g, SEED, secs, 4000 if thorough else 400, '%s-a%d' % (pid, i)) for i, g in enumerate(spread(rt_items, nrt))] if rt_items else []
    budget = 10.0
    jobs = {}
    for n in ded:
        m, k, v, var = items[n]
        jobs[n] = (m, k, var[0] if var else None, budget, getattr(v, 'time_limit', 200.0))
    order = sorted(ded, key=lambda n: -getattr(items[n][2], 'cost', 5))
    reps = run_jobs([jobs[n] for n in order], 7, HARD)
    rep = {n: reps[jobs[n]] for n in ded}
    rt_res = []; hangs = []; rt_err = None
    for h in hs:
        r, hang, err = jython_wait(h)
        rt_res += r
        if hang: hangs.append(hang)
        if err: rt_err = err
    violations = []       # (item, record, suffix)
    fails = {r['item']: r['fail'] for r in rt_res if r['fail']}
    syntax = [r['syntax'] for r in rep.values() if r.get('syntax')]
    crashes = {n: r['crash'] for n, r in rep.items() if r.get('crash')}
    # second try, with more time, for what was not decided
    def undecided(n):
        r = rep[n]
        return r.get('crash') or r.get('unsupported') or not r.get('ok')
    again = [n for n in ded if undecided(n) and n not in fails and not rep[n].get('syntax') and not (rep[n].get('unsupported') and 'time limit' not in rep[n]['unsupported'])]
    left = HARD - (time.time() - T0)
    if again and left > 200:
        j2 = {n: jobs[n][:3] + (25.0, min(250.0, left - 150)) for n in again}
        r2 = run_jobs([j2[n] for n in again], 4, HARD)
        for n in again: rep[n] = r2[j2[n]]
    crashes = {n: r['crash'] for n, r in rep.items() if r.get('crash')}
    # search for failing inputs where an obligation fails, and larger bounded checks where the engine cannot decide
    search = [n for n in ded if n in rt_items and n not in fails and not any(h['item'] == n for h in hangs) and undecided(n)]
    bsearch = [n for n in bounded if n in rt_items and n not in fails]
    more = []
    if (search or bsearch) and not hangs:
        todo = search + bsearch
        g = spread(todo, 6)
        left = max(20.0, HARD - (time.time() - T0) - 60)
        per = min(60.0 if thorough else 30.0, left / max(1, max(len(x) for x in g)))
        hs2 = [jython(x, SEED + 1000, per, 20000, '%s-b%d' % (pid, i)) for i, x in enumerate(g)]
        for h in hs2:
            r, hang, err = jython_wait(h)
            more += r
            if hang: hangs.append(hang)
            if err: rt_err = rt_err or err
        for r in more:
            if r['fail'] and r['item'] not in fails: fails[r['item']] = r['fail']
    if rt_err and not (rt_res or more) and not fails:
        if 'SyntaxError' in rt_err or 'ImportError' in rt_err or 'NameError' in rt_err or 'Traceback' in rt_err:
            pass
    for n, f in sorted(fails.items()):
        rec = {'property': pid, 'contract': n, 'target': items[n][2].target, 'clause': f['info'].get('clause') if isinstance(f['info'], dict) else f['info'], 'input': f,
               'obligations_failed': [x for x in rep.get(n, {}).get('failures', [])][:4],
               'how_to_replay': 'jython -B /verif/rt/run.py --repo /repo --replay <file holding the "input" object>, or python3-vt check.py --replay <this file>'}
        if f.get('status') == 'error': continue
        violations.append((n, rec, ''))
    for h in hangs:
        violations.append((h['item'], {'property': pid, 'contract': h['item'], 'clause': 'the call comes to an end', 'input': h}, ''))
    hung = set(h['item'] for h in hangs)
    unsup = {}
    for n in ded:
        r = rep[n]
        if n in fails or n in hung: continue
        if r.get('syntax') or r.get('crash'): continue
        if r.get('unsupported'):
            unsup[n] = r['unsupported']; continue
        if not r['ok']:
            if r.get('vacuous') and not r['failures']:
                rec = {'property': pid, 'contract': n, 'target': items[n][2].target, 'obligation': 'the end of the function is reachable', 'verifier_output': 'every path ends in a contradiction or a cut: no execution returns'}
            else:
                rec = {'property': pid, 'contract': n, 'target': items[n][2].target, 'obligation': r['failures'][0]['obligation'], 'verifier_output': r['failures'][:6]}
            violations.append((n, rec, ' no-failing-input-found'))
    # evidence
    nobl = sum(len(r.get('obligations', [])) for r in rep.values())
    ndis = sum(sum(1 for o in r.get('obligations', []) if o[1]) for r in rep.values())
    backs = {}
    for r in rep.values():
        for o in r.get('obligations', []):
            if not o[1]: continue
            for b in (o[2] or ['trivial']): backs[b] = backs.get(b, 0) + 1
    trusted = sorted(set(t for r in rep.values() for t in r.get('trusted', [])))
    funcs = sorted(set(t for r in rep.values() for t in r.get('functions', [])))
    ran = sum(r['ok'] for r in rt_res + more)
    proved = [n for n in ded if rep[n].get('ok')]
    weak = sorted(set(list(bounded) + list(unsup)))
    level = 'proof' if proved and not weak else 'exploration'
    cov = {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt check.py %s' % pid,
           'trusted_base': ['gsvc (engine/): translation of Python source into verification conditions', 'z3 %s' % z3v(), 'cvc5'] + trusted,
           'contracts_proved': proved, 'functions_under_contract': sorted(set(items[n][2].target for n in items)),
           'functions_inlined': funcs, 'discharged_by': backs,
           'solver_seconds': round(sum(r.get('time', 0) for r in rep.values()), 1),
           'loops': sum(r.get('loops', 0) for r in rep.values()), 'loop_invariants_kept': sum(r.get('invariants', 0) for r in rep.values()),
           'bounded_not_proved': dict((n, bounded.get(n) or unsup.get(n)) for n in weak),
           'evaluations': ran, 'distinct_nontrivial': sum(r.get('distinct', 0) for r in rt_res + more),
           'rule': 'cases for the run-time evaluation of the same contracts under Jython: seeded random values of the parameter kinds; evaluated when the preconditions hold, and distinct when the printed arguments differ',
           'samples': [{'contract': r['item'], 'cases': r['ok'], 'preconditions_not_met': r['skip'], 'seconds': round(r['time'], 1), 'arguments': r.get('samples', [])[:1]} for r in rt_res + more]}
    assumptions = ['floating point numbers are treated as real numbers', 'termination is not proved (a run-time case that does not end is reported)', 'the contracts are evaluated at run time on bounded random cases only to validate engine and contracts']
    for n in weak: assumptions.append('bounded, not proved: %s (%s)' % (n, bounded.get(n) or unsup.get(n)))
    for n in items:
        for s in getattr(items[n][2], 'assumes', ()): 
            if s not in assumptions: assumptions.append(s)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    known_list = known(pid)
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for n in sorted(items):
        r = rep.get(n)
        print('%-55s %s' % (n, 'bounded' if n in bounded else 'CRASH' if r.get('crash') else 'unsupported: %s' % r['unsupported'] if r.get('unsupported') else 'syntax error' if r.get('syntax') else 'proved %d obligations, %d loops, %.1fs' % (len(r['obligations']), r['loops'], r['time']) if r['ok'] else 'NOT PROVED: %s' % [x['obligation'] for x in r['failures']][:3]))
    rt_by = {}
    for r in rt_res + more: rt_by[r['item']] = rt_by.get(r['item'], 0) + r['ok']
    print('run-time evaluation:', rt_by)
    nofail = []
    for n, rec, suf in violations:
        key = '%s %s' % (n, rec.get('clause') or rec.get('obligation'))
        if any(key.startswith(x) for x in known_list):
            print('KNOWN-FINDING: property=%s %s' % (pid, key)); continue
        nofail.append((n, rec, suf))
    if nofail:
        nofail.sort(key=lambda x: x[2] != '')
        if not nofail[0][2]: nofail = [x for x in nofail if not x[2]]
        for n, rec, suf in nofail[:3]:
            p = write_replay(pid, rec)
            print('VIOLATION property=%s replay=%s%s' % (pid, p, suf))
        sys.exit(1)
    if syntax or rt_err or crashes or any(f.get('status') == 'error' for f in fails.values()):
        print('ERROR', syntax, rt_err, crashes, [f for f in fails.values() if f.get('status') == 'error'][:1])
        sys.exit(2)
    if not (nobl or ran): print('nothing was checked'); sys.exit(2)
    low = [n for n in rt_items if rt_by.get(n, 0) < 5]
    if low: print('ERROR: the generator meets the preconditions of too few cases:', low); sys.exit(2)
    print('OK %s: %d of %d contracts proved, %d obligations, %d run-time cases, %.0fs' % (pid, len(proved), len(items), nobl, ran, time.time() - T0))
    sys.exit(0)

def z3v():
    import z3
    return z3.get_version_string()

if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
