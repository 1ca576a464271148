# -*- coding: utf-8 -*-
"""Evaluates contracts on the real code under Jython 2.7: random and small systematic cases.

jython -B run.py --repo /repo --seed 1 --time 3 --cases 300 --out OUT.json mod:Class[/variant] ...
jython -B run.py --repo /repo --replay FILE.json
"""
from __future__ import division, print_function
import sys, os, types, json, random, time, traceback, ast, copy
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

class LeaveOut(object):
    """bassmine needs numpy and matplotlib-like extras need what Jython lacks"""
    def find_module(self, name, path=None):
        return self if name == 'gsapi.bassmine' else None
    def load_module(self, name):
        m = sys.modules.setdefault(name, types.ModuleType(name)); m.__file__ = '<left out>'; m.__loader__ = self
        return m

try: from java.lang import Throwable
except ImportError: Throwable = Exception

def opts(argv):
    o = {'repo': '/repo', 'seed': 1, 'time': 3.0, 'cases': 300, 'out': None, 'replay': None, 'progress': None, 'items': []}
    i = 0
    while i < len(argv):
        a = argv[i]
        if a.startswith('--'):
            o[a[2:]] = argv[i + 1]; i += 2
        else: o['items'].append(a); i += 1
    for k in ('seed', 'cases'): o[k] = int(o[k])
    o['time'] = float(o['time'])
    return o

O = opts(sys.argv[1:])
PY3 = sys.version_info[0] >= 3
if PY3:
    # only bassmine, which needs numpy, is run under CPython; its sibling modules are left out
    pk = types.ModuleType('gsapi'); pk.__path__ = [os.path.join(O['repo'], 'gsapi')]; sys.modules['gsapi'] = pk
    for n in ('gsio', 'gspattern', 'gsutil', 'gsdefs'):
        m = types.ModuleType('gsapi.' + n); sys.modules['gsapi.' + n] = m; setattr(pk, n, m)
    types.ClassType = type
else: sys.meta_path.insert(0, LeaveOut())
sys.path.insert(0, O['repo'])
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)
import logging
logging.disable(logging.CRITICAL)
class _Null(object):
    def write(self, s): pass
    def flush(self): pass
import gsapi
from gsapi import gspattern, gsutil, gsdefs
import engine
assert os.path.abspath(engine.__file__).startswith(HERE), engine.__file__
engine.rt = True
from rtspec import *
import gen as GEN

def load(item):
    m, c = item.split(':')
    var = None
    if '/' in c: c, var = c.split('/')
    mod = __import__('contracts.' + m, fromlist=['x'])
    con = getattr(mod, c)
    v = None
    if var is not None and con.variants:
        for x in con.variants:
            if x[0] == var: v = x
    return con, v

def resolve(target):
    m, q = target.split(':')
    if m == 'drivers': mod = __import__('contracts.drivers_py', fromlist=['x'])
    else: mod = __import__('gsapi.' + m, fromlist=['x'])
    o = mod
    cls = None
    for p in q.split('.'):
        if isinstance(o, type) or isinstance(o, types.ClassType):
            cls = o
            if p.startswith('__') and not p.endswith('__'): p = '_%s%s' % (o.__name__.lstrip('_'), p)
        o = getattr(o, p)
    return o, cls

class Args(object):
    def __init__(self, d): self.__dict__.update(d)

def kinds(con, v):
    out = list(con.params)
    if v:
        ov = v[1]
        out = [(n, ov.get(n, k)) for n, k in out] + [(n, k) for n, k in sorted(ov.items()) if n not in dict(out)]
    return out

def frame_entries(con, S, old, a):
    return [(e[0], e[1] if len(e) > 1 else None, e[2] if len(e) > 2 else None) for e in con.modifies(S, old, a)]

def short(c): return c.split('.')[-1] if isinstance(c, str) else c

def allowed(ents, x, field, old, S):
    for tgt, fields, pred in ents:
        if isinstance(tgt, (str, tuple)) and not isinstance(tgt, View):
            if isinstance(tgt, str):
                if short(tgt) not in [c.__name__ for c in type(x).__mro__]: continue
                if fields is not None and field not in fields: continue
            else:
                if not isinstance(x, list): continue
            if pred is None or pred(wrap(old, x)): return True
        else:
            if raw(tgt) is not x: continue
            if fields is not None and field is not None and field not in fields: continue
            return True
    return False

def check_frame(con, S, old, a, roots):
    ents = frame_entries(con, S, old, a)
    mo = getattr(con, 'modifies_attrs', {})
    objattrs = {}
    for pn, at in mo.items(): objattrs[id(getattr(a, pn))] = at
    for x in old.keep:
        k, before, extra = old.store[id(x)]
        if k == 'list':
            if len(x) != len(before) or any(p is not q and not (isinstance(p, PLAIN + (tuple,)) and p == q and type(p) == type(q)) for p, q in zip(x, before)):
                if not allowed(ents, x, None, old, S): return 'list changed: was %s, is now %s' % (show(before), show(x))
        elif k == 'dict':
            if sorted(map(repr, x.keys())) != sorted(map(repr, before.keys())) or any(x[q] is not before[q] and not (isinstance(x[q], PLAIN) and x[q] == before[q]) for q in before):
                if not getattr(con, 'may_change_dicts', False) and not dict_ok(con, a, x, objattrs, ents): return 'dictionary changed: was %s, is now %s' % (show(before), show(x))
        else:
            for f in sorted(set(before) | set(x.__dict__)):
                if f in before and f in x.__dict__:
                    p, q = before[f], x.__dict__[f]
                    if p is q: continue
                    if isinstance(p, PLAIN + (tuple,)) and isinstance(q, PLAIN + (tuple,)) and p == q: continue
                if id(x) in objattrs and f in objattrs[id(x)]: continue
                if not allowed(ents, x, f, old, S):
                    return 'field %s of %s changed: was %s, is now %s' % (f, type(x).__name__, show(before.get(f)), show(x.__dict__.get(f)))
    return None

def dict_ok(con, a, x, objattrs, ents):
    for pn, at in getattr(con, 'modifies_attrs', {}).items():
        o = getattr(a, pn)
        for f in at:
            if getattr(o, f, None) is x: return True
    for tgt, fields, pred in ents:
        if not isinstance(tgt, (str, tuple)) and fields and hasattr(raw(tgt), '__dict__'):
            for f in fields:
                if raw(tgt).__dict__.get(f) is x: return True
    return False

SHOWN = [None]
class Fail(Exception): pass

RANDOM = random.random

def one_case(con, v, seed, index, size):
    """returns ('skip'|'ok'|'fail', info)"""
    rnd = random.Random('%s/%s/%s/%d' % (con.__name__, v[0] if v else '', seed, index))
    G = GEN.Gen(rnd, size, CONSTS)
    ks = kinds(con, v)
    if hasattr(con, 'gen'):
        vals = con.gen(G, v[0] if v else None)
        for n, k in ks:
            if n not in vals: vals[n] = G.of(k)
    else:
        vals = dict((n, G.of(k)) for n, k in ks)
    a = Args(dict(vals))
    S = ConS()
    S.tagpool = G.pool_tags(); S.realpool = G.pool_reals()
    old = Snapshot(list(vals.values()))
    try:
        for lab, f in con.requires(S, old, a):
            if not val(f): return 'skip', lab
    except Exception as e:
        return 'skip', 'requires raised %r' % e
    before = dict((k, show(x)) for k, x in vals.items())
    SHOWN[0] = before
    fn, cls = resolve(con.target)
    random.seed(12345 + index)
    args = dict(vals)
    selfv = args.pop('self', None)
    so = sys.stdout
    try:
        try:
            sys.stdout = _Null()
            if getattr(con, 'records_draws', False):
                edge = random.Random(index)
                def draw():
                    x = con.draw(edge, vals) if hasattr(con, 'draw') else None
                    S.draws.append(RANDOM() if x is None else x); return S.draws[-1]
                random.random = draw
            r = fn(selfv, **args) if 'self' in vals else fn(**args)
        finally:
            sys.stdout = so; random.random = RANDOM
    except (Exception, Throwable) as e:
        nm = type(e).__name__
        if nm in con.raises:
            if hasattr(con, 'on_raise'):
                for lab, f in con.on_raise(S, old, LIVE, a, nm):
                    if not val(f): return 'fail', {'clause': 'raises %s: %s' % (nm, lab), 'args': before, 'got': repr(e)}
            return 'ok', None
        return 'fail', {'clause': 'no exception', 'args': before, 'got': '%s: %s' % (nm, e), 'trace': traceback.format_exc()[-800:]}
    try:
        rv = wrap(LIVE, r)
        for lab, f in con.ensures(S, old, LIVE, a, rv):
            if not val(f):
                return 'fail', {'clause': lab, 'args': before, 'got': show(r), 'after': dict((k, show(x)) for k, x in vals.items())}
    except Exception as e:
        return 'fail', {'clause': 'specification evaluable on the result', 'args': before, 'got': show(r), 'trace': traceback.format_exc()[-800:]}
    bad = check_frame(con, S, old, a, vals)
    if bad: return 'fail', {'clause': 'nothing else changes', 'args': before, 'got': bad}
    return 'ok', None

CONSTS = {'int': [], 'num': [], 'str': []}

def mine(con):
    """constants of the source file of the target function (unusual values that matter there)"""
    global CONSTS
    m = con.target.split(':')[0]
    p = os.path.join(O['repo'], 'gsapi', m + '.py')
    ints, nums, strs = set(), set(), set()
    if os.path.exists(p):
        try:
            names = con.target.split(':')[1].split('.')
            tree = ast.parse(open(p).read())
            body = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef,)) and n.name == names[-1]] or [tree]
            for b in body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Num):
                        if isinstance(n.n, int) and abs(n.n) < 100000: ints.add(n.n)
                        elif isinstance(n.n, float): nums.add(n.n)
                    elif isinstance(n, ast.Str) and 0 < len(n.s) < 12: strs.add(n.s)
        except SyntaxError: pass
    CONSTS = {'int': sorted(ints), 'num': sorted(nums), 'str': sorted(strs)}

def main():
    if O['replay']:
        rec = json.load(open(O['replay']))
        con, v = load(rec['item'])
        mine(con)
        st, info = one_case(con, v, rec['seed'], rec['index'], rec['size'])
        print(json.dumps({'status': st, 'info': info}, indent=1))
        sys.exit(1 if st == 'fail' else 0)
    out = []
    for item in O['items']:
        con, v = load(item)
        mine(con)
        t0 = time.time(); ok = skip = 0; fail = None; samples = []; why = {}
        idx = 0; distinct = set()
        maxcases = O['cases'] * getattr(con, 'weight', 1)
        while time.time() - t0 < O['time'] and ok < maxcases and idx < maxcases * 20:
            size = min(8, idx // 12) if idx < 100 else idx % 9
            if O['progress']:
                f = open(O['progress'], 'w'); f.write(json.dumps({'item': item, 'seed': O['seed'], 'index': idx, 'size': size})); f.close()
            try:
                st, info = one_case(con, v, O['seed'], idx, size)
            except Exception:
                st, info = 'error', traceback.format_exc()
            if st == 'ok':
                ok += 1
                h = hash(json.dumps(SHOWN[0], sort_keys=True))
                if h not in distinct:
                    distinct.add(h)
                    if len(distinct) in (9, 40): samples.append(dict((k, x[:400]) for k, x in SHOWN[0].items()))
            elif st == 'skip':
                skip += 1; why[info] = why.get(info, 0) + 1
            else:
                fail = {'item': item, 'seed': O['seed'], 'index': idx, 'size': size, 'info': info, 'status': st}
                break
            idx += 1
        out.append({'item': item, 'ok': ok, 'skip': skip, 'fail': fail, 'time': time.time() - t0, 'skipped_because': why, 'distinct': len(distinct), 'samples': samples})
        if O['out']:
            f = open(O['out'] + '.part', 'w'); f.write(json.dumps(out)); f.close(); os.rename(O['out'] + '.part', O['out'])
    if not O['out']: print(json.dumps(out, indent=1))

main()
