"""Symbolic executor for the Python source of /repo (direct style, one path per run).

A run follows one sequence of decisions; further runs are scheduled for the alternatives.
Loops over sequences of unknown length are cut at the loop head by invariants (see loops.py).
"""
import ast, os, sys
from fractions import Fraction
import z3
from .values import *
from .bytestr import *

REPO = os.environ.get('GSVC_REPO', '/repo')

# ---------------------------------------------------------------- source modules
class Module(object):
    def __init__(self, prog, name, path):
        self.prog = prog; self.name = name; self.path = path
        src = open(path, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(src, path)
        self.src = src
        self.defs = {}          # name -> ('func'|'class'|'assign'|'import', node)
        self.cache = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef): self.defs[st.name] = ('func', st)
            elif isinstance(st, ast.ClassDef): self.defs[st.name] = ('class', st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name): self.defs[t.id] = ('assign', st)
            elif isinstance(st, ast.Import):
                for a in st.names: self.defs[a.asname or a.name.split('.')[0]] = ('import', (a.name if a.asname else a.name.split('.')[0], None, 0))
            elif isinstance(st, ast.ImportFrom):
                for a in st.names: self.defs[a.asname or a.name] = ('import', (st.module, a.name, st.level))
            elif isinstance(st, ast.If):
                # "if sys.version_info < (3,)": the reference run-time is Python 2.7
                v = _pyver_test(st.test)
                if v is True: self._scan(st.body)
                elif v is False: self._scan(st.orelse)

def _pyver_test(t):
    s = ast.dump(t)
    if 'version_info' in s and isinstance(t, ast.Compare):
        op = t.ops[0]
        try: c = ast.literal_eval(t.comparators[0])
        except Exception: return None
        ver = (2, 7, 3)
        return {'Lt': ver < c, 'LtE': ver <= c, 'Gt': ver > c, 'GtE': ver >= c}.get(type(op).__name__)
    return None

class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        d = os.path.join(self.repo, 'gsapi')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py') and f != '__init__.py':
                n = f[:-3]
                try:
                    self.mods[n] = Module(self, n, os.path.join(d, f))
                except SyntaxError as e:
                    raise Unsupported('cannot parse %s: %s' % (f, e))
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'drivers_py.py')
        self.mods['drivers'] = Module(self, 'drivers', d)
    def func(self, spec):
        """'gspattern:Pattern.copy' -> FuncV"""
        m, q = spec.split(':')
        mod = self.mods[m]
        parts = q.split('.')
        if len(parts) == 1:
            kind, node = mod.defs[q]
            return FuncV(node, mod)
        cls = ClassV(mod.defs[parts[0]][1], mod)
        fn = class_lookup(self, cls, parts[1])
        if fn is None: raise KeyError(spec)
        return fn

def class_bases(prog, cls):
    out = []
    for b in cls.node.bases:
        if isinstance(b, ast.Name) and b.id in cls.module.defs:
            kind, x = cls.module.defs[b.id]
            if kind == 'class': out.append(ClassV(x, cls.module))
            elif kind == 'import':
                mod, name, lvl = x
                if lvl and mod in prog.mods and name in prog.mods[mod].defs:
                    m = prog.mods[mod]
                    out.append(ClassV(m.defs[name][1], m))
        elif isinstance(b, ast.Name): out.append(BuiltinType(b.id))
    return out

def mro(prog, cls):
    out = [cls]
    for b in class_bases(prog, cls):
        if isinstance(b, ClassV):
            for c in mro(prog, b):
                if not any(c.name == d.name for d in out): out.append(c)
    return out

def class_lookup(prog, cls, name):
    for c in mro(prog, cls):
        r = own_lookup(c, name)
        if r is not None: return r
    return None

def own_lookup(c, name):
    found = None
    for st in c.node.body:
        if isinstance(st, ast.FunctionDef) and st.name == name:
            found = FuncV(st, c.module, cls=c)
            for d in st.decorator_list:
                if isinstance(d, ast.Name) and d.id == 'classmethod': found = ('classmethod', found)
                elif isinstance(d, ast.Name) and d.id == 'staticmethod': found = ('staticmethod', found)
                elif isinstance(d, ast.Name) and d.id == 'property': found = PropV(found, None)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    v = st.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                        def g(n):
                            return own_lookup(c, n.id) if isinstance(n, ast.Name) else None
                        found = PropV(g(v.args[0]) if v.args else None, g(v.args[1]) if len(v.args) > 1 else None)
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('classmethod', 'staticmethod'):
                        inner = found if isinstance(found, FuncV) else own_lookup_func(c, v.args[0].id)
                        found = (v.func.id, inner)
                    else:
                        found = ('assign', v)
    return found

def own_lookup_func(c, name):
    r = None
    for st in c.node.body:
        if isinstance(st, ast.FunctionDef) and st.name == name: r = FuncV(st, c.module, cls=c)
    return r

# ---------------------------------------------------------------- loops
class LoopInfo(object):
    def __init__(self, key, node, depth):
        self.key = key; self.node = node; self.depth = depth
        self.assigned = None        # local names assigned in the body
        self.kinds = {}             # local -> kind at the loop head
        self.heapmods = {}          # heap key -> set of store-address descriptors
        self.mobjmods = set()       # (oid, attr)
        self.allocs = False
        self.cands = None           # ordered dict label -> alive
        self.dead = set()
        self.line = getattr(node, 'lineno', 0)
        self.seen = set()

class Decl(object):
    pass

class Obl(object):
    __slots__ = ('label', 'kind', 'pc', 'goal', 'line', 'loop', 'cand', 'path', 'defs')
    def __init__(self, label, kind, pc, goal, line=0, loop=None, cand=None, path=None):
        self.label = label; self.kind = kind; self.pc = pc; self.goal = goal; self.line = line
        self.loop = loop; self.cand = cand; self.path = path

class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReturnX(Exception):
    def __init__(self, v): self.v = v

class Env(object):
    def __init__(self, parent, module, fn=None):
        self.vars = {}; self.parent = parent; self.module = module; self.fn = fn
    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars: return e
            e = e.parent
        return None

MAX_UNROLL = 400

class Interp(object):
    def __init__(self, prog, contracts=None, analysis=None):
        self.prog = prog
        self.contracts = contracts or {}      # qualname -> contract usable at call sites
        self.A = analysis                     # cross-run knowledge (loops, sites)
    # ------------------------------------------------------------ run control
    def start(self, prefix):
        self.prefix = prefix; self.pos = 0; self.trace = []
        self.pc = []; self.qf = []
        self.names = {}
        self.heap = {}; self.heap0 = {}; self.A_oldaddr = {}
        self.alloc0 = z3.Int('alloc0')
        self.alloc = self.alloc0
        self.alloc_off = 0; self.alloc_base = self.alloc0
        self.mobj = {}; self.noid = 0; self.draws = []
        self.obls = []
        self.loopstack = []
        self.callstack = []
        self.newpaths = []
        self.order = 0
        self.setcache = {}
        self.spec_defs = []; self.called = []
        self.reads = []
        self.tryDepth = 0
        self.assume(self.alloc0 > 0)

    def fresh(self, name, sort):
        n = self.names.get(name, 0); self.names[name] = n + 1
        return z3.Const('%s!%d' % (name, n), sort)

    def fresh_kind(self, k, name):
        if k == 'int': return self.fresh(name, I)
        if k == 'num': return self.fresh(name, R)
        if k == 'bool': return self.fresh(name, B)
        if k == 'V': return SV(self.fresh(name, V))
        if k == 'none': return None
        if k == 'any': return Opaque(name)
        if isinstance(k, tuple) and k[0] in ('ref', 'opt', 'list', 'optlist'):
            a = self.fresh(name, I)
            self.assume(a < self.alloc); self.assume(a >= 0 if k[0].startswith('opt') else a > 0)
            if k[0] in ('list', 'optlist'): return LRef(k[1], a, k[0] == 'optlist')
            return Ref(k[1], a, k[0] == 'opt')
        if isinstance(k, tuple) and k[0] == 'tuple':
            return tuple(self.fresh_kind(x, name) for x in k[1])
        if isinstance(k, tuple) and k[0] == 'const': return k[1]
        raise Unsupported('cannot havoc kind %r' % (k,))

    def kind_of(self, v):
        if v is None: return 'none'
        if isinstance(v, bool): return 'bool'
        if isinstance(v, int): return 'int'
        if isinstance(v, Fraction): return 'num'
        if isinstance(v, str): return 'V'
        if isinstance(v, SV): return 'V'
        if is_z(v):
            s = v.sort()
            return {I: 'int', R: 'num', B: 'bool', V: 'V'}.get(s) or ('int' if s == I else 'num' if s == R else 'bool' if s == B else 'V')
        if isinstance(v, Ref): return ('opt' if v.opt else 'ref', v.cls)
        if isinstance(v, LRef): return ('optlist' if v.opt else 'list', v.kind)
        if isinstance(v, CList):
            if v.lref is not None: return ('list', v.lref.kind)
            return ('clist',)
        if isinstance(v, tuple):
            return ('tuple', tuple(self.kind_of(x) for x in v))
        if isinstance(v, Opaque): return 'any'
        return ('const', v)

    def join_kind(self, a, b):
        if a == b: return a
        s = {a, b} if not isinstance(a, list) else None
        try:
            pair = frozenset([a, b])
        except TypeError:
            raise Unsupported('cannot join kinds %r %r' % (a, b))
        if pair == frozenset(['int', 'num']): return 'num'
        if pair == frozenset(['bool', 'int']): return 'int'
        if pair == frozenset(['bool', 'num']): return 'num'
        for x, y in ((a, b), (b, a)):
            if x == 'none' and isinstance(y, tuple) and y[0] in ('ref', 'opt'): return ('opt', y[1])
            if x == 'none' and isinstance(y, tuple) and y[0] in ('list', 'optlist'): return ('optlist', y[1])
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'opt' and y == ('ref', x[1]): return x
            if x == 'none' and y in ('int', 'num', 'V', 'bool'): return 'V'
            if x == 'V' and y in ('int', 'num', 'bool'): return 'V'
            if x == 'V' and isinstance(y, tuple) and y[0] == 'tuple': return 'V'
            if x == 'any': return 'any'
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'tuple' and b[0] == 'tuple':
            if len(a[1]) == len(b[1]):
                return ('tuple', tuple(self.join_kind(x, y) for x, y in zip(a[1], b[1])))
            return 'V'
        raise Unsupported('cannot join kinds %r %r' % (a, b))

    def coerce(self, v, k):
        """Value v seen as kind k (as term for heap stores)."""
        if k == 'int':
            if isinstance(v, (bool, int)): return z3.IntVal(int(v))
            if isinstance(v, Fraction):
                if v.denominator == 1: return z3.IntVal(int(v))
                raise Unsupported('fraction stored as int')
            if is_z(v):
                if v.sort() == I: return v
                if v.sort() == B: return z3num(v)
                if v.sort() == R: raise Unsupported('real stored in an integer field')
        if k == 'num':
            if is_z(v) and v.sort() == V:
                raise Unsupported('boxed value stored as number')
            return z3real(v)
        if k == 'bool':
            return z3bool(v)
        if k == 'V': return to_V(v)
        if k == 'any':
            return self.fresh('any', I)
        if isinstance(k, tuple):
            if k[0] in ('ref', 'opt'):
                if v is None:
                    if k[0] == 'opt': return z3.IntVal(0)
                    raise Unsupported('None stored as reference')
                if isinstance(v, Ref):
                    return v.addr
            if k[0] == 'list':
                l = self.as_lref(v, k[1])
                return l.addr
        raise Unsupported('cannot store %r as %r' % (v, k))

    def of_kind(self, t, k):
        if k in ('int', 'num', 'bool'): return t
        if k == 'V': return SV(t)
        if k == 'any': return Opaque('any')
        if k[0] == 'ref': return Ref(k[1], t)
        if k[0] == 'opt': return Ref(k[1], t, True)
        if k[0] == 'list': return LRef(k[1], t)
        raise Unsupported('of_kind %r' % (k,))

    # ------------------------------------------------------------ assumptions, decisions
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        c0 = c
        if z3.is_true(c): return
        self.pc.append(c)
        if not z3.is_quantifier(c): self.qf.append(c)

    def infeasible_now(self):
        return not self.feasible(z3.BoolVal(True))

    def feasible(self, c):
        s = self.A.quick()
        for p in self.qf: s.add(p)
        s.add(c)
        return s.check() != z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self.feasible(cond); f = self.feasible(z3.Not(cond))
            if t and f:
                self.newpaths.append(self.trace + [False]); d = True
            elif t: d = True
            elif f: d = False
            else: raise Infeasible()
        self.pos += 1; self.trace.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self):
        if self.pos < len(self.prefix): d = self.prefix[self.pos]
        else:
            self.newpaths.append(self.trace + [False]); d = True
        self.pos += 1; self.trace.append(d)
        return d

    def require(self, cond, exc, line, msg=''):
        """Implicit check: cond must hold or `exc` is raised."""
        if isinstance(cond, bool):
            if not cond: raise PyExc(exc, line, msg)
            return
        c = z3.simplify(cond)
        if z3.is_true(c): return
        if self.tryDepth or exc in self.A.allowed_exc:
            if not self.branch(cond): raise PyExc(exc, line, msg)
            return
        if z3.is_false(c): raise PyExc(exc, line, msg)
        self.oblige('no-%s' % exc, 'exc', cond, line)
        self.assume(cond)

    def truth(self, v):
        """Python truth value as bool or z3 Bool."""
        if v is None: return False
        if isinstance(v, (bool, int, Fraction, str, tuple)): return bool(v)
        if isinstance(v, ByteS): k = v.length(); return k > 0
        if isinstance(v, SV):
            t = v.t
            return z3.And(t != V.VNone, z3.Implies(V.is_VBool(t), V.bv(t)),
                          z3.Implies(V.is_VInt(t), V.iv(t) != 0), z3.Implies(V.is_VReal(t), V.rv(t) != 0),
                          z3.Implies(z3.Or(V.is_VStr(t), V.is_VTup(t)), v_len(t) > 0))
        if is_z(v):
            if v.sort() == B: return v
            return v != 0
        if isinstance(v, Ref):
            if v.cls in SEQ_FIELD:   # Pattern has __len__
                fl = SEQ_FIELD[v.cls]
                if v.opt:
                    return z3.And(v.addr != 0, self.lenof(LRef(SCHEMA[v.cls][fl][1], self.hget(('f', v.cls, fl), v.addr))) > 0)
                return self.lenof(self.load(v, fl)) > 0
            return (v.addr != 0) if v.opt else True
        if isinstance(v, CList) and v.lref is None: return len(v.items) > 0
        if isinstance(v, (LRef, CList)):
            l = self.as_l(v)
            n = self.lenof(l) > 0
            return z3.And(l.addr != 0, n) if l.opt else n
        if isinstance(v, MDict): return len(v.d) > 0
        if isinstance(v, SetV): return v.n > 0
        if isinstance(v, (FuncV, BoundV, ClassV, MObj, PredV, BuiltinType)): return True
        if isinstance(v, Opaque): raise Unsupported('truth of %r' % v)
        raise Unsupported('truth of %r' % (v,))

    def test(self, v):
        return self.branch(self.truth(v))

    # ------------------------------------------------------------ heap
    def harr(self, key):
        if key not in self.heap:
            if key in self.heap0: return self.heap0[key]
            return self.init_arr(key)
        return self.heap[key]

    def arr_sort(self, key):
        if key[0] == 'f': return z3.ArraySort(I, ksort(SCHEMA[key[1]][key[2]]))
        if key[0] == 'len': return z3.ArraySort(I, I)
        if key[0] == 'data': return z3.ArraySort(I, z3.ArraySort(I, ksort(key[1])))
        raise Unsupported(key)

    def keyname(self, key):
        def s(k): return k if isinstance(k, str) else '_'.join(s(x) for x in k)
        return s(key).replace('gspattern.', '')

    def init_arr(self, key):
        a = z3.Const('H0_' + self.keyname(key), self.arr_sort(key))
        self.heap0[key] = a
        for f in self.arr_facts(key, a, self.alloc0): self.assume_bg(f)
        return a

    def oblige(self, label, kind, goal, line=0, loop=None, cand=None):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        self.obls.append(Obl(label, kind, list(self.pc), goal, line, loop, cand))

    def assume_bg(self, f):
        self.pc.insert(0, f)
        if not z3.is_quantifier(f): self.qf.insert(0, f)

    def arr_facts(self, key, a, alloc):
        """Facts true of every heap of the memory model: references point to allocated objects."""
        x = z3.Int('wx'); y = z3.Int('wy')
        out = []
        if key[0] == 'len':
            out.append(z3.ForAll([x], a[x] >= 0, patterns=[a[x]]))
        elif key[0] == 'f':
            k = SCHEMA[key[1]][key[2]]
            if isinstance(k, tuple):
                lo = (a[x] >= 0) if k[0] == 'opt' else (a[x] > 0)
                out.append(z3.ForAll([x], z3.Implies(z3.And(x > 0, x < alloc), z3.And(lo, a[x] < alloc)), patterns=[a[x]]))
        elif key[0] == 'data' and isinstance(key[1], tuple) and key[1][0] in ('ref', 'list'):
            L = self.harr(('len', key[1]))
            out.append(z3.ForAll([x, y], z3.Implies(z3.And(x > 0, x < alloc, y >= 0, y < L[x]),
                                                    z3.And(a[x][y] > 0, a[x][y] < alloc)), patterns=[a[x][y]]))
        return out

    def hget(self, key, addr):
        arr = self.harr(key)
        return self.sel(arr, addr)

    def sel(self, arr, addr):
        """select with simplification through stores at syntactically known addresses"""
        a = arr; ad = z3num(addr)
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            b, i, v = a.children()
            if i.eq(ad): return v
            d = z3.simplify(i - ad)
            if z3.is_int_value(d) or z3.is_rational_value(d):
                if d.as_long() == 0: return v
                a = b; continue
            if self.known_old(i) != self.known_old(ad) and None not in (self.known_old(i), self.known_old(ad)):
                a = b; continue
            break
        return z3.Select(a, ad)

    def known_old(self, t):
        """'new' if syntactically alloc0+k (k>=0) , 'old' for input addresses, else None"""
        h = self.A_oldaddr.get(t.get_id())
        if h: return 'old'
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
            a, b = t.children()
            if z3.is_const(a) and a.decl().name().startswith('H0_f_') and self.known_old(b) == 'old': return 'old'
        d = z3.simplify(t - self.alloc0)
        if z3.is_int_value(d) and d.as_long() >= 0: return 'new'
        return None

    def hset(self, key, addr, val, line=0):
        arr = self.harr(key)
        cur = self.sel(arr, addr)
        if cur.eq(val): return
        self.note_write(key, addr)
        self.heap[key] = z3.Store(arr, addr, val)

    def note_write(self, key, addr):
        for fr in self.loopstack:
            lp = fr['info']
            if key not in lp.heapmods:
                lp.heapmods[key] = []
                self.A.changed = True
                raise Restart()
            # remember addresses that already exist at the loop's entry
            fr['writes'].setdefault(key, []).append(addr)

    def new_addr(self):
        a = z3.simplify(self.alloc_base + self.alloc_off)
        self.alloc_off += 1
        self.alloc = z3.simplify(self.alloc_base + self.alloc_off)
        for fr in self.loopstack:
            if not fr['info'].allocs:
                fr['info'].allocs = True; self.A.changed = True; raise Restart()
        return a

    def load(self, ref, name):
        k = SCHEMA[ref.cls][name]
        t = self.hget(('f', ref.cls, name), ref.addr)
        v = self.of_kind(t, k)
        if isinstance(k, tuple):
            self.assume(t < self.alloc); self.assume(t >= 0 if k[0] == 'opt' else t > 0)
        return v

    def store(self, ref, name, v, line=0):
        k = SCHEMA[ref.cls][name]
        self.hset(('f', ref.cls, name), ref.addr, self.coerce(v, k), line)

    # ---- lists
    def site(self, node):
        key = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), type(node).__name__, self.callstack_key(), getattr(node, '_gs', ''))
        if key not in self.A.sites: self.A.sites[key] = Site()
        return self.A.sites[key]

    def callstack_key(self):
        return tuple(c[1] for c in self.callstack)

    def new_list(self, items, node):
        st = self.site(node)
        if st.heap:
            k = st.kind
            if k is None:
                for it in items:
                    k = self.kind_of(it); break
                st.kind = k
            c = CList(list(items), st, self.order); self.order += 1
            if st.kind is not None:
                self.promote(c, st.kind)
            return c
        c = CList(list(items), st, self.order); self.order += 1
        return c

    def promote(self, c, kind):
        if c.lref is not None: return c.lref
        a = self.new_addr()
        if isinstance(kind, tuple) and kind[0] == 'clist': raise Unsupported('list of literal lists')
        self.hset(('len', kind), a, z3.IntVal(len(c.items)))
        d = self.hget(('data', kind), a)
        for n, it in enumerate(c.items):
            d = z3.Store(d, n, self.coerce(it, kind))
        if c.items: self.hset(('data', kind), a, d)
        c.lref = LRef(kind, a)
        c.items = None
        return c.lref

    def site_kind_join(self, c, k):
        if k == 'none': k = 'V'
        if isinstance(k, tuple) and k[0] == 'const': raise Unsupported('list element %r' % (k,))
        if isinstance(k, tuple) and k[0] == 'tuple': k = 'V'
        if isinstance(k, tuple) and k[0] == 'opt': k = ('ref', k[1])
        if c.site.kind is None:
            c.site.kind = k; c.site.heap = True; self.A.changed = True; raise Restart()
        j = self.join_kind(c.site.kind, k)
        if j != c.site.kind:
            c.site.kind = j; self.A.changed = True; raise Restart()

    def as_lref(self, v, kind):
        """v as heap list with element kind `kind`."""
        if isinstance(v, LRef):
            if v.kind != kind: raise Unsupported('list of %r used as list of %r' % (v.kind, kind))
            return v
        if isinstance(v, CList):
            if v.lref is None:
                v.site.kind = kind
                return self.promote(v, kind)
            if v.lref.kind != kind:
                if v.site.kind != kind:
                    v.site.kind = self.join_kind(v.lref.kind, kind); self.A.changed = True; raise Restart()
            return v.lref
        raise Unsupported('not a list: %r' % (v,))

    def as_l(self, v):
        if isinstance(v, LRef): return v
        if isinstance(v, CList):
            if v.lref is not None: return v.lref
            k = v.site.kind
            if k is None and v.items: k = self.kind_of(v.items[0])
            if k is None: raise Unsupported('empty list of unknown kind')
            if k == 'none' or (isinstance(k, tuple) and k[0] == 'tuple'): k = 'V'
            return self.promote(v, k)
        raise Unsupported('as_l %r' % (v,))

    def lenof(self, l):
        t = self.hget(('len', l.kind), l.addr)
        return t

    def getitem(self, l, i):
        t = self.hget(('data', l.kind), l.addr)
        e = self.sel(t, z3num(i))
        return self.of_kind(e, l.kind)

    def elem_facts(self, l, i, v):
        if isinstance(v, (Ref, LRef)):
            self.assume(v.addr > 0); self.assume(v.addr < self.alloc)

    def setitem(self, l, i, v):
        d = self.hget(('data', l.kind), l.addr)
        t = self.coerce(v, l.kind)
        self.hset(('data', l.kind), l.addr, z3.Store(d, z3num(i), t))

    def list_is_outer(self, c):
        """Created before the innermost symbolic loop now being executed?"""
        return bool(self.loopstack) and c.birth < self.loopstack[-1]['order']

    def append(self, v, item):
        if isinstance(v, CList) and v.lref is None:
            if not v.site.heap and not self.list_is_outer(v):
                v.items.append(item); return
            if v.site.kind is None or not v.site.heap:
                if not v.site.heap:
                    v.site.heap = True
                    if v.site.kind is None and not isinstance(item, (CList,)):
                        k = self.kind_of(item)
                        if k == 'none' or (isinstance(k, tuple) and k[0] == 'tuple'): k = 'V'
                        v.site.kind = k
                    self.A.changed = True; raise Restart()
                self.site_kind_join(v, self.kind_of(item))
            l = self.promote(v, v.site.kind)
        else:
            l = self.as_l(v)
        if isinstance(item, CList) and item.lref is None and isinstance(l.kind, tuple) and l.kind[0] == 'list':
            self.as_lref(item, l.kind[1])
        if isinstance(v, CList):
            k = self.kind_of(item)
            if k == 'none' or (isinstance(k, tuple) and k[0] == 'tuple'): k = 'V'
            if k != l.kind:
                j = self.join_kind(l.kind, k)
                if j != l.kind:
                    v.site.kind = j; self.A.changed = True; raise Restart()
        n = self.lenof(l)
        d = self.hget(('data', l.kind), l.addr)
        t = self.coerce(item, l.kind)
        self.hset(('data', l.kind), l.addr, z3.Store(d, n, t))
        self.hset(('len', l.kind), l.addr, n + 1)

    def extend(self, v, other, node):
        """v += other, in place"""
        items = self.concrete_items(other)
        if items is not None:
            for it in items: self.append(v, it)
            return
        s = self.seq(other)
        if isinstance(v, CList) and v.lref is None:
            if v.site.kind is None or not v.site.heap:
                v.site.heap = True; v.site.kind = s.kind; self.A.changed = True; raise Restart()
            self.promote(v, v.site.kind)
        l = self.as_l(v)
        if s.kind is not None and s.kind != l.kind:
            raise Unsupported('concatenation of lists of different kinds')
        n = self.lenof(l); d = self.hget(('data', l.kind), l.addr)
        nd = self.fresh('cat', d.sort()); j = z3.Int('cj')
        sn = s.n
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), nd[j] == d[j]), patterns=[nd[j], d[j]]))
        se = self.coerce_noeff(s.get(j - n), l.kind)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= n, j < n + sn), nd[j] == se), patterns=[nd[j]]))
        se2 = self.coerce_noeff(s.get(j), l.kind)
        pats = [se2] if z3.is_app(se2) and se2.decl().kind() == z3.Z3_OP_SELECT else []
        if pats: self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < sn), nd[n + j] == se2), patterns=pats))
        self.hset(('data', l.kind), l.addr, nd)
        self.hset(('len', l.kind), l.addr, n + sn)

    def coerce_noeff(self, v, k):
        return self.coerce(v, k)

    def concrete_items(self, v):
        """list of values if the sequence's length is known, else None"""
        if isinstance(v, tuple): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, CList) and v.lref is None: return list(v.items)
        if isinstance(v, MDict): return list(v.d.keys())
        if isinstance(v, ByteS) and v.known(): return [ByteS([x]) for x in v.b]
        if isinstance(v, IterV):
            r = v.rest(self)
            if any(isinstance(x, Seg) for x in r): return None
            v.advance(self, len(r))
            return [ByteS([x]) for x in r]
        if isinstance(v, RangeV):
            if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
                r = list(range(v.lo, v.hi, v.step))
                return r[::-1] if v.rev else r
            return None
        if isinstance(v, RevList):
            it = self.concrete_items(v.l)
            return it[::-1] if it is not None else None
        if isinstance(v, EnumV):
            it = self.concrete_items(v.l)
            return [(v.start + n, x) for n, x in enumerate(it)] if it is not None else None
        if isinstance(v, SeqV) and isinstance(v.n, int):
            return [v.get(i) for i in range(v.n)]
        return None

    def seq(self, v):
        """A sequence value as SeqV over the current state."""
        if isinstance(v, SeqV): return v
        if isinstance(v, (ByteS, IterV)):
            n, g = seq_of(v.segs if isinstance(v, ByteS) else v.rest(self))
            if isinstance(v, IterV): v.advance(self, n)
            if g is None: raise Unsupported('bytes')
            return SeqV(n, lambda i: ByteS([g(i)]))
        if isinstance(v, CList) and v.lref is None:
            items = list(v.items)
            return SeqV(len(items), lambda i: items[i] if isinstance(i, int) else self.sym_index(items, i))
        if isinstance(v, (LRef, CList)):
            l = self.as_l(v)
            h = dict(self.heap)
            n = self.lenof(l)
            d = self.hget(('data', l.kind), l.addr)
            return SeqV(n, lambda i: self.of_kind(self.sel(d, z3num(i)), l.kind), l.kind)
        if isinstance(v, SV):
            return SeqV(v_len(v.t), lambda i: SV(v_at(v.t, z3num(i))), 'V')
        if isinstance(v, tuple) or isinstance(v, str):
            items = list(v)
            return SeqV(len(items), lambda i: items[i] if isinstance(i, int) else self.sym_index(items, i))
        if isinstance(v, RangeV):
            lo, hi = v.lo, v.hi
            if v.step != 1: raise Unsupported('range with a step')
            n = z3num(hi) - z3num(lo)
            n = z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
            if v.rev:
                return SeqV(n, lambda i: z3.simplify(z3num(hi) - 1 - i), 'int')
            return SeqV(n, lambda i: z3.simplify(z3num(lo) + i), 'int')
        if isinstance(v, RevList):
            s = self.seq(v.l)
            return SeqV(s.n, lambda i: s.get(s.n - 1 - i), s.kind)
        if isinstance(v, EnumV):
            s = self.seq(v.l)
            return SeqV(s.n, lambda i: (z3num(v.start) + i if not (isinstance(i, int) and isinstance(v.start, int)) else v.start + i, s.get(i)), None)
        if isinstance(v, SetV):
            return self.set_enum(v)
        if isinstance(v, Ref) and v.cls in SEQ_FIELD:
            return self.seq(self.load(v, SEQ_FIELD[v.cls]))
        raise Unsupported('cannot iterate over %r' % (v,))

    def set_enum(self, v):
        """Enumerate a set: a duplicate-free sequence with the same members, in unknown order."""
        ck = v.key
        if ck in self.setcache: return self.setcache[ck]
        k = v.kind
        n = self.fresh('setn', I)
        e = self.fresh('sete', z3.ArraySort(I, ksort(k)))
        src = z3.Function('setsrc!%d' % len(self.setcache), I, I)    # position in the source
        back = z3.Function('setback!%d' % len(self.setcache), I, I)  # source position -> position here
        j = z3.Int('sj')
        sg = lambda i: self.coerce_noeff(v.get(i), k)
        self.assume(n >= 0)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(src(j) >= 0, src(j) < v.n, e[j] == sg(src(j)), back(src(j)) == j)), patterns=[e[j]]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.n), z3.And(back(j) >= 0, back(j) < n, e[back(j)] == sg(j))), patterns=[sg(j), back(j)]))
        # duplicate-free: the value determines the position
        inv = z3.Function('setpos!%d' % len(self.setcache), ksort(k), I)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), inv(e[j]) == j), patterns=[e[j]]))
        if v.card is not None: self.assume(n == v.card)
        r = SeqV(n, lambda i: self.of_kind(e[z3num(i)], k), k)
        r.arr = e
        self.setcache[ck] = r
        return r

    def sym_index(self, items, i):
        r = items[-1]
        if len(items) == 1: return r
        ks = self.kind_of(items[0])
        for it in items[1:]: ks = self.join_kind(ks, self.kind_of(it))
        t = self.coerce(items[-1], ks)
        for n in range(len(items) - 2, -1, -1):
            t = z3.If(i == n, self.coerce(items[n], ks), t)
        return self.of_kind(t, ks)
