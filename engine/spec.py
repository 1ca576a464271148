"""Symbolic back end of the specification language (the concrete one is rt/rtspec.py).

Specifications are Python functions over `S` (operators), state views `old`/`new` and argument
handles; here they build z3 formulas over the verifier's memory model.
"""
from fractions import Fraction
import z3
from .values import *

EVF = ('startTime', 'duration', 'pitch', 'velocity', 'tag')

AT_R = z3.Function('at!r', R, B)
AT_V = z3.Function('at!v', V, B)

class Skip(Exception):
    """A clause that makes no sense in this reading (candidate invariants only)."""

# ------------------------------------------------------------------ folds
class Fold(object):
    """F(i, p...) = body(0) op ... op body(i-1): a named spec function with its defining equation."""
    def __init__(self, name, sort, body, var, op, pred=None, params=()):
        self.g = z3.Function(name, *([I] + [p.sort() for p in params] + [sort])); self.sort = sort; self.body = body; self.var = var; self.op = op; self.pred = pred
        self.params = tuple(params)
        self.named = None
        if pred is not None and _has_q(pred):
            # a predicate with quantifiers gets a name, defined where it is used
            self.named = z3.Function(name + '?', *([I] + [p.sort() for p in params] + [B]))
            self.body = z3.If(self.named(var, *params), z3.IntVal(1), z3.IntVal(0))
    def sub(self, e, t, ps): return z3.substitute(e, (self.var, t), *zip(self.params, ps))
    def define(self, t, ps):
        p = self.named(t, *ps); b = self.sub(self.pred, t, ps)
        return [z3.Implies(p, b), z3.Implies(z3.Not(p), z3.Not(b))]
    def p(self, t, ps): return self.named(t, *ps) if self.named is not None else self.sub(self.pred, t, ps)
    def unfold(self, t, ps=()):
        f = lambda x: self.g(x, *ps)
        zero = z3.IntVal(0) if self.sort == I else z3.RealVal(0)
        if self.op == 'sum':
            return z3.And(z3.Implies(t <= 0, f(t) == zero), z3.Implies(t > 0, f(t) == f(t - 1) + self.sub(self.body, t - 1, ps)))
        if self.op == 'max0':
            p = f(t - 1); b = self.sub(self.body, t - 1, ps)
            return z3.And(z3.Implies(t <= 0, f(t) == zero), z3.Implies(t > 0, f(t) == z3.If(b > p, b, p)))
        raise Unsupported('fold ' + self.op)

class FoldApp(object):
    """a fold with its parameters"""
    def __init__(self, F, ps): self.F = F; self.ps = ps
    def f(self, t): return self.F.g(t, *self.ps)

FOLDS = {}          # key -> Fold   (per process)
FOLD_BY_DECL = {}

def _bound_consts(t, out, seen):
    if t.get_id() in seen: return
    seen.add(t.get_id())
    if z3.is_quantifier(t): _bound_consts(t.body(), out, seen); return
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        if n.startswith('fold_k') or (n[0] == 'q' and n.lstrip('qvr').isdigit()): out[n] = t
    for c in t.children(): _bound_consts(c, out, seen)

def _addresses(t, var):
    """the largest array reads of sort Int that do not depend on var"""
    out = []; seen = {}
    def dep(e):
        k = e.get_id()
        if k not in seen: seen[k] = e.eq(var) or z3.is_quantifier(e) or any(dep(c) for c in e.children())
        return seen[k]
    def go(e):
        if z3.is_select(e) and e.sort() == I and not dep(e):
            if not any(e.eq(x) for x in out): out.append(e)
            return
        if not z3.is_quantifier(e):
            for c in e.children(): go(c)
    go(t)
    return out

def fold(sort, body, var, op, pred=None):
    ps = []
    if op == 'sum' and pred is None:
        # the objects summed over are parameters: two ways of naming one list give the same sum
        ps = _addresses(body, var)
        cs = [z3.Const('fa%d_%s' % (i, p.sort().name()), p.sort()) for i, p in enumerate(ps)]
        short = z3.substitute(body, *zip(ps, cs)) if ps else body
    else: short = body
    d = {}; _bound_consts(short, d, set()); d.pop(var.decl().name(), None)
    ps = ps + [d[n] for n in sorted(d)]
    fp = [z3.Const('fp%d_%s' % (i, p.sort().name()), p.sort()) for i, p in enumerate(ps)]
    fv = z3.Int('fold_var')
    sub = [(var, fv)] + list(zip(ps, fp))
    body = z3.substitute(body, *sub)
    if pred is not None: pred = z3.substitute(pred, *sub)
    key = (op, body.sexpr(), str(sort))
    if key not in FOLDS:
        F = Fold('fold.%s!%d' % (op if pred is None else 'count', len(FOLDS)), sort, body, fv, op, pred, fp)
        FOLDS[key] = F
        FOLD_BY_DECL[F.g.name()] = F
    return FoldApp(FOLDS[key], ps)

def fold_mentions(t, prefix):
    """does t use a fold whose body mentions a constant of that prefix?"""
    seen = set()
    def has(e):
        if e.get_id() in seen: return False
        seen.add(e.get_id())
        if z3.is_quantifier(e): return has(e.body())
        if z3.is_const(e) and e.decl().name().startswith(prefix): return True
        return any(has(c) for c in e.children())
    seen2 = set()
    def go(e):
        if e.get_id() in seen2: return False
        seen2.add(e.get_id())
        if z3.is_quantifier(e): return go(e.body())
        if z3.is_app(e):
            F = FOLD_BY_DECL.get(e.decl().name())
            if F is not None and (has(F.body) or (F.pred is not None and has(F.pred))): return True
        return any(go(c) for c in e.children())
    return go(t)

def fold_axioms(F):
    """Facts about a fold that hold by induction (proved once, see lemmas.py)."""
    out = []
    a, b = z3.Int('fa'), z3.Int('fb'); ps = list(F.params)
    f = lambda x: F.g(x, *ps)
    if F.op == 'sum' and F.pred is not None:
        p = lambda t: F.p(t, ps)
        out.append(z3.ForAll([a] + ps, z3.Implies(a >= 0, z3.And(f(a) >= 0, f(a) <= a)), patterns=[f(a)]))
        out.append(z3.ForAll(ps, f(z3.IntVal(0)) == 0, patterns=[f(z3.IntVal(0))]) if ps else f(z3.IntVal(0)) == 0)
        out.append(z3.ForAll([a, b] + ps, z3.Implies(z3.And(0 <= a, a < b), z3.And(f(a) <= f(b), f(b) - f(a) <= b - a, z3.Implies(p(a), f(a) + 1 <= f(b)))), patterns=[z3.MultiPattern(f(a), f(b))]))
    if F.op == 'max0':
        out.append(z3.ForAll([a] + ps, f(a) >= 0, patterns=[f(a)]))
    return out

def _has_q(t):
    return z3.is_quantifier(t) or any(_has_q(c) for c in t.children())

def var_at(depth):
    return z3.Int('q%d' % depth)

# ------------------------------------------------------------------ state views
class Snap(object):
    """A state: heap arrays (missing key = never written, i.e. the initial array) and objects."""
    def __init__(self, ip, heap=None, mobj=None, alloc=None):
        self.ip = ip
        self.heap = dict(ip.heap if heap is None else heap)
        self.mobj = {k: dict(v) for k, v in (ip.mobj if mobj is None else mobj).items()}
        self.clists = {}
        self.alloc = ip.alloc if alloc is None else alloc
    def harr(self, key):
        if key in self.heap: return self.heap[key]
        ip = self.ip
        if key in ip.heap0: return ip.heap0[key]
        return ip.init_arr(key)
    def get(self, key, addr):
        return self.ip.sel(self.harr(key), addr)
    def __call__(self, x):
        return view(self, x)

def raw(x):
    if isinstance(x, (PObj, PMObj)): return x._ref
    if isinstance(x, PList): return x._l
    if isinstance(x, tuple): return tuple(raw(y) for y in x)
    return x

def view(st, x, overlay=None):
    if isinstance(x, PObj): return PObj(st, x._ref, overlay or x._ov)
    if isinstance(x, PMObj): return PMObj(st, x._ref)
    if isinstance(x, PList): return PList(st, x._l)
    return wrap(st, x)

def wrap(st, v):
    if isinstance(v, Ref): return PObj(st, v)
    if isinstance(v, (LRef, CList, SeqV, RangeV)): return PList(st, v)
    if isinstance(v, MObj): return PMObj(st, v)
    if isinstance(v, SV): return v.t
    if isinstance(v, tuple): return tuple(wrap(st, x) for x in v)
    if isinstance(v, MDict): return PDict(st, v)
    if isinstance(v, SetV): return PSet(st, v)
    return v

class PObj(object):
    def __init__(self, st, ref, ov=None):
        self.__dict__['_st'] = st; self.__dict__['_ref'] = ref; self.__dict__['_ov'] = ov
    @property
    def addr(self): return z3num(self._ref.addr)
    def __getattr__(self, a):
        if self._ov and a in self._ov: return wrap(self._st, self._ov[a])
        k = SCHEMA[self._ref.cls].get(a)
        if k is None: raise Skip('no attribute %s' % a)
        t = self._st.get(('f', self._ref.cls, a), self._ref.addr)
        return wrap(self._st, self._st.ip.of_kind(t, k))
    def __eq__(self, o): raise TypeError('use S.same')
    __hash__ = None

class OverlayOnly(object):
    """Candidate reading of a not yet existing result object: only the overlaid fields exist."""
    def __init__(self, st, ov): self._st = st; self._ov = ov
    def __getattr__(self, a):
        if a in self.__dict__.get('_ov', {}): return wrap(self._st, self._ov[a])
        raise Skip(a)

class PMObj(object):
    def __init__(self, st, ref):
        self.__dict__['_st'] = st; self.__dict__['_ref'] = ref
    def __getattr__(self, a):
        d = self._st.mobj.get(self._ref.oid)
        if d is None or a not in d: raise Skip('no attribute %s' % a)
        v = d[a]
        if isinstance(v, Poison): raise Skip(a)
        return wrap(self._st, v)
    def __len__(self): raise TypeError

class PList(object):
    """A list in a state; element access by term or int."""
    def __init__(self, st, l):
        self._st = st; self._l = l
        ip = st.ip
        self.addr = None; self.kind = None
        if isinstance(l, (SeqV, RangeV)):
            s = ip.seq(l); self.n = s.n; self._get = s.get; self.kind = s.kind; return
        if isinstance(l, CList):
            if l.lref is not None: l = l.lref
            else:
                items = list(l.items)
                self.n = len(items)
                def get(i):
                    if isinstance(i, int): return items[i]
                    i = z3.simplify(i)
                    if z3.is_int_value(i) and 0 <= i.as_long() < len(items): return items[i.as_long()]
                    if not items: raise Skip('empty')
                    return ip.sym_index(items, i)
                self._get = get
                return
        self.addr = z3num(l.addr); self.kind = l.kind
        self.n = st.get(('len', l.kind), l.addr)
        d = st.get(('data', l.kind), l.addr)
        self.data = d
        def get(i):
            return ip.of_kind(ip.sel(d, z3num(i)), l.kind)
        self._get = get
    def __getitem__(self, i):
        if isinstance(i, int) and i < 0: i = z3.simplify(self.n + i)
        return wrap(self._st, self._get(i))
    @property
    def events(self): raise Skip('events')

class PDict(object):
    def __init__(self, st, d): self._st = st; self._d = d
    def __getitem__(self, k):
        if k not in self._d.d: raise Skip('key %r' % (k,))
        return wrap(self._st, self._d.d[k])
    def has(self, k): return k in self._d.d
    def keys(self): return list(self._d.d.keys())

class PSet(object):
    def __init__(self, st, s): self._st = st; self._s = s

# ------------------------------------------------------------------ operators
def conj(xs):
    out = []
    for x in xs:
        if callable(x) and not z3.is_expr(x): x = x()
        if x is True: continue
        if x is False: return z3.BoolVal(False)
        out.append(x)
    if not out: return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)

def disj(xs):
    out = []
    for x in xs:
        if callable(x) and not z3.is_expr(x): x = x()
        if x is False: continue
        if x is True: return z3.BoolVal(True)
        out.append(x)
    if not out: return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(*out)

class SymS(object):
    concrete = False
    def __init__(self, ip):
        self.ip = ip; self.depth = 0; self.fdepth = 0; self.assuming = False; self.facts = []
        self.EVF = EVF

    @property
    def draws(self): return list(self.ip.draws)
    def items(self, x): return getattr(x, '__list__')
    def position(self, name, l):
        """a function giving the place of an object in the list l, if l lists no object twice (fixed at its first use on a path)"""
        ip = self.ip
        c = ip.__dict__.setdefault('poscache', {})
        if name not in c:
            f = z3.Function('pos!' + name, I, I); k, a, b = z3.Int('pk'), z3.Int('pa'), z3.Int('pb')
            d = z3.Const('posd!' + name, l.data.sort()); n = l.n
            ip.assume(d == l.data)
            dis = z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n), d[a] != d[b]), patterns=[z3.MultiPattern(d[a], d[b])])
            ip.assume(z3.Implies(dis, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f(d[k]) == k), patterns=[d[k]])))
            c[name] = f
        f = c[name]
        return lambda x: f(x.addr)

    # logic
    def And(self, *xs): return conj(xs)
    def Or(self, *xs): return disj(xs)
    def Not(self, x): return (not x) if isinstance(x, bool) else z3.Not(x)
    def Implies(self, a, b):
        if a is False: return True
        if callable(b) and not z3.is_expr(b): b = b()
        if a is True: return b
        if b is True: return True
        return z3.Implies(z3bool(a), z3bool(b))
    def Iff(self, a, b): return z3bool(a) == z3bool(b)
    def Ite(self, c, a, b):
        if callable(a) and not z3.is_expr(a): a = a()
        if callable(b) and not z3.is_expr(b): b = b()
        if isinstance(c, bool): return a if c else b
        if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and a.sort() == B):
            return z3.If(c, z3bool(a), z3bool(b))
        if (is_z(a) and a.sort() == V) or (is_z(b) and b.sort() == V) or isinstance(a, str) or a is None: return z3.If(c, to_V(a), to_V(b))
        ta, tb = z3num(a), z3num(b)
        if ta.sort() != tb.sort(): ta, tb = z3real(ta), z3real(tb)
        return z3.If(c, ta, tb)

    # values
    def eq(self, a, b):
        a = a.t if isinstance(a, SV) else a; b = b.t if isinstance(b, SV) else b
        if isinstance(a, (PObj,)) or isinstance(b, (PObj,)): raise TypeError('eq of objects')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return conj([self.eq(x, y) for x, y in zip(a, b)])
        if not is_z(a) and not is_z(b): return a == b
        for x, y in ((a, b), (b, a)):
            if is_z(x) and x.sort() == V:
                if is_z(y) and y.sort() == V: return x == y
                if is_num_const(y) or (is_z(y) and y.sort() in (I, R)):
                    return z3.Or(z3.And(V.is_VInt(x), z3.ToReal(V.iv(x)) == z3real(y)), z3.And(V.is_VReal(x), V.rv(x) == z3real(y)))
                return x == to_V(y)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None: return False
        if isinstance(a, bool) or isinstance(b, bool): return z3bool(a) == z3bool(b)
        return z3num(a) == z3num(b)
    def same(self, a, b):
        if a is None or b is None:
            x = a if b is None else b
            return self.is_none(x)
        if isinstance(a, PMObj) and isinstance(b, PMObj): return a._ref.oid == b._ref.oid
        if isinstance(a, PList) and isinstance(b, PList):
            if a.addr is None or b.addr is None: return a._l is b._l
            return a.addr == b.addr
        if isinstance(a, (PMObj, OverlayOnly)) or isinstance(b, (PMObj, OverlayOnly)): raise Skip('same')
        return a.addr == b.addr
    def is_none(self, x):
        if x is None: return True
        if isinstance(x, PObj): return (x.addr == 0) if x._ref.opt else False
        if isinstance(x, PList): return (x.addr == 0) if isinstance(x._l, LRef) and x._l.opt else False
        if is_z(x) and x.sort() == V: return x == V.VNone
        return False
    def lit(self, x): return to_V(x)
    def nonempty(self, x): return self.len(x) > 0
    def len(self, l):
        if isinstance(l, PList): return l.n
        if isinstance(l, tuple): return len(l)
        if isinstance(l, PSet): raise Skip('len of set')
        raise Skip('len of %r' % (l,))
    def floor(self, x):
        if not is_z(x):
            import math
            return math.floor(x)
        t = z3num(x)
        return t if t.sort() == I else floor_int(t)
    def ceil(self, x):
        if not is_z(x):
            import math
            return math.ceil(x)
        t = z3num(x)
        return t if t.sort() == I else ceil_int(t)
    def int(self, x):
        if not is_z(x): return int(x)
        t = z3num(x)
        return t if t.sort() == I else trunc_int(t)
    def real(self, x): return z3real(x)
    def mul(self, a, b): return a * b if not is_z(a) and not is_z(b) else real_mul(z3num(a), z3num(b))
    def abs(self, x): return abs(x) if not is_z(x) else z3.If(x >= 0, x, -x)
    def max(self, a, b): return self.Ite(a >= b, a, b)
    def min(self, a, b): return self.Ite(a <= b, a, b)
    def mod(self, a, b): return self.ip.mod(z3num(a), z3num(b)) if is_z(a) or is_z(b) else a % b
    def div(self, a, b): return Fraction(a) / Fraction(b) if not is_z(a) and not is_z(b) else real_div(z3num(a), z3num(b))
    def idiv(self, a, b): return self.ip.floordiv(z3num(a), z3num(b)) if is_z(a) or is_z(b) else a // b
    def is_int(self, x):
        if not is_z(x): return Fraction(x).denominator == 1
        return z3.ToReal(floor_int(z3real(x))) == z3real(x)
    def pow2(self, k): return pow2(k)

    # tags
    def tag_in(self, t, c): return v_in(to_V(t), to_V(c))
    def tag_len(self, c): return v_len(to_V(c))
    def tag_at(self, c, i): return v_at(to_V(c), z3num(i))
    def is_str(self, t): return V.is_VStr(to_V(t))
    def is_tuple(self, t): return V.is_VTup(to_V(t))
    def pred(self, f, x): return f.spec(x)
    def in_list(self, x, l):
        """membership of a value in a list of values"""
        return self.exists(self.len(l), lambda i: self.eq(l[i], x))

    # quantifiers over integers
    def forall(self, n, f): return self.forall_range(0, n, f)
    def forall_range(self, lo, hi, f):
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
            return conj([f(i) for i in range(lo, hi)])
        q = var_at(self.depth); self.depth += 1
        try: body = f(q)
        finally: self.depth -= 1
        if body is True: return True
        return z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi), z3bool(body)))
    def forall2(self, n, f):
        """for all 0 <= i < j < n"""
        if isinstance(n, int): return conj([f(i, j) for j in range(n) for i in range(j)])
        q = var_at(self.depth); r = var_at(self.depth + 1); self.depth += 2
        try: body = f(q, r)
        finally: self.depth -= 2
        return z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < n), z3bool(body)))
    def forall_int(self, f):
        q = var_at(self.depth); self.depth += 1
        try: body = f(q)
        finally: self.depth -= 1
        return z3.ForAll([q], z3bool(body))
    def forall_tag(self, f, dom=None):
        q = z3.Const('qv%d' % self.depth, V); self.depth += 1
        try: body = f(q)
        finally: self.depth -= 1
        return z3.ForAll([q], z3.Implies(AT_V(q), z3bool(body)), patterns=[AT_V(q)])
    def forall_real(self, f, dom=None):
        q = z3.Const('qr%d' % self.depth, R); self.depth += 1
        try: body = f(q)
        finally: self.depth -= 1
        # AT is an arbitrary predicate, there to give the quantifier a trigger: what is shown for every point
        # where AT holds is shown for AT = true
        return z3.ForAll([q], z3.Implies(AT_R(q), z3bool(body)), patterns=[AT_R(q)])
    def exists(self, n, f): return self.exists_range(0, n, f)
    def exists_range(self, lo, hi, f):
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
            return disj([f(i) for i in range(lo, hi)])
        q = var_at(self.depth); self.depth += 1
        try: body = f(q)
        finally: self.depth -= 1
        return z3.Exists([q], z3.And(q >= lo, q < hi, z3bool(body)))

    # folds
    def _body(self, f):
        k = z3.Int('fold_k%d' % self.fdepth)
        d = self.depth; self.fdepth += 1; self.depth = 100 * self.fdepth
        try: b = f(k)
        finally: self.depth = d; self.fdepth -= 1
        return k, b
    def count(self, n, p):
        if isinstance(n, int): return sum([z3.If(z3bool(p(i)), 1, 0) for i in range(n)]) if n else 0
        k, b = self._body(p)
        b = z3bool(b)
        F = fold(I, z3.If(b, z3.IntVal(1), z3.IntVal(0)), k, 'sum', b)
        return F.f(z3num(n))
    def count_at(self, p, i):
        k, b = self._body(p); b = z3bool(b)
        return fold(I, z3.If(b, z3.IntVal(1), z3.IntVal(0)), k, 'sum', b).f(z3num(i))
    def sum(self, n, f):
        if isinstance(n, int) and n <= 64:
            r = 0
            for i in range(n): r = r + f(i)
            return r
        k, b = self._body(f)
        b = z3num(b)
        return fold(b.sort(), b, k, 'sum').f(z3num(n))
    def max0(self, n, f):
        """max(0, f(0), ..., f(n-1))"""
        k, b = self._body(f)
        return fold(R, z3real(b), k, 'max0').f(z3num(n))

    # lists
    def filtered(self, res, src, pred, rel=None, n=None):
        """res lists, in order and related by rel, exactly the elements of src satisfying pred."""
        n = self.len(src) if n is None else n
        if rel is None:
            rel = lambda r, s: self.eq(r, s) if not isinstance(r, (PObj, PMObj)) else self.same(r, s)
        P = lambda i: pred(src[i])
        if isinstance(n, int) and n == 0: return self.eq(self.len(res), 0)
        out = [z3num(self.len(res)) == self.count_at(P, n),
               self.forall(n, lambda i: self.Implies(P(i), lambda: rel(res[self.count_at(P, i)], src[i])))]
        if getattr(self, 'assuming', False) and not isinstance(n, int): out.append(self.positions(res, src, pred, n))
        return conj(out)
    def positions(self, res, src, pred, n=None):
        """Consequence of `filtered` used when it is assumed: every position of res comes from one of src."""
        n = self.len(src) if n is None else n
        P = lambda i: pred(src[i])
        ix = z3.Function('pos!%s' % self.count_at(P, n).decl().name(), I, I)
        k = z3.Int('pk')
        r = res[k]
        pat = r.addr if isinstance(r, PObj) else r
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.len(res)),
                                         z3.And(ix(k) >= 0, ix(k) < n, z3bool(P(ix(k))), self.count_at(P, ix(k)) == k)), patterns=[pat])
    def mapped(self, res, src, rel, n=None):
        n = self.len(src) if n is None else n
        return conj([z3num(self.len(res)) == n, self.forall(n, lambda i: rel(res[i], src[i]))])
    def distinct(self, l, n=None):
        """No object occurs twice."""
        n = self.len(l) if n is None else n
        return self.forall2(n, lambda i, j: self.Not(self.same(l[i], l[j])))
    def distinct_vals(self, l, n=None):
        n = self.len(l) if n is None else n
        return self.forall2(n, lambda i, j: self.Not(self.eq(l[i], l[j])))
    def member(self, x, l):
        return self.exists(self.len(l), lambda i: self.same(l[i], x))
    def ascending(self, l, key, n=None):
        n = self.len(l) if n is None else n
        return self.forall2(n, lambda i, j: key(l[i]) <= key(l[j]))

    # numbers held as values, strings
    def is_intval(self, x): return V.is_VInt(to_V(x))
    def int_of(self, x): return V.iv(to_V(x))
    def cat(self, x, y): return s_cat(to_V(x), to_V(y))
    def str_of(self, x): return s_of(to_V(x))
    def tuple1(self, x): return mk_tuple((x,))
    def table(self, xs, i):
        r = to_V(xs[-1])
        for k in range(len(xs) - 2, -1, -1): r = z3.If(i == k, to_V(xs[k]), r)
        return r
    def is_event(self, o): return isinstance(o, PObj) and o._ref.cls.endswith('Event')
    # sets
    def in_set(self, x, s):
        q = var_at(self.depth); self.depth += 1
        try:
            g = wrap(s._st, s._s.get(q))
            body = self.eq(g, x)
        finally: self.depth -= 1
        return z3.Exists([q], z3.And(q >= 0, q < z3num(s._s.n), z3bool(body)))
    def forall_set(self, s, f):
        q = var_at(self.depth); self.depth += 1
        try: body = f(wrap(s._st, s._s.get(q)))
        finally: self.depth -= 1
        return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z3num(s._s.n)), z3bool(body)))
    # kinds of arguments
    def is_pred(self, x): return isinstance(x, PredV)
    def is_seq(self, x): return isinstance(x, (PList, LRef, CList, SeqV))
    def not_implemented(self, x): return isinstance(x, ExtV) and x.name == 'NotImplemented'

    # objects
    def fresh(self, x, old):
        if isinstance(x, PMObj): return x._ref.oid not in old.mobj
        if isinstance(x, OverlayOnly): raise Skip('fresh')
        if isinstance(x, PList) and x.addr is None: return True
        if isinstance(x, PObj) and x._ref.opt: return z3.Or(x.addr >= old.alloc)
        return x.addr >= old.alloc
    def same_fields(self, a, b, fields):
        return conj([self.eqv(getattr(a, f), getattr(b, f)) for f in fields])
    def eqv(self, a, b):
        if isinstance(a, (PObj, PList)) or isinstance(b, (PObj, PList)):
            return self.same(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return True
        return self.eq(a, b)

def distinct_count(ip, s, kind):
    """Number of distinct values of a sequence, as a fold: positions whose value did not occur before."""
    k = z3.Int('fold_k'); q = z3.Int('dq')
    t = lambda i: ip.coerce_noeff(s.get(i), kind)
    first = z3.Not(z3.Exists([q], z3.And(q >= 0, q < k, t(q) == t(k))))
    F = fold(I, z3.If(first, z3.IntVal(1), z3.IntVal(0)), k, 'sum', first)
    return F.f(z3num(s.n))

def sum_fold(ip, s):
    k = z3.Int('fold_k')
    b = z3num(s.get(k))
    return fold(b.sort(), b, k, 'sum').f(z3num(s.n))

_hqc = {}
def has_quant(t):
    k = t.get_id()
    if k not in _hqc: _hqc[k] = (z3.is_quantifier(t) or any(has_quant(c) for c in t.children()), t)
    return _hqc[k][0]

def is_cmp(t):
    if z3.is_not(t): t = t.arg(0)
    return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)
