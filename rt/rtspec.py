"""Concrete back end of the specification language (Python 2.7 / Jython)."""
from __future__ import division, print_function
import math
from fractions import Fraction

try: long
except NameError: long = int; unicode = str

class Broken(Exception):
    """The specification could not be evaluated on this result (wrong type, missing element ...)."""

PLAIN = (int, long, float, bool, str, unicode, type(None), Fraction, type(lambda: 0))

def is_obj(x):
    return hasattr(x, '__dict__') and not isinstance(x, (type, Fraction, type(lambda: 0))) and type(x).__module__.startswith('gsapi') and not isinstance(x, (list, tuple, dict))

class Snapshot(object):
    def __init__(self, roots):
        self.store = {}; self.keep = []
        for r in roots: self.walk(r)
    def walk(self, x):
        stack = [x]
        while stack:
            x = stack.pop()
            if isinstance(x, PLAIN): continue
            if id(x) in self.store: continue
            if isinstance(x, list):
                self.store[id(x)] = ('list', list(x), dict(getattr(x, '__dict__', {}))); self.keep.append(x); stack.extend(x); stack.extend(getattr(x, '__dict__', {}).values())
            elif isinstance(x, dict):
                self.store[id(x)] = ('dict', dict(x), None); self.keep.append(x); stack.extend(x.values())
            elif isinstance(x, (tuple, set, frozenset)):
                stack.extend(x)
            elif is_obj(x):
                self.store[id(x)] = ('obj', dict(x.__dict__), None); self.keep.append(x); stack.extend(x.__dict__.values())
    def __call__(self, x): return wrap(self, raw(x))
    def has(self, x): return id(raw(x)) in self.store

class Live(object):
    store = None
    def __call__(self, x): return wrap(self, raw(x))
    def has(self, x): return True
LIVE = Live()

def raw(x):
    if isinstance(x, View): return x._raw
    if isinstance(x, tuple): return tuple(raw(y) for y in x)
    return x

def wrap(st, x):
    if isinstance(x, View): x = x._raw
    if isinstance(x, PLAIN): return x
    if isinstance(x, list): return CList(st, x)
    if isinstance(x, dict): return CDict(st, x)
    if type(x) is tuple: return tuple(wrap(st, y) for y in x)
    if is_obj(x): return CObj(st, x)
    return x

class View(object):
    pass

class CObj(View):
    def __init__(self, st, x):
        self.__dict__['_st'] = st; self.__dict__['_raw'] = x
    def __getattr__(self, a):
        st, x = self.__dict__['_st'], self.__dict__['_raw']
        if st.store is not None and id(x) in st.store:
            d = st.store[id(x)][1]
            if a in d: return wrap(st, d[a])
        return wrap(st, getattr(x, a))
    def __repr__(self): return show(self._raw)

class CList(View):
    def __init__(self, st, x):
        self._st = st; self._raw = x
        self.items = st.store[id(x)][1] if st.store is not None and id(x) in st.store else x
    def __getitem__(self, i): return wrap(self._st, self.items[i])
    def __len__(self): return len(self.items)
    def __getattr__(self, a):
        if a.startswith('_') or a == 'items': raise AttributeError(a)
        st, x = self.__dict__['_st'], self.__dict__['_raw']
        if st.store is not None and id(x) in st.store and st.store[id(x)][2] is not None and a in st.store[id(x)][2]:
            return wrap(st, st.store[id(x)][2][a])
        return wrap(st, getattr(x, a))

class CDict(View):
    def __init__(self, st, x):
        self._st = st; self._raw = x
        self.d = st.store[id(x)][1] if st.store is not None and id(x) in st.store else x
    def __getitem__(self, k): return wrap(self._st, self.d[k])
    def has(self, k): return k in self.d
    def keys(self): return list(self.d.keys())

def val(b):
    return b() if callable(b) else b

class ConS(object):
    concrete = True
    EVF = ('startTime', 'duration', 'pitch', 'velocity', 'tag')
    def __init__(self): self.tagpool = []; self.realpool = []; self.draws = []
    def And(self, *xs):
        for x in xs:
            if not val(x): return False
        return True
    def Or(self, *xs):
        for x in xs:
            if val(x): return True
        return False
    def Not(self, x): return not x
    def Implies(self, a, b): return bool(val(b)) if a else True
    def Iff(self, a, b): return bool(a) == bool(b)
    def Ite(self, c, a, b): return val(a) if c else val(b)
    def eq(self, a, b):
        a, b = raw(a), raw(b)
        if isinstance(a, list) != isinstance(b, list): return False
        if type(a) is bool or type(b) is bool: return a is b or (type(a) is type(b) and a == b) or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b)
        return bool(a == b)
    def same(self, a, b): return raw(a) is raw(b)
    def is_none(self, x): return raw(x) is None
    def lit(self, x): return x
    def nonempty(self, l): return len(l) > 0
    def len(self, l):
        l2 = raw(l)
        if isinstance(l, View): return len(l)
        return len(l2)
    def floor(self, x): return int(math.floor(x))
    def ceil(self, x): return int(math.ceil(x))
    def int(self, x): return int(x)
    def real(self, x): return x
    def abs(self, x): return abs(x)
    def max(self, a, b): return a if a >= b else b
    def min(self, a, b): return a if a <= b else b
    def mod(self, a, b): return a % b
    def mul(self, a, b): return a * b
    def div(self, a, b): return Fraction(a) / Fraction(b) if isinstance(a, (int, long, Fraction)) and isinstance(b, (int, long, Fraction)) else a / b
    def idiv(self, a, b): return a // b
    def is_int(self, x): return x == math.floor(x)
    def pow2(self, k): return 2 ** k
    def tag_in(self, t, c):
        try: return raw(t) in raw(c)
        except TypeError: return False
    def tag_len(self, c): return len(c)
    def tag_at(self, c, i): return c[i]
    def is_str(self, t): return isinstance(t, (str, unicode))
    def is_tuple(self, t): return isinstance(t, tuple)
    def pred(self, f, x): return bool(f(raw(x)))
    def in_list(self, x, l): return any(self.eq(l[i], x) for i in range(len(l)))
    def forall(self, n, f): return all(f(i) for i in range(int(n)))
    def forall_range(self, lo, hi, f): return all(f(i) for i in range(int(lo), int(hi)))
    def forall2(self, n, f): return all(f(i, j) for j in range(int(n)) for i in range(j))
    def forall_int(self, f): return all(f(i) for i in range(-40, 130))
    def forall_tag(self, f, dom=None): return all(f(t) for t in self.tagpool)
    def forall_real(self, f, dom=None): return all(f(t) for t in (dom() if dom is not None else self.realpool))
    def exists(self, n, f): return any(f(i) for i in range(int(n)))
    def exists_range(self, lo, hi, f): return any(f(i) for i in range(int(lo), int(hi)))
    def count(self, n, p): return sum(1 for i in range(int(n)) if p(i))
    def count_at(self, p, i): return self.count(i, p)
    def sum(self, n, f):
        r = 0
        for i in range(int(n)): r = r + f(i)
        return r
    def max0(self, n, f): return max([0] + [f(i) for i in range(int(n))])
    def filtered(self, res, src, pred, rel=None, n=None):
        if rel is None: rel = lambda r, s: self.same(r, s) if isinstance(r, CObj) else self.eq(r, s)
        n = len(src) if n is None else int(n)
        want = [src[i] for i in range(n) if pred(src[i])]
        return len(res) == len(want) and all(rel(res[i], want[i]) for i in range(len(want)))
    def positions(self, *a, **k): return True
    def mapped(self, res, src, rel, n=None):
        n = len(src) if n is None else int(n)
        return len(res) == n and all(rel(res[i], src[i]) for i in range(n))
    def distinct(self, l, n=None):
        n = len(l) if n is None else int(n)
        return len(set(id(raw(l[i])) for i in range(n))) == n
    def distinct_vals(self, l, n=None): return self.forall2(len(l) if n is None else n, lambda i, j: not self.eq(l[i], l[j]))
    def member(self, x, l): return any(raw(l[i]) is raw(x) for i in range(len(l)))
    def ascending(self, l, key, n=None): return self.forall2(len(l) if n is None else n, lambda i, j: key(l[i]) <= key(l[j]))
    def is_intval(self, x): return isinstance(x, int) and not isinstance(x, bool)
    def int_of(self, x): return x
    def cat(self, x, y): return x + y
    def str_of(self, x): return str(x)
    def tuple1(self, x): return (x,)
    def table(self, xs, i): return xs[i]
    def in_set(self, x, s): return raw(x) in raw(s)
    def forall_set(self, s, f): return all(f(x) for x in raw(s))
    def is_pred(self, x): return callable(x)
    def items(self, x): return x
    def is_seq(self, x): return isinstance(raw(x), list)
    def not_implemented(self, x): return x is NotImplemented
    def fresh(self, x, old): return not old.has(x)
    def same_fields(self, a, b, fields): return all(self.eqv(getattr(a, f), getattr(b, f)) for f in fields)
    def eqv(self, a, b):
        if isinstance(a, View) or isinstance(b, View): return raw(a) is raw(b)
        return self.eq(a, b)

def show(x, depth=0, seen=None):
    seen = seen or set()
    if isinstance(x, View): x = raw(x)
    if isinstance(x, list): 
        s = '[' + ', '.join(show(y, depth + 1, seen) for y in x[:40]) + (', ...' if len(x) > 40 else '') + ']'
        d = getattr(x, '__dict__', None)
        return type(x).__name__ + s + (show_d(d, depth, seen) if d else '') if type(x) is not list else s
    if isinstance(x, tuple): return '(' + ', '.join(show(y, depth + 1, seen) for y in x) + (',)' if len(x) == 1 else ')')
    if isinstance(x, dict): return show_d(x, depth, seen)
    if is_obj(x):
        if id(x) in seen: return '<%s again>' % type(x).__name__
        seen = seen | set([id(x)])
        if depth > 4: return '<%s>' % type(x).__name__
        return '%s(%s)' % (type(x).__name__, ', '.join('%s=%s' % (k, show(v, depth + 1, seen)) for k, v in sorted(x.__dict__.items()) if not (v is None or v == {} and True)))
    if callable(x) and hasattr(x, 'desc'): return x.desc
    return repr(x)

def show_d(d, depth, seen):
    return '{' + ', '.join('%r: %s' % (k, show(v, depth + 1, seen)) for k, v in sorted(d.items(), key=lambda kv: repr(kv[0]))) + '}'
