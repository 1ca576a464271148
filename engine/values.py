"""Value and memory model of the verifier.

Python numbers are mathematical (unbounded integers, real numbers); constants are kept as
Python ints / Fractions / bools / strings / None, everything symbolic is a z3 term.
"""
from fractions import Fraction
import z3

I = z3.IntSort(); R = z3.RealSort(); B = z3.BoolSort()

# boxed hashable values (tags, names, dictionary keys ...)
_V = z3.Datatype('V')
_V.declare('VNone')
_V.declare('VStr', ('sid', I))
_V.declare('VInt', ('iv', I))
_V.declare('VReal', ('rv', R))
_V.declare('VBool', ('bv', B))
_V.declare('VTup', ('tid', I))
_V.declare('VOther', ('oid', I))
V = _V.create()

v_in = z3.Function('v_in', V, V, B)        # v_in(x, c): Python's "x in c"
v_len = z3.Function('v_len', V, I)         # len(c) of a string or tuple
v_at = z3.Function('v_at', V, I, V)        # c[i]
s_cat = z3.Function('s_cat', V, V, V)      # string concatenation
s_of = z3.Function('s_of', V, V)           # str(x)
pow2 = z3.Function('pow2', I, I)
log2 = z3.Function('log2', R, R)

class Unsupported(Exception):
    pass

class Restart(Exception):
    """The analysis learnt something (a list kind, a loop's write set); run again."""

class Infeasible(Exception):
    pass

class PathEnd(Exception):
    pass

class PyExc(Exception):
    def __init__(self, name, line, msg=''):
        Exception.__init__(self, name); self.name = name; self.line = line; self.msg = msg

# ---------------------------------------------------------------- strings
class Interner(object):
    def __init__(self):
        self.ids = {}; self.rev = {}
    def get(self, s):
        if s not in self.ids:
            n = len(self.ids) + 1
            self.ids[s] = n; self.rev[n] = s
        return self.ids[s]
STR = Interner()

def is_num_const(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)

def is_z(x):
    return isinstance(x, z3.ExprRef)

class SV(object):
    """A symbolic boxed value."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SV(%s)' % self.t

class Ref(object):
    """Reference to an object of a schema class (or None when addr == 0 and opt)."""
    __slots__ = ('cls', 'addr', 'opt')
    def __init__(self, cls, addr, opt=False):
        self.cls = cls; self.addr = addr; self.opt = opt
    def __repr__(self): return 'Ref(%s,%s)' % (self.cls, self.addr)

class LRef(object):
    """Reference to a list on the heap; kind is the element kind."""
    __slots__ = ('kind', 'addr', 'opt')
    def __init__(self, kind, addr, opt=False):
        self.kind = kind; self.addr = addr; self.opt = opt
    def __repr__(self): return 'LRef(%s,%s)' % (self.kind, self.addr)

class CList(object):
    """A list whose length is known; promoted to the heap when it stops being so."""
    def __init__(self, items, site, birth):
        self.items = items; self.site = site; self.lref = None; self.birth = birth
    def __repr__(self): return 'CList(%r)' % (self.items,)

class Site(object):
    """What has been learnt about the lists created at one place of the code."""
    def __init__(self): self.kind = None; self.heap = False

class MDict(object):
    """A dictionary with known keys."""
    def __init__(self, d, birth): self.d = d; self.birth = birth
    def __repr__(self): return 'MDict(%r)' % (self.d,)

class MObj(object):
    """An object of a class without schema; attributes live in the path state."""
    def __init__(self, cls, oid): self.cls = cls; self.oid = oid
    def __repr__(self): return 'MObj(%s#%d)' % (self.cls.name, self.oid)

class SetV(object):
    """A set, given as the members of a (snapshot of a) sequence: n, get(i) -> value."""
    def __init__(self, n, get, kind, key, card): self.n = n; self.get = get; self.kind = kind; self.key = key; self.card = card

class SeqV(object):
    """An immutable sequence given by length and element function."""
    def __init__(self, n, get, kind=None): self.n = n; self.get = get; self.kind = kind

class RangeV(object):
    def __init__(self, lo, hi, step=1, rev=False): self.lo = lo; self.hi = hi; self.step = step; self.rev = rev

class RevList(object):
    def __init__(self, l): self.l = l

class EnumV(object):
    def __init__(self, l, start): self.l = l; self.start = start

class Opaque(object):
    """A value nothing is known about and nothing may depend on (log strings ...)."""
    def __init__(self, what=''): self.what = what
    def __repr__(self): return 'Opaque(%s)' % self.what

class PredV(object):
    """An arbitrary pure predicate given by the caller."""
    def __init__(self, fn): self.fn = fn

class FuncV(object):
    def __init__(self, node, module, env=None, cls=None, name=None):
        self.node = node; self.module = module; self.env = env; self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')
    def qual(self):
        return '%s:%s%s' % (self.module.name, (self.cls.name + '.') if self.cls else '', self.name)
    def __repr__(self): return 'FuncV(%s)' % self.qual()

class BoundV(object):
    def __init__(self, self_, fn): self.self_ = self_; self.fn = fn

class BuiltinM(object):
    """Bound method of a builtin value."""
    def __init__(self, obj, name): self.obj = obj; self.name = name

class ClassV(object):
    def __init__(self, node, module): self.node = node; self.module = module; self.name = node.name
    def __repr__(self): return 'ClassV(%s)' % self.name

class BuiltinType(object):
    def __init__(self, name): self.name = name
    def __repr__(self): return 'type:' + self.name

class PropV(object):
    def __init__(self, fget, fset): self.fget = fget; self.fset = fset

class ModV(object):
    """A module of the repository."""
    def __init__(self, mod): self.mod = mod

class ExtV(object):
    """A dotted name outside the repository (math.floor, copy.deepcopy ...)."""
    def __init__(self, name): self.name = name
    def __repr__(self): return 'ExtV(%s)' % self.name

class LogV(object):
    pass

class Poison(object):
    def __init__(self, why): self.why = why

class SuperV(object):
    def __init__(self, cls, obj): self.cls = cls; self.obj = obj

# ---------------------------------------------------------------- kinds
def ksort(k):
    if k == 'int': return I
    if k == 'num': return R
    if k == 'bool': return B
    if k == 'V': return V
    if isinstance(k, tuple) and k[0] in ('ref', 'opt', 'list'): return I
    if k == 'any': return I
    raise Unsupported('no sort for kind %r' % (k,))

# schema: class -> field -> kind (classes whose objects live on the modelled heap)
SCHEMA = {
    'gspattern.Event': {
        'startTime': 'num', 'duration': 'num', 'pitch': 'int', 'velocity': 'int',
        'tag': 'V', 'originPattern': ('opt', 'gspattern.Pattern')},
    'gspattern.Pattern': {
        'duration': 'num', 'events': ('list', ('ref', 'gspattern.Event')), 'viewpoints': 'any',
        'bpm': 'num', 'timeSignature': 'V', 'key': 'V', 'originFilePath': 'V', 'name': 'V',
        'startTime': 'num', 'originPattern': ('opt', 'gspattern.Pattern'), 'resolution': 'int'},
    'midiio.AbstractEvent': {'tick': 'int'},
    'midiio.Track': {'tick_relative': 'bool', '__list__': ('list', ('ref', 'midiio.AbstractEvent'))},
    'midiio.Pattern': {'tick_relative': 'bool', 'resolution': 'int', 'frmt': 'int', '__list__': ('list', ('ref', 'midiio.Track'))},
}
# objects that are iterated over: the field holding the list
SEQ_FIELD = {'gspattern.Pattern': 'events', 'midiio.Track': '__list__', 'midiio.Pattern': '__list__'}
EV = ('ref', 'gspattern.Event')
PAT = ('ref', 'gspattern.Pattern')

def frac(x):
    return Fraction(x)

def z3num(x):
    """Constant or term -> z3 arithmetic term."""
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    if is_z(x):
        if x.sort() == B: return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    raise Unsupported('not a number: %r' % (x,))

def z3real(x):
    t = z3num(x)
    return z3.ToReal(t) if t.sort() == I else t

def z3bool(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x

def to_V(x):
    if isinstance(x, SV): return x.t
    if x is None: return V.VNone
    if isinstance(x, bool): return V.VBool(x)
    if isinstance(x, int): return V.VInt(x)
    if isinstance(x, Fraction):
        return V.VInt(int(x)) if x.denominator == 1 else V.VReal(z3.RealVal(str(x)))
    if isinstance(x, str): return V.VStr(STR.get(x))
    if isinstance(x, tuple):
        return mk_tuple(x)
    if is_z(x):
        s = x.sort()
        if s == V: return x
        if s == I: return V.VInt(x)
        if s == R: return V.VReal(x)
        if s == B: return V.VBool(x)
    if isinstance(x, Ref): return V.VOther(x.addr)
    raise Unsupported('cannot box %r' % (x,))

_tupf = {}
tup_proj = z3.Function('tup_proj', I, I, V)
tup_arity = z3.Function('tup_arity', I, I)
def tup_fn(n):
    if n not in _tupf:
        if n == 0: _tupf[n] = z3.Const('tup0', I)
        else: _tupf[n] = z3.Function('tup%d' % n, *([V] * n + [I]))
    return _tupf[n]

def mk_tuple(x):
    """A tuple of possibly symbolic parts: an injective constructor per arity."""
    n = len(x); f = tup_fn(n)
    return V.VTup(f(*[to_V(e) for e in x]) if n else f)

def tuple_axioms():
    """Definition of the tuple constructors (arity, projections, length, membership)."""
    out = []
    for n, f in sorted(_tupf.items()):
        xs = [z3.Const('tx%d' % k, V) for k in range(n)]
        y = z3.Const('ty', V)
        app = f(*xs) if n else f
        body = [tup_arity(app) == n, v_len(V.VTup(app)) == n]
        for k in range(n):
            body += [tup_proj(app, k) == xs[k], v_at(V.VTup(app), k) == xs[k]]
        fact = z3.And(*body)
        out.append(z3.ForAll(xs, fact, patterns=[app]) if n else fact)
        mem = v_in(y, V.VTup(app)) == z3.Or(*[y == a for a in xs])
        out.append(z3.ForAll(xs + [y], mem, patterns=[v_in(y, V.VTup(app))]))
    return out

def simp(t):
    return z3.simplify(t) if is_z(t) else t

def has_ite(t):
    """does the term contain what may not occur in a quantifier pattern?"""
    seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES): return True
            stack.extend(x.children())
    return False

def forall(vs, body, pats):
    """quantified fact with its patterns, or with none when a pattern is not admissible"""
    if not pats or any(has_ite(p) for p in pats): return z3.ForAll(vs, body)
    return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pats)] if len(pats) > 1 else pats)

def int_ratio(t):
    """(i, k) when the real term t is ToReal(i)/k with a positive integer constant k"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV:
        a, b = t.children()
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
            b = z3.simplify(b)
            if z3.is_rational_value(b) and b.denominator_as_long() == 1 and b.numerator_as_long() > 0: return a.arg(0), b.numerator_as_long()
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL: return t.arg(0), 1
    return None

FLR = z3.Function('flr', R, I)
FLR2 = z3.Function('flr_sum', R, I)      # floor again, of sums (kept apart so that the pair lemmas do not feed themselves)
def flr(t):
    """floor: an integer with flr(t) <= t < flr(t) + 1 (prove.background)"""
    c = _num(z3.simplify(t))
    if c is not None: return z3.IntVal(c.numerator // c.denominator)
    return FLR(t)

def floor_int(t):
    r = int_ratio(t)
    if r is not None: return r[0] if r[1] == 1 else r[0] / z3.IntVal(r[1])
    return flr(t)

def ceil_int(t):
    r = int_ratio(t)
    if r is not None: return r[0] if r[1] == 1 else -((-r[0]) / z3.IntVal(r[1]))
    return -flr(-t)

def trunc_int(t):
    r = int_ratio(t)
    if r is not None:
        if r[1] == 1: return r[0]
        return z3.If(r[0] >= 0, r[0] / z3.IntVal(r[1]), -((-r[0]) / z3.IntVal(r[1])))
    return z3.If(t >= 0, flr(t), -flr(-t))

# ---------------------------------------------------------------- real division
# a/s with a symbolic divisor is ratio(a, s), linear in a, with ratio(s, s) = 1 and ratio(a, s) * s = a for s != 0;
# so equal quotients are the same term and 1/(c*(1/s)) is s/c.
ratio = z3.Function('ratio', R, R, R)
ONE = z3.RealVal(1)

def _num(t):
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t): return Fraction(t.as_long())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL: return _num(t.arg(0))
    return None

def is_ratio(t): return z3.is_app(t) and t.decl().eq(ratio)

def _factors(t):
    """(Fraction coefficient, list of other factors) of a product"""
    c = _num(t)
    if c is not None: return c, []
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            c = Fraction(1); fs = []
            for x in t.children():
                c1, f1 = _factors(x); c *= c1; fs += f1
            return c, fs
        if k == z3.Z3_OP_UMINUS:
            c, f = _factors(t.arg(0)); return -c, f
        if k == z3.Z3_OP_DIV:
            b = _num(z3.simplify(t.arg(1)))
            if b is not None and b != 0:
                c, f = _factors(t.arg(0)); return c / b, f
    return Fraction(1), [t]

def _has_ratio(t):
    if is_ratio(t): return True
    return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV) and any(_has_ratio(c) for c in t.children())

def product(c, fs):
    r = None
    for f in fs: r = f if r is None else r * f
    if r is None: return z3.RealVal(str(c))
    return r if c == 1 else z3.RealVal(str(c)) * r

def by(t, s):
    """t / s"""
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD: return z3.Sum([by(x, s) for x in t.children()])
        if k == z3.Z3_OP_SUB:
            ch = [by(x, s) for x in t.children()]; r = ch[0]
            for x in ch[1:]: r = r - x
            return r
        if k == z3.Z3_OP_UMINUS: return -by(t.arg(0), s)
    c, fs = _factors(t)
    for i, f in enumerate(fs):
        if f.eq(s): return product(c, fs[:i] + fs[i + 1:])
    if not fs: return product(c, [ratio(ONE, s)])
    # a plain quotient 1/s' stays outside; the first factor goes under the bar
    for i, f in enumerate(fs):
        if not is_ratio(f): return product(c, fs[:i] + [ratio(f, s)] + fs[i + 1:])
    return product(c, fs + [ratio(ONE, s)])

def times(t, u):
    """t * u, u not a sum; quotients are kept in normal form"""
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD: return z3.Sum([times(x, u) for x in t.children()])
        if k == z3.Z3_OP_SUB:
            ch = [times(x, u) for x in t.children()]; r = ch[0]
            for x in ch[1:]: r = r - x
            return r
        if k == z3.Z3_OP_UMINUS: return -times(t.arg(0), u)
    c, fs = _factors(t); d, gs = _factors(u)
    c *= d
    for g in gs:
        for i, f in enumerate(fs):
            if is_ratio(f) and f.arg(1).eq(g):           # ratio(a, s) * s = a
                c1, f1 = _factors(f.arg(0)); c *= c1
                fs = fs[:i] + f1 + fs[i + 1:]; break
            if is_ratio(f) and f.arg(0).eq(ONE) and not is_ratio(g):   # (1/s) * g = ratio(g, s)
                fs = fs[:i] + [ratio(g, f.arg(1))] + fs[i + 1:]; break
            if is_ratio(g) and g.arg(0).eq(ONE) and not is_ratio(f):
                if f.eq(g.arg(1)): fs = fs[:i] + fs[i + 1:]
                else: fs = fs[:i] + [ratio(f, g.arg(1))] + fs[i + 1:]
                break
        else: fs = fs + [g]
    return product(c, fs)

def real_mul(a, b):
    if a.sort() == I and b.sort() == I: return a * b
    a, b = z3real(a), z3real(b)
    if not (_has_ratio(a) or _has_ratio(b)): return a * b
    if z3.is_app(b) and b.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return a * b
        a, b = b, a
    return times(a, b)

def real_div(a, b):
    bs = z3.simplify(b)
    if z3.is_int_value(bs) or z3.is_rational_value(bs): return z3real(a) / z3real(bs)
    a, b = z3real(a), z3real(b)
    if z3.is_app(b) and b.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return ratio(a, b)
    c, fb = _factors(b)
    r = a
    for f in fb:
        if is_ratio(f): r = times(times(r, f.arg(1)), ratio(ONE, f.arg(0)) if not f.arg(0).eq(ONE) else ONE)
        else: r = by(r, f)
    if c != 1: r = times(r, z3.RealVal(str(1 / c)))
    return r

def ratios(t, out=None, seen=None):
    out = {} if out is None else out; seen = set() if seen is None else seen
    if t.get_id() in seen: return out
    seen.add(t.get_id())
    if z3.is_app(t):
        if is_ratio(t): out[t.get_id()] = t
        for x in t.children(): ratios(x, out, seen)
    elif z3.is_quantifier(t): ratios(t.body(), out, seen)
    return out
