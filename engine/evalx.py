"""Expression and statement semantics."""
import ast
from fractions import Fraction
import z3
from .values import *
from .interp import *
from .bytestr import *

LOGNAMES = ('logging',)
PY_EXC = {'Exception', 'TypeError', 'ValueError', 'KeyError', 'IndexError', 'AttributeError', 'StopIteration',
          'NotImplementedError', 'IOError', 'AssertionError', 'ZeroDivisionError', 'Warning', 'RuntimeError', 'NameError', 'LookupError'}
BUILTIN_FUNCS = {'len', 'range', 'xrange', 'int', 'float', 'str', 'abs', 'min', 'max', 'sum', 'isinstance', 'list', 'tuple', 'set',
                 'sorted', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'any', 'all', 'print', 'callable', 'type', 'getattr',
                 'setattr', 'hasattr', 'chr', 'ord', 'iter', 'repr', 'round', 'dict', 'super', 'bool', 'cmp', 'unicode', 'next', 'object', 'frozenset', 'divmod', 'pow', 'id', 'property'}
TYPE_NAMES = {'list', 'tuple', 'int', 'float', 'str', 'dict', 'set', 'bool', 'unicode', 'object', 'frozenset'}

def is_num(v):
    return is_num_const(v) or isinstance(v, bool) or (is_z(v) and v.sort() in (I, R, B))

def pure_simple(n):
    if isinstance(n, (ast.Name, ast.Constant)): return True
    if isinstance(n, ast.Attribute): return pure_simple(n.value)
    if isinstance(n, ast.UnaryOp): return pure_simple(n.operand)
    if isinstance(n, ast.BinOp): return isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and pure_simple(n.left) and pure_simple(n.right)
    if isinstance(n, ast.Compare): return all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in n.ops) and pure_simple(n.left) and all(pure_simple(c) for c in n.comparators)
    if isinstance(n, ast.BoolOp): return all(pure_simple(v) for v in n.values)
    return False

class Ev(Interp):
    # ------------------------------------------------------------ names
    def lookup(self, name, env, node):
        e = env.find(name)
        if e is not None:
            v = e.vars[name]
            if isinstance(v, Poison): raise Unsupported('variable %s: %s' % (name, v.why))
            return v
        m = env.module
        if name in m.defs: return self.module_get(m, name)
        if name in TYPE_NAMES: return BuiltinType(name)
        if name in BUILTIN_FUNCS: return ExtV('builtin.' + name)
        if name in PY_EXC: return ExtV('exc.' + name)
        if name == 'NotImplemented': return ExtV('NotImplemented')
        if name == '__name__': return 'gsapi.' + m.name
        raise PyExc('NameError', node.lineno, name)

    def module_get(self, m, name):
        key = (m.name, name)
        kind, x = m.defs[name]
        if kind == 'func': return FuncV(x, m)
        if kind == 'class': return ClassV(x, m)
        if kind == 'import':
            mod, nm, lvl = x
            if lvl:
                if mod is None:
                    if nm in self.prog.mods: return ModV(self.prog.mods[nm])
                    raise Unsupported('import of %s' % nm)
                if mod in self.prog.mods:
                    mm = self.prog.mods[mod]
                    if nm in mm.defs: return self.module_get(mm, nm)
                raise Unsupported('import %s.%s' % (mod, nm))
            return ExtV(mod if nm is None else mod + '.' + nm)
        # module-level assignment: evaluated once per path (constants)
        if name.endswith('Log'): return LogV()
        ck = ('modconst', key)
        if ck not in self.setcache:
            saved = (self.loopstack, self.callstack)
            self.loopstack = []
            self.callstack = []
            try:
                env = Env(None, m)
                self.setcache[ck] = self.eval(x.value, env)
            finally:
                self.loopstack, self.callstack = saved
        return self.setcache[ck]

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression %s at line %d' % (type(n).__name__, getattr(n, 'lineno', 0)))
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')): raise Unsupported('float constant')
            return Fraction(repr(v)) if 'e' not in repr(v) else Fraction(v)
        if isinstance(v, bytes): return v.decode('latin-1')
        if v is Ellipsis: raise Unsupported('ellipsis')
        return v

    def e_Name(self, n, env): return self.lookup(n.id, env, n)

    def e_Tuple(self, n, env): return tuple(self.eval(e, env) for e in n.elts)

    def e_List(self, n, env):
        return self.new_list([self.eval(e, env) for e in n.elts], n)

    def e_Set(self, n, env):
        return self.mk_set(self.new_list([self.eval(e, env) for e in n.elts], n))

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            kk = self.eval(k, env)
            if not self.const_key(kk): raise Unsupported('dictionary literal with symbolic key')
            d[kk] = self.eval(v, env)
        o = MDict(d, self.order); self.order += 1
        return o

    def const_key(self, k):
        if isinstance(k, (str, int, Fraction, bool)) or k is None: return True
        return isinstance(k, tuple) and all(self.const_key(x) for x in k)

    def e_Lambda(self, n, env): return FuncV(n, env.module, env, name='<lambda>')

    def e_IfExp(self, n, env):
        c = self.truth(self.eval(n.test, env))
        if isinstance(c, bool): return self.eval(n.body if c else n.orelse, env)
        if pure_simple(n.body) and pure_simple(n.orelse):
            a = self.eval(n.body, env); b = self.eval(n.orelse, env)
            if is_num(a) and is_num(b):
                return self.ite(c, a, b)
        return self.eval(n.body if self.branch(c) else n.orelse, env)

    def ite(self, c, a, b):
        if isinstance(c, bool): return a if c else b
        ta, tb = z3num(a) if not isinstance(a, bool) else z3bool(a), z3num(b) if not isinstance(b, bool) else z3bool(b)
        if ta.sort() != tb.sort():
            if ta.sort() == B: ta = z3num(ta)
            if tb.sort() == B: tb = z3num(tb)
            if ta.sort() != tb.sort(): ta, tb = z3real(ta), z3real(tb)
        return z3.If(c, ta, tb)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        vals = n.values
        acc = None
        for idx, vn in enumerate(vals):
            v = self.eval(vn, env)
            last = idx == len(vals) - 1
            if acc is not None:
                # so far a z3 Bool `acc` combined purely
                t = self.truth(v)
                isb = isinstance(v, bool) or (is_z(v) and v.sort() == B)
                if isb:
                    acc = (z3.And if isand else z3.Or)(acc, z3bool(t)); v = acc
                    if last: return acc
                    if pure_simple(vals[idx + 1]): continue
                    acc = None
                else:
                    # mixed: fall back to splitting
                    if isand:
                        if not self.branch(acc): return False
                    else:
                        if self.branch(acc): return True
                    acc = None
            if last: return v
            t = self.truth(v)
            if isinstance(t, bool):
                if isand and not t: return v
                if not isand and t: return v
                continue
            if is_z(v) and v.sort() == B and pure_simple(vals[idx + 1]):
                acc = v; continue
            b = self.branch(t)
            if isand and not b: return v if not (is_z(v) and v.sort() == B) else False
            if not isand and b: return v if not (is_z(v) and v.sort() == B) else True
        return v

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(n.op, ast.USub):
            if isinstance(v, SV): v = self.unbox_num(v, n)
            return -v if not is_z(v) else -z3num(v)
        if isinstance(n.op, ast.UAdd): return v
        raise Unsupported('unary operator')

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env); b = self.eval(n.right, env)
        return self.binop(n.op, a, b, n)

    def unbox_num(self, v, n):
        t = v.t
        if self.branch(V.is_VInt(t)): return V.iv(t)
        if self.branch(V.is_VReal(t)): return V.rv(t)
        if self.branch(V.is_VBool(t)): return z3num(V.bv(t))
        raise PyExc('TypeError', getattr(n, 'lineno', 0), 'number expected')

    def binop(self, op, a, b, n):
        line = getattr(n, 'lineno', 0)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('op')
        if isinstance(op, ast.Mod) and isinstance(a, str) and isinstance(b, ByteS) and a.count('%') == 1 and a.count('%s') == 1:
            x, y = a.split('%s'); return ByteS(to_bytes(x).segs + b.segs + to_bytes(y).segs)
        if isinstance(op, ast.Mod) and (isinstance(a, str)): return self.format(a, b)
        if (isinstance(a, ByteS) and isinstance(b, (ByteS, str)) or isinstance(a, str) and isinstance(b, ByteS)) and isinstance(op, ast.Add):
            return ByteS(to_bytes(a).segs + to_bytes(b).segs)
        if isinstance(a, ByteS) and isinstance(op, ast.Mult) and isinstance(b, int): return ByteS(a.segs * b)
        if isinstance(a, (CList, LRef)) or isinstance(b, (CList, LRef)):
            if isinstance(op, ast.Add):
                r = self.new_list([], n)
                ia, ib = self.concrete_items(a), self.concrete_items(b)
                if ia is not None and ib is not None: return self.new_list(ia + ib, n)
                self.extend(r, a, n); self.extend(r, b, n)
                return r
            if isinstance(op, ast.Mult):
                lst, k = (a, b) if isinstance(a, (CList, LRef)) else (b, a)
                items = self.concrete_items(lst)
                if items is not None and isinstance(k, int): return self.new_list(items * k, n)
                if items is not None and len(items) == 1:
                    return self.rep_list(items[0], k, n)
            raise Unsupported('list operator at line %d' % line)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(op, ast.Mult) and isinstance(a, tuple) and isinstance(b, int): return a * b
            if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, CList): raise PyExc('TypeError', line, 'tuple + list')
            if isinstance(op, ast.Add) and (isinstance(a, SV) or isinstance(b, SV)):
                f = z3.Function('tup_cat', V, V, V)
                return SV(f(to_V(a), to_V(b)))
            raise Unsupported('tuple operator at line %d' % line)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add):
                if isinstance(a, str) and isinstance(b, str): return a + b
                if (isinstance(a, str) or isinstance(a, SV)) and (isinstance(b, str) or isinstance(b, SV)):
                    for x in (a, b):
                        if isinstance(x, SV): self.require(V.is_VStr(x.t), 'TypeError', line, 'string expected')
                    r = s_cat(to_V(a), to_V(b)); self.assume(V.is_VStr(r))
                    return SV(r)
                raise PyExc('TypeError', line, 'string + other')
            if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, int): return a * b
            raise Unsupported('string operator at line %d' % line)
        if isinstance(a, SV) and isinstance(b, SV) and isinstance(op, ast.Add):
            if self.branch(z3.And(V.is_VStr(a.t), V.is_VStr(b.t))):
                r = s_cat(a.t, b.t); self.assume(V.is_VStr(r)); return SV(r)
            if self.branch(z3.And(V.is_VTup(a.t), V.is_VTup(b.t))):
                f = z3.Function('tup_cat', V, V, V); return SV(f(a.t, b.t))
        if isinstance(a, SV): a = self.unbox_num(a, n)
        if isinstance(b, SV): b = self.unbox_num(b, n)
        if a is None or b is None: raise PyExc('TypeError', line, 'arithmetic on None')
        if not is_num(a) or not is_num(b): raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))
        if not is_z(a) and not is_z(b): return self.const_op(op, a, b, line)
        ta, tb = z3num(a), z3num(b)
        if isinstance(op, ast.Add): return ta + tb
        if isinstance(op, ast.Sub): return ta - tb
        if isinstance(op, ast.Mult): return self.mul(ta, tb)
        if isinstance(op, ast.Div):
            self.require(tb != 0, 'ZeroDivisionError', line)
            return self.div(ta, tb)
        if isinstance(op, ast.FloorDiv):
            self.require(tb != 0, 'ZeroDivisionError', line)
            return self.floordiv(ta, tb)
        if isinstance(op, ast.Mod):
            self.require(tb != 0, 'ZeroDivisionError', line)
            return self.mod(ta, tb)
        if isinstance(op, ast.Pow):
            if not is_z(a) and a == 2 and tb.sort() == I:
                self.assume(z3.Implies(tb >= 0, pow2(tb) >= 1))
                return pow2(tb)
            if isinstance(b, int) and b == 2: return self.mul(ta, ta)
            raise Unsupported('power')
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.LShift, ast.RShift, ast.BitXor)): return self.bitop(op, a, b, line)
        raise Unsupported('operator %s' % type(op).__name__)

    def const_op(self, op, a, b, line):
        try:
            if isinstance(op, ast.Add): return a + b
            if isinstance(op, ast.Sub): return a - b
            if isinstance(op, ast.Mult): return a * b
            if isinstance(op, ast.Div): return Fraction(a) / Fraction(b)
            if isinstance(op, ast.FloorDiv): return a // b
            if isinstance(op, ast.Mod): return a % b
            if isinstance(op, ast.Pow):
                if isinstance(b, int) and abs(b) < 200: return a ** b if b >= 0 else Fraction(a) ** b
            if isinstance(op, ast.BitAnd): return a & b
            if isinstance(op, ast.BitOr): return a | b
            if isinstance(op, ast.BitXor): return a ^ b
            if isinstance(op, ast.LShift): return a << b
            if isinstance(op, ast.RShift): return a >> b
        except ZeroDivisionError:
            raise PyExc('ZeroDivisionError', line)
        raise Unsupported('operator on constants')

    def mul(self, a, b):
        return real_mul(a, b)

    def div(self, a, b):
        r = real_div(a, b)
        return r

    def floordiv(self, a, b):
        if a.sort() == I and b.sort() == I:
            bs = z3.simplify(b)
            if z3.is_int_value(bs):
                k = bs.as_long()
                if k > 0: return a / bs
                return (-a) / z3.IntVal(-k)
            return floor_int(real_div(a, b))
        return z3.ToReal(floor_int(real_div(a, b)))

    def mod(self, a, b):
        if a.sort() == I and b.sort() == I:
            bs = z3.simplify(b)
            if z3.is_int_value(bs) and bs.as_long() > 0: return a % bs
            return a - b * floor_int(real_div(a, b))
        ra, rb = z3real(a), z3real(b)
        return ra - self.mul(z3.ToReal(floor_int(self.div(ra, rb))), rb)

    def prove_now(self, goal):
        s = self.A.quick()
        for p in self.qf: s.add(p)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def bitop(self, op, a, b, line):
        for x in (a, b):
            if isinstance(x, Fraction) or (is_z(x) and x.sort() == R): raise PyExc('TypeError', line, 'bit operation on float')
        ta, tb = z3num(a), z3num(b)
        if isinstance(op, ast.LShift):
            if isinstance(b, int) and b >= 0: return ta * (1 << b)
            raise Unsupported('shift by a symbolic amount')
        if isinstance(op, ast.RShift):
            if isinstance(b, int) and b >= 0: return ta / (1 << b)
            raise Unsupported('shift by a symbolic amount')
        if isinstance(op, ast.BitAnd):
            x, m = (ta, b) if isinstance(b, int) else (tb, a)
            if isinstance(m, int) and m >= 0:
                # contiguous masks
                if m == 0: return 0
                lo = (m & -m).bit_length() - 1
                mm = m >> lo
                if mm & (mm + 1) == 0:
                    r = x % z3.IntVal(m + (1 << lo))
                    if lo: r = r - (x % z3.IntVal(1 << lo))
                    return r
            raise Unsupported('bit and')
        if isinstance(op, ast.BitOr):
            for x, y in ((ta, tb), (tb, ta)):
                ys = z3.simplify(y)
                for k in ([((ys.as_long() & -ys.as_long()).bit_length() - 1)] if z3.is_int_value(ys) and ys.as_long() > 0 else [7, 4, 8, 14, 16]):
                    if k <= 0: continue
                    m = z3.IntVal(1 << k)
                    if self.prove_now(z3.And(x >= 0, x < m, y % m == 0)): return x + y
            raise Unsupported('bit or at line %d' % line)
        raise Unsupported('bit operation')

    def rep_list(self, item, k, n):
        st = self.site(n)
        kind = self.kind_of(item)
        if st.kind is None: st.kind = kind
        st.heap = True
        kind = st.kind
        c = CList([], st, self.order); self.order += 1
        a = self.new_addr()
        t = self.coerce(item, kind)
        nn = z3num(k)
        self.hset(('len', kind), a, z3.If(nn > 0, nn, z3.IntVal(0)))
        self.hset(('data', kind), a, z3.K(I, t))
        c.lref = LRef(kind, a); c.items = None
        return c

    def format(self, fmt, args):
        if isinstance(args, (str, int)) and not isinstance(args, bool): args = (args,)
        if isinstance(args, tuple) and all(isinstance(x, (str, int)) for x in args):
            try: return fmt % args
            except Exception: pass
        parts = args if isinstance(args, tuple) else (args,)
        for p in parts:
            if isinstance(p, (Opaque, Ref, LRef, CList, MObj)): return Opaque('str')
        try:
            ts = [to_V(p) for p in parts]
        except Unsupported:
            return Opaque('str')
        f = z3.Function('fmt_%d_%d' % (STR.get(fmt), len(ts)), *([V] * len(ts) + [V]))
        r = f(*ts); self.assume(V.is_VStr(r))
        return SV(r)

    def e_JoinedStr(self, n, env): return Opaque('str')

    # ---- comparisons
    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for k, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(rn, env)
            c = self.compare(op, left, right, n)
            if res is None: res = c
            else: res = self.band(res, c)
            left = right
            if k < len(n.ops) - 1 and not pure_simple(n.comparators[k + 1]):
                t = self.truth(res)
                if not self.branch(t): return False
                res = None
        if res is None: return True
        return res

    def band(self, a, b):
        if a is True: return b
        if b is True: return a
        if a is False or b is False: return False
        return z3.And(z3bool(a), z3bool(b))

    def compare(self, op, a, b, n):
        line = getattr(n, 'lineno', 0)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b, n)
            if isinstance(r, ExtV): return r
            if isinstance(op, ast.Eq): return r
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            if isinstance(op, ast.Is): return r
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, n)
            if isinstance(op, ast.In): return r
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(a, SV): a = self.unbox_num(a, n)
        if isinstance(b, SV): b = self.unbox_num(b, n)
        if isinstance(a, str) and isinstance(b, str) or (isinstance(a, tuple) and isinstance(b, tuple)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[type(op).__name__]
        # Python 2 orders None before every number
        if a is None and b is None: return type(op).__name__ in ('LtE', 'GtE')
        if a is None and is_num(b): return type(op).__name__ in ('Lt', 'LtE')
        if b is None and is_num(a): return type(op).__name__ in ('Gt', 'GtE')
        if not is_num(a) or not is_num(b): raise Unsupported('comparison of %r and %r at line %d' % (a, b, line))
        if is_z(a) or is_z(b): a, b = z3num(a), z3num(b)
        if isinstance(op, ast.Lt): return a < b
        if isinstance(op, ast.LtE): return a <= b
        if isinstance(op, ast.Gt): return a > b
        if isinstance(op, ast.GtE): return a >= b
        raise Unsupported('comparison')

    def is_(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if x is None: return True
            if isinstance(x, (Ref, LRef)): return (x.addr == 0) if x.opt else False
            if isinstance(x, SV): return x.t == V.VNone
            return False
        if isinstance(a, Ref) and isinstance(b, Ref): return a.addr == b.addr if a.cls == b.cls else False
        if isinstance(a, (LRef, CList)) and isinstance(b, (LRef, CList)):
            if isinstance(a, CList) and isinstance(b, CList) and (a.lref is None or b.lref is None): return a is b
            return self.as_l(a).addr == self.as_l(b).addr
        if isinstance(a, ExtV) and isinstance(b, ExtV): return a.name == b.name
        if isinstance(a, ExtV) or isinstance(b, ExtV): return False
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if isinstance(b, bool) and is_z(a) and a.sort() == B: return a if b else z3.Not(a)
        if isinstance(b, bool) and isinstance(a, SV): return a.t == V.VBool(b)
        if isinstance(a, MObj) and isinstance(b, MObj): return a.oid == b.oid
        if isinstance(a, str) and isinstance(b, str): return a == b     # interned literals
        if isinstance(a, SV) and isinstance(b, str): return a.t == to_V(b)
        if isinstance(a, ClassV) and isinstance(b, ClassV): return a.name == b.name
        if isinstance(a, BuiltinType) and isinstance(b, BuiltinType): return a.name == b.name
        raise Unsupported('identity of %r and %r' % (a, b))

    def eq(self, a, b, n=None):
        if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported('equality of unknown values')
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Ref) and a.opt:
                if b is None: return a.addr == 0
            if isinstance(b, Ref) and b.opt:
                if a is None: return b.addr == 0
            if isinstance(a, Ref):
                r = self.call_method_if(a, '__eq__', [b], n)
                if not (isinstance(r, ExtV) and r.name == 'NotImplemented'): return r
            if isinstance(b, Ref):
                r = self.call_method_if(b, '__eq__', [a], n)
                if not (isinstance(r, ExtV) and r.name == 'NotImplemented'): return r
            return self.is_(a, b) if isinstance(a, Ref) and isinstance(b, Ref) else False
        if isinstance(a, ExtV) and isinstance(b, ExtV): return a.name == b.name
        if isinstance(a, ByteS) or isinstance(b, ByteS):
            if not isinstance(a, (ByteS, str)) or not isinstance(b, (ByteS, str)): return False
            a, b = to_bytes(a), to_bytes(b)
            if not a.known() or not b.known(): raise Unsupported('equality of byte strings')
            return self.eq(tuple(a.b), tuple(b.b), n)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            r = True
            for x, y in zip(a, b): r = self.band(r, self.eq(x, y, n))
            return r
        if isinstance(a, BuiltinType) and isinstance(b, BuiltinType): return a.name == b.name
        if isinstance(a, BuiltinType) or isinstance(b, BuiltinType): return False
        if isinstance(a, ClassV) and isinstance(b, ClassV): return a.name == b.name
        if isinstance(a, (CList, LRef)) or isinstance(b, (CList, LRef)):
            if isinstance(a, (CList, LRef)) and isinstance(b, (CList, LRef)):
                ia, ib = self.concrete_items(a), self.concrete_items(b)
                if ia is not None and ib is not None: return self.eq(tuple(ia), tuple(ib), n)
                if ia == [] : return self.lenof(self.as_l(b)) == 0
                if ib == [] : return self.lenof(self.as_l(a)) == 0
                return self.list_eq(self.as_l(a), self.as_l(b), n)
            if isinstance(a, SV) or isinstance(b, SV): return False       # a list is never equal to a hashable value
            return False
        if isinstance(a, MDict) and isinstance(b, MDict) and (not a.d or not b.d): return len(a.d) == len(b.d)
        if is_num(a) and is_num(b):
            if not is_z(a) and not is_z(b): return a == b
            if (isinstance(a, bool) or (is_z(a) and a.sort() == B)) and (isinstance(b, bool) or (is_z(b) and b.sort() == B)):
                return z3bool(a) == z3bool(b)
            return z3num(a) == z3num(b)
        if isinstance(a, SV) or isinstance(b, SV):
            if isinstance(a, (MObj, MDict, FuncV, ClassV)) or isinstance(b, (MObj, MDict, FuncV, ClassV)): raise Unsupported('equality')
            if isinstance(a, SV) and isinstance(b, SV): return a.t == b.t
            x, y = (a, b) if isinstance(a, SV) else (b, a)
            if is_num(y):
                t = x.t
                if not is_z(y) or y.sort() != B:
                    return z3.Or(z3.And(V.is_VInt(t), z3.ToReal(V.iv(t)) == z3real(y)), z3.And(V.is_VReal(t), V.rv(t) == z3real(y)))
            return x.t == to_V(y)
        if isinstance(a, MObj):
            r = self.call_method_if(a, '__eq__', [b], n)
            if r is not None: return r
            return a.oid == b.oid if isinstance(b, MObj) else False
        if a is None or b is None: return a is None and b is None
        if isinstance(a, str) or isinstance(b, str):
            return a == b if isinstance(a, str) and isinstance(b, str) else False
        if is_num(a) != is_num(b): return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def list_eq(self, a, b, n):
        """Element-wise equality of two lists of events / values."""
        na, nb = self.lenof(a), self.lenof(b)
        j = z3.Int('leq')
        if a.kind != b.kind: raise Unsupported('list equality across kinds')
        x, y = self.getitem(a, j), self.getitem(b, j)
        if isinstance(a.kind, tuple) and a.kind[0] == 'ref':
            # element equality is the class's own __eq__, inlined under a quantifier: only branch-free code
            e = self.pure_eval(lambda: self.eq(x, y, n))
        else: e = self.eq(x, y, n)
        return z3.And(na == nb, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < na), z3bool(e))))

    def pure_eval(self, f):
        """Evaluate f without adding assumptions; fails if it needs a decision."""
        pc, qf, pos = list(self.pc), list(self.qf), self.pos
        r = f()
        if self.pos != pos: raise Unsupported('decision under a quantifier')
        self.pc, self.qf = pc, qf
        return r

    def contains(self, x, c, n):
        line = getattr(n, 'lineno', 0)
        if isinstance(c, str):
            if isinstance(x, str): return x in c
            if isinstance(x, SV):
                self.require(V.is_VStr(x.t), 'TypeError', line, 'in <string> requires string')
                return v_in(x.t, to_V(c))
            raise PyExc('TypeError', line, 'in <string> requires string as left operand')
        if isinstance(c, tuple) or (isinstance(c, CList) and c.lref is None):
            items = list(c) if isinstance(c, tuple) else c.items
            r = False
            for it in items:
                e = self.eq(x, it, n)
                if e is True: return True
                if e is False: continue
                r = e if r is False else z3.Or(r, e)
            return r
        if isinstance(c, SV):
            if isinstance(x, (str, SV, tuple)) or is_num(x) or x is None:
                xv = to_V(x)
                self.require(z3.Or(V.is_VTup(c.t), z3.And(V.is_VStr(c.t), V.is_VStr(xv))), 'TypeError', line, 'in <string> requires string')
                return v_in(xv, c.t)
            raise Unsupported('membership of %r in a tag' % (x,))
        if isinstance(c, (LRef, CList)):
            l = self.as_l(c)
            j = z3.Int('in%d' % self.depth_id())
            it = self.getitem(l, j)
            e = self.pure_eval(lambda: self.eq(it, x, n))
            return z3.Exists([j], z3.And(j >= 0, j < self.lenof(l), z3bool(e)))
        if isinstance(c, SetV):
            j = z3.Int('in%d' % self.depth_id())
            cn = c.n
            if isinstance(cn, int):
                r = False
                for k in range(cn):
                    e = self.eq(c.get(k), x, n)
                    r = True if e is True else (r if e is False else (e if r is False else z3.Or(z3bool(r), e)))
                return r
            e = self.pure_eval(lambda: self.eq(c.get(j), x, n))
            return z3.Exists([j], z3.And(j >= 0, j < cn, z3bool(e)))
        if isinstance(c, MDict):
            if self.const_key(x): return x in c.d
            r = False
            for k in c.d:
                e = self.eq(x, k, n)
                r = e if r is False else (r if e is False else z3.Or(z3bool(r), z3bool(e)))
            return r
        if isinstance(c, RangeV) and is_num(x):
            return z3.And(z3num(x) >= z3num(c.lo), z3num(x) < z3num(c.hi))
        if isinstance(c, SeqV) and isinstance(c.n, int):
            return self.contains(x, tuple(c.get(k) for k in range(c.n)), n)
        raise Unsupported('membership in %r at line %d' % (c, line))

    def depth_id(self):
        self._did = getattr(self, '_did', 0) + 1
        return self._did

    # ---- subscripts
    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        if isinstance(n.slice, ast.Slice):
            return self.slice(o, n.slice, env, n)
        k = self.eval(n.slice, env)
        return self.subscript(o, k, n)

    def subscript(self, o, k, n):
        line = n.lineno
        if isinstance(o, (tuple, str)) or (isinstance(o, CList) and o.lref is None):
            items = o if isinstance(o, (tuple, str)) else o.items
            if isinstance(k, Fraction) and k.denominator == 1: raise PyExc('TypeError', line, 'float index')
            if isinstance(k, bool): k = int(k)
            if isinstance(k, int):
                if not -len(items) <= k < len(items): raise PyExc('IndexError', line, 'index %d of %d' % (k, len(items)))
                return items[k]
            if is_z(k) and k.sort() == I:
                nn = len(items)
                self.require(z3.And(k >= -nn, k < nn), 'IndexError', line)
                if nn == 0: raise PyExc('IndexError', line)
                try:
                    kk = z3.If(k < 0, k + nn, k) if not self.prove_now(k >= 0) else k
                    return self.sym_index(list(items), kk)
                except Unsupported:
                    for j in range(nn):
                        if self.branch(kk == j): return items[j]
                    raise Infeasible()
            if is_z(k) and k.sort() == R: raise PyExc('TypeError', line, 'float index')
            raise Unsupported('index %r' % (k,))
        if isinstance(o, (LRef, CList)):
            l = self.as_l(o)
            if isinstance(k, SV): k = self.unbox_num(k, n)
            if isinstance(k, Fraction) or (is_z(k) and k.sort() == R): raise PyExc('TypeError', line, 'float index')
            if not is_num(k): raise Unsupported('list index %r' % (k,))
            ln = self.lenof(l)
            idx = self.norm_index(k, ln, line)
            v = self.getitem(l, idx)
            self.elem_facts(l, idx, v)
            return v
        if isinstance(o, MDict):
            if self.const_key(k):
                if k in o.d: return o.d[k]
                raise PyExc('KeyError', line, repr(k))
            # symbolic key over known keys
            conds = [(kk, self.eq(k, kk, n)) for kk in o.d]
            live = [(kk, c) for kk, c in conds if c is not False]
            self.require(z3.Or(*[z3bool(c) for _, c in live]) if live else False, 'KeyError', line)
            vals = [o.d[kk] for kk, _ in live]
            try:
                ks = self.kind_of(vals[0])
                for v in vals[1:]: ks = self.join_kind(ks, self.kind_of(v))
                t = self.coerce(vals[-1], ks)
                for (kk, c), v in list(zip(live, vals))[-2::-1]:
                    t = z3.If(z3bool(c), self.coerce(v, ks), t)
                return self.of_kind(t, ks)
            except Unsupported:
                for kk, c in live:
                    if self.branch(c): return o.d[kk]
                raise Infeasible()
        if isinstance(o, SV):
            if is_num(k) and not isinstance(k, Fraction):
                self.require(z3.Or(V.is_VStr(o.t), V.is_VTup(o.t)), 'TypeError', line)
                kk = self.norm_index(k, v_len(o.t), line)
                return SV(v_at(o.t, kk))
            raise Unsupported('subscript of a boxed value')
        if isinstance(o, (Ref, MObj)):
            if isinstance(o, Ref) and o.opt: self.require(o.addr != 0, 'TypeError', line)
            r = self.call_method_if(o, '__getitem__', [k], n)
            if r is not None: return r
        if isinstance(o, SeqV):
            idx = self.norm_index(k, z3num(o.n), line)
            return o.get(idx)
        if o is None: raise PyExc('TypeError', line, 'None is not subscriptable')
        raise Unsupported('subscript of %r at line %d' % (o, line))

    def norm_index(self, k, ln, line):
        if isinstance(k, bool): k = int(k)
        if isinstance(k, int):
            if k >= 0:
                self.require(ln > k, 'IndexError', line)
                return z3.IntVal(k)
            self.require(ln >= -k, 'IndexError', line)
            return z3.simplify(ln + k)
        k = z3num(k)
        if self.prove_now(k >= 0):
            self.require(k < ln, 'IndexError', line)
            return k
        self.require(z3.And(k < ln, k >= -ln), 'IndexError', line)
        return z3.If(k < 0, k + ln, k)

    def slice(self, o, sl, env, n, lazy=False):
        lo = self.eval(sl.lower, env) if sl.lower else None
        hi = self.eval(sl.upper, env) if sl.upper else None
        st = self.eval(sl.step, env) if sl.step else None
        items = self.concrete_items(o) if not isinstance(o, (MDict, RangeV)) else None
        if items is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            r = items[slice(lo, hi, st)]
            if isinstance(o, tuple): return tuple(r)
            if isinstance(o, str): return ''.join(r)
            return self.new_list(r, n)
        if st is not None: raise Unsupported('slice with a step')
        if isinstance(o, (LRef, CList)):
            s = self.seq(o); ln = z3num(s.n)
            def clamp(x, dflt):
                if x is None: return dflt
                x = z3num(x)
                if x.sort() != I: raise PyExc('TypeError', n.lineno, 'slice index')
                x = z3.If(x < 0, x + ln, x)
                return z3.If(x < 0, z3.IntVal(0), z3.If(x > ln, ln, x))
            a = z3.simplify(clamp(lo, z3.IntVal(0))); b = z3.simplify(clamp(hi, ln))
            m = z3.If(b > a, b - a, z3.IntVal(0)); get = (lambda i: s.get(i)) if z3.is_int_value(a) and a.as_long() == 0 else (lambda i: s.get(a + i))
            if lazy:
                l0, h0 = (z3.IntVal(0) if lo is None else z3num(lo)), (ln if hi is None else z3num(hi))
                if self.prove_now(z3.And(l0 >= 0, h0 >= l0, h0 <= ln)): return SeqV(z3.simplify(h0 - l0), (lambda i: s.get(i)) if lo in (None, 0) else (lambda i: s.get(l0 + i)), s.kind)
                return SeqV(m, get, s.kind)
            r = CList([], self.site(n), self.order); self.order += 1
            if r.site.kind is None: r.site.kind = s.kind
            r.site.heap = True
            self.promote(r, r.site.kind)
            self.extend(r, SeqV(m, get, s.kind), n)
            return r
        if isinstance(o, SV):
            f = z3.Function('v_slice', V, I, I, V)
            if lo is None and isinstance(hi, int):
                r = f(o.t, z3.IntVal(0), z3.IntVal(hi)); self.assume(V.is_VStr(r) == V.is_VStr(o.t)); return SV(r)
        raise Unsupported('slice at line %d' % n.lineno)

    # ---- attributes
    def e_Attribute(self, n, env):
        o = self.eval(n.value, env)
        return self.getattr(o, n.attr, n, env)

    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__'):
            e = env
            while e is not None:
                if e.fn is not None and e.fn.cls is not None: return name
                e = e.parent
        return name

    def getattr(self, o, a, n, env=None):
        line = getattr(n, 'lineno', 0)
        if isinstance(o, Ref):
            if o.opt:
                self.require(o.addr != 0, 'AttributeError', line, 'None has no attribute ' + a)
                o = Ref(o.cls, o.addr)
            if a in SCHEMA[o.cls]: return self.load(o, a)
            if a == '__class__': return self.class_of(o)
            f = self.method(o, a)
            if f is not None: return f
            if '__list__' in SCHEMA[o.cls]: return BuiltinM(self.load(o, '__list__'), a)
            raise PyExc('AttributeError', line, a)
        if isinstance(o, MObj):
            st = self.mobj.setdefault(o.oid, {})
            f0 = class_lookup(self.prog, o.cls, a)
            if isinstance(f0, PropV):
                if f0.fget is None: raise PyExc('AttributeError', line, a)
                return self.call(f0.fget, [o], {}, n)
            if a in st:
                v = st[a]
                if isinstance(v, Poison): raise Unsupported('attribute %s: %s' % (a, v.why))
                return v
            if a == '__class__': return o.cls
            f = self.method(o, a)
            if f is not None: return f
            if '__list__' in st: return BuiltinM(st['__list__'], a)
            raise PyExc('AttributeError', line, a)
        if isinstance(o, ModV):
            if a in o.mod.defs: return self.module_get(o.mod, a)
            raise PyExc('AttributeError', line, a)
        if isinstance(o, ExtV): return ExtV(o.name + '.' + a)
        if isinstance(o, LogV): return ExtV('log.' + a)
        if isinstance(o, ClassV):
            if a == '__name__': return o.name
            f = class_lookup(self.prog, o, a)
            if isinstance(f, FuncV): return f
            if isinstance(f, tuple) and f[0] == 'classmethod': return BoundV(o, f[1])
            if isinstance(f, tuple) and f[0] == 'staticmethod': return f[1]
            if isinstance(f, tuple) and f[0] == 'assign': return self.class_const(o, a)
            raise PyExc('AttributeError', line, a)
        if isinstance(o, SuperV):
            ms = mro(self.prog, o.obj.cls if isinstance(o.obj, MObj) else self.class_of(o.obj))
            names = [c.name for c in ms]
            for c in ms[names.index(o.cls.name) + 1:]:
                f = own_lookup(c, a)
                if isinstance(f, FuncV): return BoundV(o.obj, f)
            return BuiltinM(o, a)
        if o is None: raise PyExc('AttributeError', line, "None has no attribute '%s'" % a)
        if isinstance(o, Opaque): return Opaque('attr')
        if isinstance(o, (LRef, CList, MDict, str, SV, tuple, SetV, SeqV, BuiltinType)) or hasattr(o, 'builtin_methods'):
            if isinstance(o, (LRef)) and o.opt:
                self.require(o.addr != 0, 'AttributeError', line, 'None')
            return BuiltinM(o, a)
        raise Unsupported('attribute %s of %r at line %d' % (a, o, line))

    def class_const(self, cls, a):
        for c in mro(self.prog, cls):
            f = own_lookup(c, a)
            if isinstance(f, tuple) and f[0] == 'assign':
                ck = ('classconst', c.name, a)
                self.run_metaclasses(c.module)
                if ck not in self.setcache:
                    saved = (self.loopstack, self.callstack); self.loopstack = []; self.callstack = []
                    try: self.setcache[ck] = self.eval(f[1], Env(None, c.module))
                    finally: self.loopstack, self.callstack = saved
                return self.setcache[ck]
        raise PyExc('AttributeError', 0, a)

    def run_metaclasses(self, m):
        """a Python 2 `class __metaclass__(type)` whose __init__ runs once for each class of the module, in order"""
        key = ('metaclasses', m.name)
        if key in self.setcache: return
        self.setcache[key] = True
        for st in m.tree.body:
            if not isinstance(st, ast.ClassDef): continue
            cls = ClassV(st, m)
            for c in mro(self.prog, cls):
                inner = [x for x in c.node.body if isinstance(x, ast.ClassDef) and x.name == '__metaclass__']
                if inner:
                    f = own_lookup(ClassV(inner[0], m), '__init__')
                    saved = (self.loopstack, self.callstack); self.loopstack = []; self.callstack = []
                    try:
                        bases = tuple(self.eval(b, Env(None, m)) for b in st.bases)
                        d = MDict({}, self.order); self.order += 1
                        if f is not None: self.call_func(f, [cls, st.name, bases, d], {}, None)
                    finally: self.loopstack, self.callstack = saved
                    break

    def class_of(self, o):
        if isinstance(o, Ref):
            m, c = o.cls.split('.')
            return ClassV(self.prog.mods[m].defs[c][1], self.prog.mods[m])
        if isinstance(o, MObj): return o.cls
        raise Unsupported('class of %r' % (o,))

    def method(self, o, a):
        cls = self.class_of(o)
        f = class_lookup(self.prog, cls, a)
        if f is None: return None
        if isinstance(f, FuncV): return BoundV(o, f)
        if isinstance(f, tuple):
            if f[0] == 'classmethod': return BoundV(cls, f[1])
            if f[0] == 'staticmethod': return f[1]
            return self.class_const(cls, a)
        if isinstance(f, PropV):
            return self.call(f.fget, [o], {}, None)
        return None

    def call_method_if(self, o, name, args, n):
        cls = self.class_of(o)
        f = class_lookup(self.prog, cls, name)
        if isinstance(f, FuncV): return self.call(BoundV(o, f), args, {}, n)
        return None

    def setattr(self, o, a, v, n):
        line = getattr(n, 'lineno', 0)
        if isinstance(o, Ref):
            if o.opt:
                self.require(o.addr != 0, 'AttributeError', line); o = Ref(o.cls, o.addr)
            if a not in SCHEMA[o.cls]: raise Unsupported('attribute %s added to %s' % (a, o.cls))
            if isinstance(v, CList) and isinstance(SCHEMA[o.cls][a], str):
                raise Unsupported('list stored in field %s at line %d' % (a, line))
            self.store(o, a, v, line); return
        if isinstance(o, MObj):
            f0 = class_lookup(self.prog, o.cls, a)
            if isinstance(f0, PropV):
                if f0.fset is None: raise PyExc('AttributeError', line, a)
                self.call(f0.fset, [o, v], {}, n); return
            self.mobj_set(o.oid, a, v)
            return
        if o is None: raise PyExc('AttributeError', line, a)
        raise Unsupported('attribute assignment on %r at line %d' % (o, line))

    def mobj_set(self, oid, a, v):
        st = self.mobj.setdefault(oid, {})
        if oid in self.mobj_outer():
            for fr in self.loopstack:
                if oid in fr['mobjs'] and (oid, a) not in fr['info'].mobjmods:
                    if a in st and self.same_value(st[a], v): continue
                    fr['info'].mobjmods.add((oid, a)); self.A.changed = True; raise Restart()
        self.mobj[oid] = dict(st); self.mobj[oid][a] = v

    def sure(self, c):
        """decide without a case split"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c) or self.prove_now(c): return True
        if z3.is_false(c) or self.prove_now(z3.Not(c)): return False
        raise Unsupported('not decided')

    def same_value(self, a, b):
        if a is b: return True
        if is_z(a) and is_z(b): return a.eq(b)
        if isinstance(a, (int, str, Fraction)) and isinstance(b, (int, str, Fraction)): return type(a) == type(b) and a == b
        return False

    def mobj_outer(self):
        s = set()
        for fr in self.loopstack: s |= fr['mobjs']
        return s

    # ---- comprehensions
    def e_ListComp(self, n, env):
        return self.comp(n, n.generators, env, 'list', lambda e: self.eval(n.elt, e))
    def e_GeneratorExp(self, n, env):
        return self.comp(n, n.generators, env, 'list', lambda e: self.eval(n.elt, e))
    def e_SetComp(self, n, env):
        return self.mk_set(self.comp(n, n.generators, env, 'list', lambda e: self.eval(n.elt, e)))

    def e_DictComp(self, n, env):
        g = n.generators[0]
        if len(n.generators) != 1: raise Unsupported('dict comprehension')
        items = self.concrete_items(self.eval(g.iter, env))
        if items is None: raise Unsupported('dict comprehension over an unknown sequence at line %d' % n.lineno)
        d = {}
        for it in items:
            e = Env(env, env.module)
            self.bind(g.target, it, e)
            if all(self.test(self.eval(c, e)) for c in g.ifs):
                k = self.eval(n.key, e)
                if not self.const_key(k): raise Unsupported('dict comprehension key')
                d[k] = self.eval(n.value, e)
        o = MDict(d, self.order); self.order += 1
        return o

    def comp(self, n, gens, env, what, elt):
        """Comprehension = loop appending to a hidden list (same rules as a written loop)."""
        first = self.eval(gens[0].iter, env)
        if len(gens) == 1:
            items = self.concrete_items(first)
            g = gens[0]
            if items is not None and len(items) <= MAX_UNROLL:
                out = []
                for it in items:
                    e = Env(env, env.module)
                    self.bind(g.target, it, e)
                    if all(self.test(self.eval(c, e)) for c in g.ifs): out.append(elt(e))
                return self.new_list(out, n)
        if len(gens) == 1 and not gens[0].ifs:
            r = self.pure_comp(n, gens[0], first, env, elt)
            if r is not None: return r
        # desugar
        hid = '$c%d_%d' % (n.lineno, n.col_offset)
        e = Env(env, env.module)
        e.vars[hid] = self.new_list([], n)
        key = id(n)
        if key not in self.A.desugar:
            app = ast.Expr(ast.Call(ast.Attribute(ast.Name(hid, ast.Load()), 'append', ast.Load()), [n.elt], []))
            body = [app]
            for k in range(len(gens) - 1, -1, -1):
                for c in reversed(gens[k].ifs): body = [ast.If(c, body, [])]
                it = gens[k].iter if k else ast.Name(hid + 'it', ast.Load())
                body = [ast.For(gens[k].target, it, body, [], None)]
            st = body[0]
            for x in ast.walk(st):
                if not hasattr(x, 'lineno'): x.lineno = n.lineno; x.col_offset = n.col_offset
            st.lineno = n.lineno; st.col_offset = n.col_offset; st._gs = 'comp'
            st._inner_assigned = None
            self.A.desugar[key] = (st, n)
        st = self.A.desugar[key][0]
        e.vars[hid + 'it'] = first
        self.exec_For(st, e)
        return e.vars[hid]

    def pure_comp(self, n, g, first, env, elt):
        """[elt for x in seq] with an effect-free, branch-free elt: the list of its values, described by a quantified fact"""
        bad = getattr(self.A, 'impure_comps', None)
        if bad is None: bad = self.A.impure_comps = set()
        key = (id(n), self.callstack_key())
        if key in bad: return None
        mob0 = dict(self.mobj)
        try: s = self.seq(first)
        except Unsupported: return None
        saved = (list(self.pc), list(self.qf), self.pos, list(self.trace), list(self.newpaths), dict(self.heap), self.alloc, self.alloc_base, self.alloc_off, self.order)
        j = z3.Int('lc%d' % self._cnt('lc'))
        ok = False
        try:
            self.assume(j >= 0); self.assume(j < z3num(s.n))
            v = s.get(j)
            for x in (v if isinstance(v, tuple) else (v,)):
                if isinstance(x, (Ref, LRef)): self.assume(x.addr < self.alloc); self.assume(x.addr >= 0 if x.opt else x.addr > 0)
            e = Env(env, env.module)
            self.bind(g.target, v, e)
            np = len(self.pc)
            outerrec = getattr(self, 'nextrec', None)
            self.nextrec = rec = []; self.nextidx = j
            try: r = elt(e)
            finally: self.nextrec = outerrec
            if rec and outerrec is not None: raise Unsupported('nested next()')
            chars = isinstance(r, ByteS) and r.known() and len(r.b) == 1
            if chars: r = z3num(r.b[0])
            k = self.kind_of(r)
            if isinstance(k, tuple) and k[0] == 'tuple': k = 'V'
            ok = (self.pos == saved[2] and len(self.newpaths) == len(saved[4]) and self.alloc.eq(saved[6]) and self.heap.keys() <= set(saved[5]) and all(self.heap[x].eq(saved[5][x]) for x in self.heap)
                  and (k in ('int', 'num', 'bool', 'V') or (isinstance(k, tuple) and k[0] in ('ref', 'list'))))
            if ok: t = self.coerce_noeff(r, k)
        except (Unsupported, PyExc, Infeasible): ok = False
        self.pc, self.qf, self.pos, self.trace, self.newpaths, self.heap, self.alloc, self.alloc_base, self.alloc_off, self.order = saved
        if not ok:
            self.mobj = mob0
            bad.add(key); return None
        if chars:
            if rec: raise Unsupported('next()')
            return CharSeq(Seg(z3num(s.n), lambda i, j=j, t=z3num(t): z3.substitute(t, (j, z3num(i)))))
        if rec:
            sg, d = rec[0].find(self, self.sure)
            if not self.prove_now(z3num(s.n) <= sg.n - z3num(d)): raise Unsupported('as many next() as iterations')
            rec[0].advance(self, z3num(s.n))
        c = CList([], self.site(n), self.order); self.order += 1
        if not c.site.heap or c.site.kind is None: c.site.heap = True; c.site.kind = c.site.kind or k
        kk = self.join_kind(c.site.kind, k)
        if kk != c.site.kind: c.site.kind = kk; self.A.changed = True; raise Restart()
        if kk != k: t = self.coerce_noeff(r, kk)
        l = self.promote(c, kk)
        nd = self.fresh('comp', self.arr_sort(('data', kk)).range())
        src = s.get(j)
        pats = [nd[j]]
        if isinstance(src, (Ref, LRef)) and not has_ite(src.addr) and src.addr.num_args(): pats.append(src.addr)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3num(s.n)), nd[j] == t), patterns=pats))
        self.hset(('data', kk), l.addr, nd); self.hset(('len', kk), l.addr, z3num(s.n))
        return c

    def mk_set(self, l):
        items = self.concrete_items(l)
        if items is not None:
            # drop syntactic duplicates of constants; keep others (membership semantics)
            out = []
            for it in items:
                if self.const_key(it) and any(self.const_key(o) and o == it for o in out): continue
                out.append(it)
            if all(self.const_key(o) for o in out):
                return SetV(len(out), lambda i: out[i], 'V', ('cset', tuple(map(repr, out))), len(out))
            if not out: return SetV(0, lambda i: None, 'V', ('cset', ()), 0)
            n = len(out)
            arr = z3.K(I, to_V(out[0]))
            for k, it in enumerate(out): arr = z3.Store(arr, k, to_V(it))
            return SetV(z3.IntVal(n), lambda i: SV(arr[z3num(i)]), 'V', ('aset', arr.get_id()), None)
        if isinstance(l, SetV): return l
        s = self.seq(l)
        k = s.kind
        probe = s.get(z3.Int('setprobe'))
        if k is None: k = self.kind_of(probe)
        if isinstance(k, tuple) and k[0] == 'tuple': raise Unsupported('set of tuples')
        if not isinstance(k, str): raise Unsupported('set of %r' % (k,))
        t = self.coerce_noeff(probe, k)
        key = ('set', t.sexpr(), z3num(s.n).sexpr())
        from .spec import distinct_count
        card = distinct_count(self, s, k)
        return SetV(z3num(s.n), s.get, k, key, card)

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body: self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, 'exec_' + type(st).__name__, None)
        if m is None: raise Unsupported('statement %s at line %d' % (type(st).__name__, st.lineno))
        self.curline = getattr(st, 'lineno', 0)
        m(st, env)

    def exec_Pass(self, st, env): pass
    def exec_Expr(self, st, env):
        if isinstance(st.value, ast.Constant): return
        self.eval(st.value, env)
    def exec_Return(self, st, env):
        raise ReturnX(self.eval(st.value, env) if st.value is not None else None)
    def exec_Break(self, st, env): raise BreakX()
    def exec_Continue(self, st, env): raise ContinueX()
    def exec_FunctionDef(self, st, env):
        fn = FuncV(st, env.module, env)
        fn.defaults = [self.eval(d, env) for d in st.args.defaults]
        env.vars[st.name] = fn
    def exec_ClassDef(self, st, env): raise Unsupported('local class at line %d' % st.lineno)
    def exec_Import(self, st, env):
        for a in st.names: env.vars[a.asname or a.name.split('.')[0]] = ExtV(a.name if a.asname else a.name.split('.')[0])
    def exec_ImportFrom(self, st, env):
        for a in st.names:
            if st.module == 'gsapi' and not st.level and a.name in self.prog.mods: env.vars[a.asname or a.name] = ModV(self.prog.mods[a.name]); continue
            if st.level and st.module in self.prog.mods: env.vars[a.asname or a.name] = self.module_get(self.prog.mods[st.module], a.name)
            elif st.level and st.module is None: env.vars[a.asname or a.name] = ModV(self.prog.mods[a.name])
            else: env.vars[a.asname or a.name] = ExtV((st.module or '') + '.' + a.name)
    def exec_Global(self, st, env): raise Unsupported('global')
    def exec_Assert(self, st, env):
        if not self.branch_assert(self.truth(self.eval(st.test, env)), st.lineno): pass
    def branch_assert(self, c, line):
        self.require(c, 'AssertionError', line); return True
    def exec_Raise(self, st, env):
        x = st.exc
        if x is None: raise Unsupported('re-raise')
        f = x.func if isinstance(x, ast.Call) else x
        if isinstance(f, ast.Tuple): f = f.elts[0]      # raise(TypeError, "...") in Python 2 raises TypeError
        name = f.id if isinstance(f, ast.Name) else 'Exception'
        if isinstance(x, ast.Call):
            for a in x.args:
                try: self.eval(a, env)
                except Unsupported: pass
        raise PyExc(name, st.lineno, 'raise')
    def exec_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                e = env.find(t.id); del e.vars[t.id]; continue
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, env); k = self.eval(t.slice, env)
                if isinstance(o, (LRef, CList)) and not (isinstance(o, CList) and o.lref is None and isinstance(k, int)):
                    self.del_item(o, k, t.lineno); continue
                if isinstance(o, CList):
                    if self.list_is_outer(o): raise Unsupported('del in loop')
                    if not -len(o.items) <= k < len(o.items): raise PyExc('IndexError', t.lineno)
                    del o.items[k]; continue
            raise Unsupported('del at line %d' % st.lineno)

    def del_item(self, o, k, line):
        l = self.as_l(o)
        n = self.lenof(l); d = self.hget(('data', l.kind), l.addr)
        i = self.norm_index(k, n, line)
        nd = self.fresh('del', d.sort()); j = z3.Int('dj')
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), nd[j] == d[j]), patterns=[nd[j], d[j]]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= i, j < n - 1), nd[j] == d[j + 1]), patterns=[nd[j]]))
        j2 = z3.Int('dj2')
        self.assume(z3.ForAll([j2], z3.Implies(z3.And(j2 > i, j2 < n), nd[j2 - 1] == d[j2]), patterns=[d[j2]]))
        self.hset(('data', l.kind), l.addr, nd)
        self.hset(('len', l.kind), l.addr, n - 1)

    def exec_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets: self.bind(t, v, env)

    def exec_AnnAssign(self, st, env):
        if st.value is not None: self.bind(st.target, self.eval(st.value, env), env)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v; return
        if isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v, t); return
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete_items(v)
            if items is None and isinstance(v, SV):
                self.require(v_len(v.t) == len(t.elts), 'ValueError', t.lineno)
                items = [SV(v_at(v.t, z3.IntVal(k))) for k in range(len(t.elts))]
            if items is None: raise Unsupported('unpacking %r' % (v,))
            if len(items) != len(t.elts): raise PyExc('ValueError', t.lineno, 'unpack')
            for x, y in zip(t.elts, items): self.bind(x, y, env)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            if isinstance(t.slice, ast.Slice): raise Unsupported('slice assignment')
            k = self.eval(t.slice, env)
            self.setsub(o, k, v, t); return
        raise Unsupported('assignment target')

    def setsub(self, o, k, v, t):
        line = t.lineno
        if isinstance(o, MDict):
            if not self.const_key(k): raise Unsupported('dictionary store with symbolic key at line %d' % line)
            if self.loopstack and o.birth < self.loopstack[-1]['order']: raise Unsupported('dictionary written in a loop at line %d' % line)
            o.d[k] = v; return
        if isinstance(o, CList) and o.lref is None:
            if isinstance(k, bool): k = int(k)
            if isinstance(k, int) and not self.list_is_outer(o):
                if not -len(o.items) <= k < len(o.items): raise PyExc('IndexError', line)
                o.items[k] = v; return
            # promote
            kk = o.site.kind
            if kk is None:
                kk = self.kind_of(v)
                for it in o.items: kk = self.join_kind(kk, self.kind_of(it))
            else: kk = self.join_kind(kk, self.kind_of(v))
            if self.list_is_outer(o) or not o.site.heap or o.site.kind != kk:
                o.site.kind = kk; o.site.heap = True; self.A.changed = True; raise Restart()
            self.promote(o, kk)
        if isinstance(o, (LRef, CList)):
            l = self.as_l(o)
            if isinstance(o, CList):
                kk = self.join_kind(l.kind, self.kind_of(v))
                if kk != l.kind: o.site.kind = kk; self.A.changed = True; raise Restart()
            if isinstance(k, Fraction) or (is_z(k) and k.sort() == R): raise PyExc('TypeError', line, 'float index')
            idx = self.norm_index(k, self.lenof(l), line)
            self.setitem(l, idx, v); return
        if isinstance(o, (Ref, MObj)):
            r = class_lookup(self.prog, self.class_of(o), '__setitem__')
            if isinstance(r, FuncV): self.call(BoundV(o, r), [k, v], {}, t); return
        if isinstance(o, (tuple, str, SV)): raise PyExc('TypeError', line, 'item assignment')
        raise Unsupported('item assignment on %r at line %d' % (o, line))

    def exec_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name): cur = self.lookup(t.id, env, t); base = None
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, env); cur = self.getattr(base, t.attr, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, env); k = self.eval(t.slice, env); cur = self.subscript(base, k, t)
        else: raise Unsupported('augmented assignment')
        rhs = self.eval(st.value, env)
        if isinstance(cur, (CList, LRef)) and isinstance(st.op, ast.Add):
            if not isinstance(rhs, (CList, LRef, tuple, SeqV, RangeV, SV, SetV, RevList)): raise Unsupported('+= of %r' % (rhs,))
            self.extend(cur, rhs, st)
            new = cur
        else:
            new = self.binop(st.op, cur, rhs, st)
        if isinstance(t, ast.Name): env.vars[t.id] = new
        elif isinstance(t, ast.Attribute):
            if new is cur and isinstance(base, Ref): return
            self.setattr(base, t.attr, new, t)
        else:
            if new is cur and not is_z(new): return
            self.setsub(base, k, new, t)

    def exec_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if not isinstance(c, bool):
            m = self.try_merge(st, c, env)
            if m: return
        if self.branch(c): self.block(st.body, env)
        else: self.block(st.orelse, env)

    def try_merge(self, st, c, env):
        """`if c: x = a [else: x = b]` on scalar locals needs no path split."""
        def simple(body):
            return all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure_simple(s.value) for s in body) and body
        if not simple(st.body) or (st.orelse and not simple(st.orelse)): return False
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c): return False
        def run(body):
            e = Env(env, env.module)
            for s in body: e.vars[s.targets[0].id] = self.eval(s.value, e)
            return e.vars
        a = run(st.body); b = run(st.orelse)
        out = {}
        for k in set(a) | set(b):
            try:
                va = a[k] if k in a else self.lookup(k, env, st)
                vb = b[k] if k in b else self.lookup(k, env, st)
            except (PyExc, Unsupported):
                return False
            if not (is_num(va) and is_num(vb)): return False
            if isinstance(va, bool) != isinstance(vb, bool) and not (is_z(va) or is_z(vb)): return False
            out[k] = self.ite(c, va, vb)
        for k, v in out.items(): env.vars[k] = v
        return True

    def exec_Try(self, st, env):
        if st.finalbody: raise Unsupported('finally')
        self.tryDepth += 1
        try:
            try:
                self.block(st.body, env)
            finally:
                self.tryDepth -= 1
        except PyExc as e:
            for h in st.handlers:
                names = None
                if h.type is not None:
                    names = [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if names is None or e.name in names or 'Exception' in names or (e.name in ('KeyError', 'IndexError') and 'LookupError' in names):
                    self.block(h.body, env); return
            raise
        self.block(st.orelse, env)

    # ------------------------------------------------------------ loops
    def loop_info(self, st):
        key = (st.lineno, st.col_offset, getattr(st, '_gs', ''), self.callstack_key())
        if key not in self.A.loops:
            lp = LoopInfo(key, st, len(self.loopstack))
            self.A.loops[key] = lp
            lp.assigned = assigned_names(st)
        return self.A.loops[key]

    def exec_For(self, st, env):
        it = self.eval(st.iter, env)
        items = self.concrete_items(it)
        if items is not None:
            if len(items) > MAX_UNROLL: raise Unsupported('long concrete loop')
            for n, x in enumerate(items):
                # a python list being iterated may grow while iterating; not supported
                if isinstance(it, CList) and it.lref is not None: raise Unsupported('list changed while iterating')
                self.bind(st.target, x, env)
                try: self.block(st.body, env)
                except BreakX: return
                except ContinueX: continue
            if isinstance(it, CList) and (it.lref is None) and len(it.items) != len(items): raise Unsupported('list changed while iterating')
            self.block(st.orelse, env)
            return
        if hasattr(it, 'iter_concrete'):
            raise Unsupported('iteration over %r' % it)
        from .loops import sym_for
        sym_for(self, st, it, env)

    def exec_While(self, st, env):
        from .loops import sym_while
        sym_while(self, st, env)

def assigned_names(st):
    out = set()
    comp_targets = set()
    def targets(t):
        if isinstance(t, ast.Name): out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: targets(x)
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            if isinstance(n, ast.FunctionDef): out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)): return
        if isinstance(n, ast.Assign):
            for t in n.targets: targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): targets(n.target)
        elif isinstance(n, ast.For): targets(n.target)
        for c in ast.iter_child_nodes(n): walk(c)
    if isinstance(st, ast.For): targets(st.target)
    for b in st.body: walk(b)
    return out
