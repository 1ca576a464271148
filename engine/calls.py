"""Calls: user functions (inlined or by contract), builtins and trusted library functions."""
import ast
from fractions import Fraction
import z3
from .values import *
from .interp import *
from .evalx import *
from .bytestr import *

MAX_DEPTH = 12

class Exec(Ev):
    def e_Call(self, n, env):
        # super(...) needs the surrounding class
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and n.args:
            c = self.eval(n.args[0], env); o = self.eval(n.args[1], env)
            return SuperV(c, o)
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.concrete_items(self.eval(a.value, env))
                if it is None: raise Unsupported('*args')
                args += it
            elif isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and isinstance(n.func, ast.Name) and n.func.id == 'sum' and len(n.args) == 1:
                args.append(self.slice(self.eval(a.value, env), a.slice, env, a, lazy=True))      # only its elements are read
            else: args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if not isinstance(v, MDict): raise Unsupported('**kw')
                kw.update(v.d)
            else: kw[k.arg] = v
        return self.call(f, args, kw, n)

    def call(self, f, args, kw, n):
        line = getattr(n, 'lineno', 0) if n is not None else 0
        if isinstance(f, BoundV): return self.call(f.fn, [f.self_] + args, kw, n)
        if isinstance(f, FuncV): return self.call_func(f, args, kw, n)
        if isinstance(f, tuple) and f and f[0] in ('staticmethod', 'classmethod'): return self.call(f[1], args, kw, n)
        if isinstance(f, PredV): return f.fn(*args)
        if isinstance(f, ClassV): return self.construct(f, args, kw, n)
        if isinstance(f, BuiltinType): return self.call_ext('builtin.' + f.name, args, kw, n)
        if isinstance(f, ExtV): return self.call_ext(f.name, args, kw, n)
        if isinstance(f, BuiltinM): return self.call_meth(f.obj, f.name, args, kw, n)
        if isinstance(f, MObj):
            m = class_lookup(self.prog, f.cls, '__call__')
            if isinstance(m, FuncV): return self.call_func(m, [f] + args, kw, n)
        if isinstance(f, Opaque): return Opaque('call')
        if f is None: raise PyExc('TypeError', line, 'None is not callable')
        raise Unsupported('call of %r at line %d' % (f, line))

    def bind_args(self, f, args, kw, n):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        line = getattr(n, 'lineno', 0) if n is not None else 0
        vals = {}
        if len(args) > len(names):
            if a.vararg is None: raise PyExc('TypeError', line, 'too many arguments')
            vals[a.vararg.arg] = tuple(args[len(names):]); args = args[:len(names)]
        elif a.vararg is not None: vals[a.vararg.arg] = ()
        for nm, v in zip(names, args): vals[nm] = v
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in vals: raise PyExc('TypeError', line, 'duplicate argument ' + k)
                vals[k] = v
            elif a.kwarg is not None: extra[k] = v
            elif k in [x.arg for x in a.kwonlyargs]: vals[k] = v
            else: raise PyExc('TypeError', line, 'unexpected keyword ' + k)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = MDict(extra, self.order); self.order += 1
        ds = a.defaults
        off = len(names) - len(ds)
        for i, nm in enumerate(names):
            if nm not in vals:
                if i >= off:
                    if hasattr(f, 'defaults'): vals[nm] = f.defaults[i - off]
                    else: vals[nm] = self.default(f, i - off, ds[i - off])
                else: raise PyExc('TypeError', line, 'missing argument ' + nm)
        return vals

    def default(self, f, i, node):
        # defaults are evaluated once, at definition time (shared mutable defaults included)
        ck = ('default', id(f.node), i)
        if f.env is not None and not isinstance(node, ast.Constant):
            return self.eval(node, f.env)
        if ck not in self.setcache:
            saved = (self.loopstack, self.callstack); self.loopstack = []; self.callstack = []
            try:
                self.setcache[ck] = self.eval(node, Env(None, f.module, FuncV(f.node, f.module, cls=f.cls)))
            finally: self.loopstack, self.callstack = saved
        return self.setcache[ck]

    def call_func(self, f, args, kw, n):
        line = getattr(n, 'lineno', 0) if n is not None else 0
        q = f.qual()
        con = self.contracts.get(q) if f.env is None else None
        if con is not None and self.callstack:
            r = con.apply_at_call(self, f, args, kw, n)
            if r is not NotImplemented: return r
        if f.name == '__repr__': return Opaque('repr')
        if len(self.callstack) >= MAX_DEPTH: raise Unsupported('call depth (recursion) at %s' % q)
        for cs in self.callstack:
            if cs[0] is f.node: raise Unsupported('recursive call of %s' % q)
        vals = self.bind_args(f, args, kw, n)
        env = Env(f.env, f.module, f)
        env.vars.update(vals)
        self.A.functions.add(q)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)): raise Unsupported('generator %s' % q)
        self.callstack.append((f.node, (f.name, line, getattr(n, 'col_offset', 0) if n is not None else 0), env))
        try:
            self.block(f.node.body, env)
        except ReturnX as r:
            return r.v
        except (BreakX, ContinueX):
            raise Unsupported('stray break')
        finally:
            self.callstack.pop()
        return None

    def construct(self, cls, args, kw, n):
        q = '%s.%s' % (cls.module.name, cls.name)
        bases = mro(self.prog, cls)
        init = class_lookup(self.prog, cls, '__init__')
        if q in SCHEMA:
            o = Ref(q, self.new_addr())
            if init is None: raise Unsupported('no constructor')
            self.call_func(init, [o] + args, kw, n)
            return o
        if any(isinstance(b, ast.Name) and b.id in ('Exception',) for c in bases for b in c.node.bases): return Opaque('exc')
        o = MObj(cls, self.noid); self.noid += 1
        self.mobj[o.oid] = {}
        for c in bases:
            for b in c.node.bases:
                if isinstance(b, ast.Name) and b.id == 'tuple' and init is None:
                    return args[0]            # tuple subclasses behave as the tuple
                if isinstance(b, ast.Name) and b.id == 'list':
                    self.mobj[o.oid]['__list__'] = self.new_list([], n)
        if init is not None: self.call_func(init, [o] + args, kw, n)
        elif args or kw: raise PyExc('TypeError', getattr(n, 'lineno', 0), 'constructor arguments')
        return o

    # ------------------------------------------------------------ methods of builtin values
    def call_meth(self, o, m, args, kw, n):
        line = getattr(n, 'lineno', 0)
        if hasattr(o, 'builtin_methods'): return o.call_method(self, m, args, kw, n)
        if isinstance(o, SuperV):
            if m == '__init__':
                lst = self.mobj.get(o.obj.oid, {}).get('__list__') if isinstance(o.obj, MObj) else None
                if lst is not None and args: self.extend(lst, args[0], n)
                return None
            raise Unsupported('super().%s' % m)
        if isinstance(o, (CList, LRef)):
            if m == 'append': self.append(o, args[0]); return None
            if m == 'extend': self.extend(o, args[0], n); return None
            if m == 'sort': return self.list_sort(o, args, kw, n)
            if m == 'index': return self.list_index(o, args[0], n)
            if m == 'pop' and not args:
                if isinstance(o, CList) and o.lref is None and not self.list_is_outer(o):
                    if not o.items: raise PyExc('IndexError', line)
                    return o.items.pop()
                l = self.as_l(o); ln = self.lenof(l)
                self.require(ln > 0, 'IndexError', line)
                v = self.getitem(l, z3.simplify(ln - 1)); self.elem_facts(l, None, v)
                self.hset(('len', l.kind), l.addr, ln - 1)
                return v
            if m == 'pop' and len(args) == 1:
                v = self.subscript(o, args[0], n); self.del_item(o, args[0], line); return v
            if m == 'remove':
                i = self.list_index(o, args[0], n); self.del_item(o, i, line); return None
            if m == 'insert' and isinstance(o, CList) and o.lref is None and isinstance(args[0], int) and not self.list_is_outer(o):
                o.items.insert(args[0], args[1]); return None
            if m == 'count': raise Unsupported('list.count')
            raise Unsupported('list.%s at line %d' % (m, line))
        if isinstance(o, MDict):
            if m == 'keys': return self.new_list(list(o.d.keys()), n)
            if m == 'values': return self.new_list(list(o.d.values()), n)
            if m in ('items', 'iteritems'): return self.new_list(list(o.d.items()), n)
            if m == 'get':
                if self.const_key(args[0]): return o.d.get(args[0], args[1] if len(args) > 1 else None)
            if m == 'copy':
                r = MDict(dict(o.d), self.order); self.order += 1; return r
            if m == 'update' and isinstance(args[0], MDict):
                o.d.update(args[0].d); return None
            if m == 'has_key': return self.contains(args[0], o, n)
            raise Unsupported('dict.%s at line %d' % (m, line))
        if isinstance(o, str):
            if m == 'join':
                a = args[0]
                if isinstance(a, CharSeq) and o == '': return ByteS([a.seg])
                items = self.concrete_items(a)
                if items is not None and any(isinstance(x, ByteS) for x in items): return to_bytes(o).call_method(self, 'join', [a], {}, n)
                if items is not None and all(isinstance(x, str) for x in items): return o.join(items)
                if items is not None: return self.join_items(o, items, n)
                return Opaque('join')
            if m in ('endswith', 'startswith', 'lower', 'upper', 'strip', 'split', 'replace', 'format') and all(isinstance(a, (str, int)) for a in args):
                r = getattr(o, m)(*args)
                return self.new_list(r, n) if isinstance(r, list) else r
            if m == 'format': return Opaque('format')
            raise Unsupported('str.%s' % m)
        if isinstance(o, SV):
            if m == 'endswith':
                f = z3.Function('s_ends', V, V, B); return f(o.t, to_V(args[0]))
            if m == 'startswith':
                f = z3.Function('s_starts', V, V, B); return f(o.t, to_V(args[0]))
            raise Unsupported('%s of a boxed value at line %d' % (m, line))
        if isinstance(o, BuiltinType) and o.name == 'str' and m == 'join':
            return self.call_meth(args[0], 'join', args[1:], kw, n)
        if isinstance(o, tuple):
            if m == 'index':
                for k, x in enumerate(o):
                    if self.test(self.eq(x, args[0], n)): return k
                raise PyExc('ValueError', line)
            if m == 'count': pass
        raise Unsupported('method %s of %r at line %d' % (m, o, line))

    def join_items(self, sep, items, n):
        return Opaque('join')

    def list_index(self, o, x, n):
        line = n.lineno
        items = self.concrete_items(o)
        if items is not None:
            for k, it in enumerate(items):
                if self.test(self.eq(it, x, n)): return k
            raise PyExc('ValueError', line)
        l = self.as_l(o); ln = self.lenof(l)
        self.require(self.contains(x, o, n), 'ValueError', line)
        i = self.fresh('idx', I); j = z3.Int('ij')
        self.assume(i >= 0); self.assume(i < ln)
        self.assume(z3bool(self.pure_eval(lambda: self.eq(self.getitem(l, i), x, n))))
        ne = z3.Not(z3bool(self.pure_eval(lambda: self.eq(self.getitem(l, j), x, n))))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), ne)))
        return i

    def list_sort(self, o, args, kw, n):
        """Trusted: list.sort is a stable permutation ordered by the key."""
        line = n.lineno
        if isinstance(o, CList) and o.lref is None:
            items = o.items
            if len(items) <= 1: return None
            if all(isinstance(x, (int, Fraction)) for x in items) and 'key' not in kw and not self.list_is_outer(o):
                items.sort(reverse=bool(kw.get('reverse', False))); return None
            if o.site.kind is None:
                o.site.kind = self.kind_of(items[0]); 
            if isinstance(o.site.kind, tuple) and o.site.kind[0] in ('const', 'tuple', 'clist'):
                # list of known records: order is not tracked
                raise Unsupported('sort of records at line %d' % line)
        l = self.as_l(o)
        n_ = self.lenof(l); d = self.hget(('data', l.kind), l.addr)
        nd = self.sorted_data(n_, d, l.kind, kw, n)
        self.hset(('data', l.kind), l.addr, nd)
        return None

    def sorted_data(self, n_, d, kind, kw, n):
        key = kw.get('key')
        rev = kw.get('reverse', False)
        if rev is not False and rev is not None: raise Unsupported('reverse sort')
        def kf(t):
            v = self.of_kind(t, kind)
            if key is None: return z3num(v)
            r = self.call(key, [v], {}, n)
            return z3num(r)
        x = z3.Const('srt_el', ksort(kind))
        kx = self.pure_eval(lambda: kf(x))
        ck = ('sort', d.get_id(), n_.get_id(), kx.sexpr())
        if ck in self.setcache: return self.setcache[ck][0]
        K = lambda t: z3.substitute(kx, (x, t))
        m = len([1 for c in self.setcache if c[0] == 'sort'])
        nd = self.fresh('sorted', d.sort())
        perm = z3.Function('perm!%d' % m, I, I)     # new position -> old position
        inv = z3.Function('pinv!%d' % m, I, I)      # old position -> new position
        i, j = z3.Int('si'), z3.Int('sk')
        rng = lambda v: z3.And(v >= 0, v < n_)
        base = d
        while z3.is_app(base) and base.decl().kind() == z3.Z3_OP_STORE: base = base.arg(0)
        pats = [d[i]] if base is d else [d[i], base[i]]
        self.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(perm(i)), inv(perm(i)) == i, nd[i] == d[perm(i)])), patterns=[nd[i]]))
        self.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(inv(i)), perm(inv(i)) == i, nd[inv(i)] == d[i])), patterns=pats))
        self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n_), K(nd[i]) <= K(nd[j])), patterns=[z3.MultiPattern(nd[i], nd[j])]))
        # stability
        self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n_, K(nd[i]) == K(nd[j])), perm(i) < perm(j)), patterns=[z3.MultiPattern(perm(i), perm(j))]))
        # already sorted input is left as it is
        srt = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n_), K(d[i]) <= K(d[j])))
        self.assume(z3.Implies(srt, z3.ForAll([i], z3.Implies(rng(i), z3.And(perm(i) == i, nd[i] == d[i])), patterns=[nd[i], d[i]])))
        self.setcache[ck] = (nd, perm, inv, d)
        self.A.trusted.add('list.sort: stable permutation sorted by key')
        # sorting the result again changes nothing (same key)
        K2 = lambda t: t
        ck2 = ('sort', nd.get_id(), n_.get_id(), kx.sexpr())
        self.setcache[ck2] = (nd, perm, inv, d)
        return nd

    # ------------------------------------------------------------ builtins / library
    def call_ext(self, name, args, kw, n):
        line = getattr(n, 'lineno', 0) if n is not None else 0
        if name.startswith('builtin.'):
            m = getattr(self, 'b_' + name[8:], None)
            if m is None: raise Unsupported('builtin %s at line %d' % (name[8:], line))
            return m(args, kw, n)
        if name.startswith('log.'):
            if name == 'log.getEffectiveLevel': return 30
            return None
        if name.startswith('logging.'): return Opaque('logging')
        if name in ('math.floor', 'math.ceil'):
            v = args[0]
            if isinstance(v, SV): v = self.unbox_num(v, n)
            if not is_num(v): raise PyExc('TypeError', line, name)
            if not is_z(v):
                import math
                return math.floor(v) if name == 'math.floor' else math.ceil(v)
            t = z3num(v)
            if t.sort() == I: return t
            return floor_int(t) if name == 'math.floor' else ceil_int(t)
        if name == 'math.log' and len(args) == 2 and args[1] == 2:
            v = args[0]
            if isinstance(v, int) and v > 0 and v & (v - 1) == 0: return v.bit_length() - 1
            w = v
            while is_z(w) and z3.is_app(w) and w.decl().kind() == z3.Z3_OP_TO_REAL: w = w.arg(0)
            if is_z(w) and z3.is_app(w) and w.decl().eq(pow2):
                self.A.trusted.add('math.log(2 ** k, 2) is k but for a rounding error below one half')
                return z3real(w.arg(0))
            r = log2(z3real(v))
            self.A.trusted.add('math.log(x, 2) is exact on powers of two')
            return r
        if name in ('math.fabs',): return self.b_abs(args, kw, n)
        if name == 'copy.deepcopy': return self.deepcopy(args[0], n)
        if name == 'copy.copy': return self.shallow(args[0], n)
        if name == 'collections.OrderedDict' and not args:
            o = MDict({}, self.order); self.order += 1; return o
        if name.startswith('exc.'): return Opaque('exc')
        if name == 'random.seed': return None
        if name == 'random.random':
            r = self.fresh('rnd', R); self.assume(r >= 0); self.assume(r < 1); self.draws.append(r)
            self.A.trusted.add('random.random(): some real in [0,1)')
            return r
        if name == 'random.randint':
            lo, hi = z3num(args[0]), z3num(args[1])
            self.require(lo <= hi, 'ValueError', line)
            r = self.fresh('rndi', I); self.assume(r >= lo); self.assume(r <= hi)
            self.A.trusted.add('random.randint(a,b): some integer in [a,b]')
            return r
        if name == 'random.choice':
            s = self.seq(args[0])
            self.require(z3num(s.n) > 0, 'IndexError', line)
            r = self.fresh('rndc', I); self.assume(r >= 0); self.assume(r < z3num(s.n))
            return s.get(r)
        if name in ('os.path.basename', 'os.path.join', 'os.path.abspath', 'os.path.splitext', 'os.path.dirname'):
            try: ts = [to_V(a) for a in args]
            except Unsupported: return Opaque('path')
            f = z3.Function(name + str(len(ts)), *([V] * len(ts) + [V]))
            r = f(*ts); self.assume(V.is_VStr(r)); return SV(r)
        if name in ('struct.pack', 'struct.unpack'): return self.struct(name, args, line)
        h = self.A.ext.get(name) if hasattr(self.A, 'ext') else None
        if h is not None: return h(self, args, kw, n)
        raise Unsupported('call of %s at line %d' % (name, line))

    def deepcopy(self, v, n):
        self.A.trusted.add('copy.deepcopy: fresh structure, equal fields, sharing preserved')
        if v is None or isinstance(v, (str, bool, int, Fraction, SV, Opaque)) or (is_z(v)): return v
        if isinstance(v, tuple): return tuple(self.deepcopy(x, n) for x in v)
        if isinstance(v, Ref):
            if v.opt:
                if not self.branch(v.addr != 0): return None
                v = Ref(v.cls, v.addr)
            return self.deepcopy_ref(v, n)
        if isinstance(v, MDict):
            r = MDict({k: self.deepcopy(x, n) for k, x in v.d.items()}, self.order); self.order += 1; return r
        if isinstance(v, CList) and v.lref is None:
            return self.new_list([self.deepcopy(x, n) for x in v.items], n)
        if isinstance(v, (LRef, CList)):
            l = self.as_l(v)
            if l.kind in ('int', 'num', 'bool', 'V'):
                r = CList([], self.site(n), self.order); self.order += 1
                r.site.heap = True; r.site.kind = l.kind
                self.promote(r, l.kind); self.extend(r, v, n); return r
        raise Unsupported('deepcopy of %r' % (v,))

    def deepcopy_ref(self, v, n):
        o = Ref(v.cls, self.new_addr())
        for f, k in SCHEMA[v.cls].items():
            if f == 'originPattern':
                # deep-copied too: unknown fresh pattern, None stays None
                t = self.hget(('f', v.cls, f), v.addr)
                w = self.fresh('dcorig', I)
                self.assume(z3.If(t == 0, w == 0, z3.And(w > 0, w < self.alloc)))
                self.hset(('f', v.cls, f), o.addr, w)
            elif isinstance(k, tuple) and k[0] == 'list':
                src = self.load(v, f)
                if isinstance(k[1], tuple) and k[1][0] == 'ref':
                    l = self.copy_ref_list(src, n)
                else: raise Unsupported('deepcopy field')
                self.hset(('f', v.cls, f), o.addr, l.addr)
            else:
                self.hset(('f', v.cls, f), o.addr, self.hget(('f', v.cls, f), v.addr))
        return o

    def copy_ref_list(self, src, n):
        """Deep copy of a list of objects: element i of the copy is a fresh object equal to element i.
        Sharing (the same object twice) is preserved because the copy is a function of the original address."""
        cls = src.kind[1]
        a = self.new_addr()
        ln = self.lenof(src); d = self.hget(('data', src.kind), src.addr)
        cp = z3.Function('dc!%d' % self._cnt('dc'), I, I)
        back = z3.Function('dcb!%d' % self._cnt('dcb'), I, I)
        lo = self.alloc
        hi = self.fresh('alloc', I)
        self.assume(hi >= lo)
        for fr in self.loopstack:
            if not fr['info'].allocs: fr['info'].allocs = True; self.A.changed = True; raise Restart()
        self.alloc_base = hi; self.alloc_off = 0; self.alloc = hi
        j = z3.Int('dcj')
        nd = self.fresh('dcl', d.sort())
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), z3.And(nd[j] == cp(d[j]), back(nd[j]) == d[j], nd[j] >= lo, nd[j] < hi)), patterns=[nd[j], d[j]]))
        self.hset(('len', src.kind), a, ln)
        self.hset(('data', src.kind), a, nd)
        for f, k in SCHEMA[cls].items():
            key = ('f', cls, f)
            old = self.harr(key)
            new = self.fresh('H_' + self.keyname(key), old.sort())
            self.note_write(key, a)
            x = z3.Int('dcx')
            self.assume(z3.ForAll([x], z3.Implies(x < lo, new[x] == old[x]), patterns=[new[x]]))
            if f != 'originPattern':
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), new[nd[j]] == old[d[j]]), patterns=[nd[j], d[j]]))
            self.heap[key] = new
            for fct in self.arr_facts(key, new, self.alloc): self.assume(fct)
        return LRef(src.kind, a)

    def _cnt(self, nm):
        c = self.names.get('#' + nm, 0); self.names['#' + nm] = c + 1
        return c

    def shallow(self, v, n):
        if v is None or isinstance(v, (str, bool, int, Fraction, SV, tuple)) or is_z(v): return v
        if isinstance(v, MDict):
            r = MDict(dict(v.d), self.order); self.order += 1; return r
        if isinstance(v, (CList, LRef)):
            items = self.concrete_items(v)
            if items is not None: return self.new_list(items, n)
            r = self.new_list([], n); self.extend(r, v, n); return r
        raise Unsupported('copy.copy of %r' % (v,))

    # --- builtins
    def struct(self, name, args, line):
        sizes = {'L': 4, 'I': 4, 'H': 2, 'B': 1}
        fmt = args[0]
        if not (isinstance(fmt, str) and fmt[:1] == '>' and all(c in sizes for c in fmt[1:])): raise Unsupported('struct format')
        if name == 'struct.pack':
            if len(args) - 1 != len(fmt) - 1: raise PyExc('error', line)
            out = []
            for c, v in zip(fmt[1:], args[1:]):
                t = z3num(v) if not isinstance(v, int) else v
                k = sizes[c]
                if not isinstance(t, int): self.require(z3.And(t >= 0, t < 256 ** k), 'error', line)
                elif not 0 <= t < 256 ** k: raise PyExc('error', line)
                for j in range(k - 1, -1, -1): out.append((t >> (8 * j)) & 255 if isinstance(t, int) else z3.simplify((t / (256 ** j)) % 256))
            return ByteS(out)
        b = to_bytes(args[1])
        if not b.known(): raise Unsupported('unpack of unknown length')
        if len(b.b) != sum(sizes[c] for c in fmt[1:]): raise PyExc('error', line)
        out = []; k = 0
        for c in fmt[1:]:
            v = 0
            for x in b.b[k:k + sizes[c]]: v = v * 256 + x
            out.append(v); k += sizes[c]
        return tuple(out)

    def b_iter(self, args, kw, n):
        v = args[0]
        if isinstance(v, (ByteS, str)):
            o = IterV(to_bytes(v), self.noid); self.noid += 1
            self.mobj[o.oid] = {'off': 0}
            return o
        if isinstance(v, IterV): return v
        raise Unsupported('iter(%r)' % (v,))
    def b_next(self, args, kw, n):
        if isinstance(args[0], IterV) and len(args) == 1: return args[0].next(self, n)
        raise Unsupported('next()')

    def b_len(self, args, kw, n):
        v = args[0]
        if isinstance(v, (str, tuple)): return len(v)
        if isinstance(v, ByteS): return v.length()
        if isinstance(v, CList) and v.lref is None: return len(v.items)
        if isinstance(v, (LRef, CList)): return self.lenof(self.as_l(v))
        if isinstance(v, MDict): return len(v.d)
        if isinstance(v, SV):
            self.require(z3.Or(V.is_VStr(v.t), V.is_VTup(v.t)), 'TypeError', getattr(n, 'lineno', 0), 'len')
            self.assume(v_len(v.t) >= 0)
            return v_len(v.t)
        if isinstance(v, SetV):
            if isinstance(v.n, int) and v.card is not None: return v.card
            if v.card is None: raise Unsupported('size of a set of unknown values')
            return v.card
        if isinstance(v, SeqV): return v.n
        if isinstance(v, (Ref, MObj)):
            r = self.call_method_if(v, '__len__', [], n)
            if r is not None: return r
            if isinstance(v, MObj) and '__list__' in self.mobj.get(v.oid, {}): return self.b_len([self.mobj[v.oid]['__list__']], {}, n)
        if isinstance(v, RangeV): return self.seq(v).n
        if v is None or is_num(v): raise PyExc('TypeError', getattr(n, 'lineno', 0), 'len')
        raise Unsupported('len of %r' % (v,))

    def b_range(self, args, kw, n):
        for a in args:
            if isinstance(a, Fraction) or (is_z(a) and a.sort() == R): raise PyExc('TypeError', n.lineno, 'range of float')
            if not is_num(a): raise Unsupported('range(%r)' % (a,))
        if len(args) == 1: r = RangeV(0, args[0])
        elif len(args) == 2: r = RangeV(args[0], args[1])
        else: r = RangeV(args[0], args[1], args[2])
        if isinstance(r.step, int) and r.step == -1 and not (isinstance(r.lo, int) and isinstance(r.hi, int)):
            return RangeV(z3num(r.hi) + 1, z3num(r.lo) + 1, 1, True)
        return r
    b_xrange = b_range

    def b_int(self, args, kw, n):
        v = args[0]
        if isinstance(v, SV): v = self.unbox_num(v, n)
        if isinstance(v, bool): return int(v)
        if isinstance(v, (int, Fraction)): return int(v)
        if isinstance(v, str):
            try: return int(v)
            except ValueError: raise PyExc('ValueError', n.lineno)
        if is_z(v):
            t = z3num(v)
            if t.sort() == I: return t
            return trunc_int(t)
        raise PyExc('TypeError', n.lineno, 'int()')

    def b_float(self, args, kw, n):
        v = args[0]
        if isinstance(v, SV): v = self.unbox_num(v, n)
        if is_num_const(v) or isinstance(v, bool): return Fraction(v)
        if is_z(v): return z3real(v)
        raise Unsupported('float(%r)' % (v,))

    def b_bool(self, args, kw, n): return self.truth(args[0])

    def b_round(self, args, kw, n):
        v = args[0]
        if len(args) > 1: raise Unsupported('round')
        t = z3real(v)
        # Python 2: halves away from zero
        return z3.If(t >= 0, floor_int(t + z3.RealVal('1/2')), -floor_int(-t + z3.RealVal('1/2')))

    def b_str(self, args, kw, n):
        v = args[0]
        if isinstance(v, str): return v
        if isinstance(v, int) and not isinstance(v, bool): return str(v)
        if isinstance(v, SV):
            r = s_of(v.t); self.assume(V.is_VStr(r)); self.assume(z3.Implies(V.is_VStr(v.t), r == v.t)); return SV(r)
        if is_z(v):
            r = s_of(to_V(v)); self.assume(V.is_VStr(r)); return SV(r)
        return Opaque('str')
    b_unicode = b_str
    def b_repr(self, args, kw, n): return Opaque('repr')

    def b_abs(self, args, kw, n):
        v = args[0]
        if is_num_const(v): return abs(v)
        t = z3num(v)
        return z3.If(t >= 0, t, -t)

    def minmax(self, args, kw, n, ismin):
        if len(args) == 1:
            items = self.concrete_items(args[0])
            if items is None:
                if kw: raise Unsupported('min/max with key')
                return self.seq_minmax(args[0], n, ismin)
            args = items
            if not args: raise PyExc('ValueError', n.lineno)
        if kw: raise Unsupported('min/max with key')
        r = args[0]
        for x in args[1:]:
            if isinstance(r, SV): r = self.unbox_num(r, n)
            if isinstance(x, SV): x = self.unbox_num(x, n)
            if r is None or x is None:      # Python 2 ordering: None first
                if ismin: r = None
                else: r = x if r is None else r
                continue
            if not is_z(r) and not is_z(x):
                r = min(r, x) if ismin else max(r, x); continue
            a, b = z3num(r), z3num(x)
            c = (b < a) if ismin else (b > a)
            r = self.ite(c, x, r)
        return r
    def b_min(self, args, kw, n): return self.minmax(args, kw, n, True)
    def b_max(self, args, kw, n): return self.minmax(args, kw, n, False)

    def seq_minmax(self, v, n, ismin):
        s = self.seq(v)
        ln = z3num(s.n)
        self.require(ln > 0, 'ValueError', n.lineno)
        probe = z3num(s.get(z3.Int('mmprobe')))
        r = self.fresh('mm', probe.sort()); w = self.fresh('mmi', I); j = z3.Int('mmj')
        g = lambda i: z3num(s.get(i))
        self.assume(w >= 0); self.assume(w < ln); self.assume(r == g(w))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), (g(j) >= r) if ismin else (g(j) <= r))))
        return r

    def b_sum(self, args, kw, n):
        items = self.concrete_items(args[0])
        if items is not None:
            r = args[1] if len(args) > 1 else 0
            for x in items: r = self.binop(ast.Add(), r, x, n)
            return r
        from .spec import sum_fold
        return sum_fold(self, self.seq(args[0]))

    def b_isinstance(self, args, kw, n):
        v, t = args
        if isinstance(t, tuple):
            r = False
            for x in t:
                c = self.b_isinstance([v, x], {}, n)
                if c is True: return True
                r = c if r is False else (r if c is False else z3.Or(r, c))
            return r
        if isinstance(t, ExtV) and t.name == 'collections.Hashable':
            if isinstance(v, (CList, LRef, MDict, SetV)): return False
            return True
        if isinstance(t, ClassV):
            if isinstance(v, Ref):
                ok = any(c.name == t.name and c.module.name == t.module.name for c in mro(self.prog, self.class_of(v)))
                if v.opt and ok: return v.addr != 0
                return ok
            if isinstance(v, MObj): return any(c.name == t.name for c in mro(self.prog, v.cls))
            return False
        if isinstance(t, BuiltinType):
            nm = t.name
            if isinstance(v, SV):
                x = v.t
                if nm == 'str': return V.is_VStr(x)
                if nm == 'tuple': return V.is_VTup(x)
                if nm == 'int': return z3.Or(V.is_VInt(x), V.is_VBool(x))
                if nm == 'bool': return V.is_VBool(x)
                if nm == 'float': return V.is_VReal(x)
                if nm in ('list', 'dict', 'set'): return False
                raise Unsupported('isinstance %s' % nm)
            if nm == 'list': return isinstance(v, (CList, LRef))
            if nm == 'tuple': return isinstance(v, tuple)
            if nm == 'dict': return isinstance(v, MDict)
            if nm in ('str', 'unicode'): return isinstance(v, str)
            if nm == 'set': return isinstance(v, SetV)
            if nm == 'bool': return isinstance(v, bool) or (is_z(v) and v.sort() == B)
            if nm == 'int': return (isinstance(v, (int, bool))) or (is_z(v) and v.sort() in (I, B))
            if nm == 'float': return isinstance(v, Fraction) or (is_z(v) and v.sort() == R)
            if nm == 'object': return True
        raise Unsupported('isinstance(%r, %r)' % (v, t))

    def b_type(self, args, kw, n):
        v = args[0]
        if isinstance(v, bool): return BuiltinType('bool')
        if isinstance(v, int): return BuiltinType('int')
        if isinstance(v, str): return BuiltinType('str')
        if isinstance(v, tuple): return BuiltinType('tuple')
        if isinstance(v, (CList, LRef)): return BuiltinType('list')
        if isinstance(v, MDict): return BuiltinType('dict')
        if isinstance(v, (Ref, MObj)): return self.class_of(v)
        raise Unsupported('type(%r)' % (v,))

    def b_callable(self, args, kw, n):
        v = args[0]
        if isinstance(v, (FuncV, BoundV, PredV, ClassV, BuiltinType)): return True
        if isinstance(v, (str, SV, tuple, CList, LRef, MDict, int, Fraction)) or v is None or is_z(v): return False
        if isinstance(v, (Ref, MObj)): return class_lookup(self.prog, self.class_of(v), '__call__') is not None
        raise Unsupported('callable')

    def b_list(self, args, kw, n):
        if not args: return self.new_list([], n)
        v = args[0]
        items = self.concrete_items(v)
        if items is not None and not isinstance(v, SetV): return self.new_list(items, n)
        if isinstance(v, SetV) and isinstance(v.n, int):
            return self.new_list([v.get(i) for i in range(v.n)], n)
        s = self.seq(v)
        if s.kind is None: raise Unsupported('list() of mixed values')
        r = CList([], self.site(n), self.order); self.order += 1
        r.site.heap = True
        if r.site.kind is None: r.site.kind = s.kind
        self.promote(r, r.site.kind)
        if getattr(s, 'arr', None) is not None:
            l = r.lref
            self.hset(('data', l.kind), l.addr, s.arr); self.hset(('len', l.kind), l.addr, z3num(s.n))
            return r
        self.extend(r, s, n)
        return r

    def b_tuple(self, args, kw, n):
        if not args: return ()
        v = args[0]
        if isinstance(v, tuple): return v
        items = self.concrete_items(v)
        if items is not None: return tuple(items)
        if isinstance(v, SV):
            # tuple(tag): same members
            f = z3.Function('v_tuple', V, V); r = f(v.t); x = z3.Const('tvx', V); j = z3.Int('tvj')
            self.assume(V.is_VTup(r)); self.assume(v_len(r) == v_len(v.t))
            self.assume(z3.Implies(V.is_VTup(v.t), r == v.t))
            self.assume(z3.ForAll([j], v_at(r, j) == v_at(v.t, j), patterns=[v_at(r, j)]))
            return SV(r)
        s = self.seq(v)
        # a tuple with the members of the sequence, as boxed value, related by length and elements
        ck = ('tupleof', z3num(s.n).sexpr(), to_V(s.get(z3.Int('tpr'))).sexpr())
        if ck in self.setcache: return self.setcache[ck]
        r = SV(self.fresh('tupof', V)); j = z3.Int('toj'); x = z3.Const('tox', V)
        self.assume(V.is_VTup(r.t)); self.assume(v_len(r.t) == s.n)
        el = to_V(s.get(j))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n), z3.And(v_at(r.t, j) == el, v_in(el, r.t))), patterns=[v_at(r.t, j), el] if z3.is_app(el) and el.num_args() else [v_at(r.t, j)]))
        w = z3.Function('towit!%d' % self._cnt('tow'), V, I)
        self.assume(z3.ForAll([x], z3.Implies(v_in(x, r.t), z3.And(w(x) >= 0, w(x) < s.n, v_at(r.t, w(x)) == x)), patterns=[v_in(x, r.t)]))
        self.setcache[ck] = r
        return r

    def b_set(self, args, kw, n):
        if not args: return SetV(0, lambda i: None, 'V', ('cset', ()), 0)
        if isinstance(args[0], SV): raise Unsupported('set of a tag')
        return self.mk_set(args[0])
    b_frozenset = b_set

    def b_dict(self, args, kw, n):
        if not args:
            o = MDict(dict(kw), self.order); self.order += 1; return o
        if isinstance(args[0], MDict):
            o = MDict(dict(args[0].d), self.order); self.order += 1; return o
        items = self.concrete_items(args[0])
        if items is None: raise Unsupported('dict()')
        o = MDict({}, self.order); self.order += 1
        for it in items:
            k, v = it
            if not self.const_key(k): raise Unsupported('dict() key')
            o.d[k] = v
        return o

    def b_sorted(self, args, kw, n):
        r = self.b_list([args[0]], {}, n)
        if isinstance(r, CList) and r.lref is None and len(r.items) > 1 and not all(isinstance(x, (int, Fraction, str)) for x in r.items):
            raise Unsupported('sorted of known list of unknown values')
        if isinstance(r, CList) and r.lref is None:
            if all(isinstance(x, str) for x in r.items): r.items.sort(); return r
        self.list_sort(r, [], kw, n)
        return r

    def b_reversed(self, args, kw, n): return RevList(args[0])
    def b_enumerate(self, args, kw, n): return EnumV(args[0], args[1] if len(args) > 1 else 0)
    def b_zip(self, args, kw, n):
        its = [self.concrete_items(a) for a in args]
        if all(i is not None for i in its): return self.new_list(list(zip(*its)), n)
        ss = [self.seq(a) for a in args]
        ln = z3num(ss[0].n)
        for s in ss[1:]: ln = z3.If(z3num(s.n) < ln, z3num(s.n), ln)
        return SeqV(ln, lambda i: tuple(s.get(i) for s in ss), None)

    def b_map(self, args, kw, n):
        items = self.concrete_items(args[1])
        if items is None:
            g = ast.comprehension(target=ast.Name('$m', ast.Store()), iter=n, ifs=[], is_async=0)
            r = self.pure_comp(n, g, args[1], Env(None, self.prog.mods[sorted(self.prog.mods)[0]]), lambda e: self.call(args[0], [e.vars['$m']], {}, n))
            if r is None: raise Unsupported('map over an unknown sequence')
            return r
        return self.new_list([self.call(args[0], [x], {}, n) for x in items], n)
    def b_filter(self, args, kw, n):
        items = self.concrete_items(args[1])
        if items is None: raise Unsupported('filter')
        return self.new_list([x for x in items if self.test(self.call(args[0], [x], {}, n))], n)
    def b_any(self, args, kw, n):
        items = self.concrete_items(args[0])
        if items is None:
            s = self.seq(args[0]); j = z3.Int('anyj%d' % self.depth_id())
            t = self.pure_eval(lambda: self.truth(s.get(j)))
            return z3.Exists([j], z3.And(j >= 0, j < s.n, z3bool(t)))
        for x in items:
            if self.test(x): return True
        return False
    def b_all(self, args, kw, n):
        items = self.concrete_items(args[0])
        if items is None:
            s = self.seq(args[0]); j = z3.Int('allj%d' % self.depth_id())
            t = self.pure_eval(lambda: self.truth(s.get(j)))
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n), z3bool(t)))
        for x in items:
            if not self.test(x): return False
        return True
    def b_print(self, args, kw, n): return None
    def b_getattr(self, args, kw, n):
        if not isinstance(args[1], str): raise Unsupported('getattr')
        if len(args) == 3:
            o = args[0]
            if isinstance(o, Ref) and args[1] in SCHEMA[o.cls]: return self.getattr(o, args[1], n)
            if isinstance(o, MObj):
                if args[1] in self.mobj.get(o.oid, {}) or class_lookup(self.prog, o.cls, args[1]) is not None: return self.getattr(o, args[1], n)
                return args[2]
            raise Unsupported('getattr with default')
        return self.getattr(args[0], args[1], n)
    def b_setattr(self, args, kw, n):
        if not isinstance(args[1], str): raise Unsupported('setattr')
        self.setattr(args[0], args[1], args[2], n); return None
    def b_hasattr(self, args, kw, n):
        o = args[0]
        if isinstance(o, Ref): return args[1] in SCHEMA[o.cls] or class_lookup(self.prog, self.class_of(o), args[1]) is not None
        raise Unsupported('hasattr')
    def b_chr(self, args, kw, n):
        v = args[0]
        if isinstance(v, SV): v = self.unbox_num(v, n)
        if isinstance(v, int):
            if not 0 <= v < 256: raise PyExc('ValueError', n.lineno, 'chr(%d)' % v)
            return ByteS([v])
        if is_z(v) and v.sort() == I:
            self.require(z3.And(v >= 0, v < 256), 'ValueError', n.lineno)
            return ByteS([v])
        raise Unsupported('chr(%r)' % (v,))
    def b_ord(self, args, kw, n):
        v = args[0]
        if isinstance(v, str) and len(v) == 1: return ord(v)
        if isinstance(v, ByteS):
            if not v.known():
                self.require(v.length() == 1, 'TypeError', n.lineno)
                s, d = IterV.find_at(self, v, 0)
                return s.get(z3num(d)) if isinstance(s, Seg) else s
            if len(v.b) != 1: raise PyExc('TypeError', n.lineno)
            return v.b[0]
        raise Unsupported('ord(%r)' % (v,))
    def b_pow(self, args, kw, n): return self.binop(ast.Pow(), args[0], args[1], n)
