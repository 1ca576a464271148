"""Calls by contract: the caller is checked against the callee's contract, not its body."""
import z3
from .values import *
from .interp import *
from . import spec as SP

class Called(object): pass

def coerce(ip, v, k):
    """value v as an argument of kind k, or None when it is not one"""
    if callable(k) and not isinstance(k, (str, tuple)): return None
    if k == 'num':
        if isinstance(v, bool) or not (is_num_const(v) or (is_z(v) and v.sort() in (I, R))): return None
        return z3real(v)
    if k == 'int':
        if isinstance(v, bool) or isinstance(v, Fraction) or not (isinstance(v, int) or (is_z(v) and v.sort() == I)): return None
        return z3num(v)
    if k == 'bool': return v if isinstance(v, bool) or (is_z(v) and v.sort() == B) else None
    if k in ('V', 'str'):
        if isinstance(v, (CList, LRef, Ref, MObj, PredV)) or v is None: return None
        try: return SV(to_V(v))
        except Exception: return None
    if k == 'any': return v if v is not None else Opaque('none')
    if isinstance(k, tuple):
        if k[0] == 'const':
            try: return Const1(v) if (v is k[1] or (type(v) == type(k[1]) and v == k[1])) else None
            except Exception: return None
        if k[0] in ('ref', 'opt'):
            if not isinstance(v, Ref) or v.cls != k[1]: return None
            if v.opt and k[0] == 'ref': ip.require(v.addr != 0, 'TypeError', 0); return Ref(v.cls, v.addr)
            return v
        if k[0] == 'list':
            if isinstance(v, CList) and v.lref is None: return v
            l = v.lref if isinstance(v, CList) else v
            return l if isinstance(l, LRef) and l.kind == k[1] and not l.opt else None
        if k[0] == 'pred': return v if isinstance(v, PredV) else None
    return None

class Const1(object):
    def __init__(self, v): self.v = v

class ByContract(object):
    def __init__(self, con): self.con = con
    def apply_at_call(self, ip, f, args, kw, n):
        con = self.con
        if con.raises or getattr(con, 'modifies_attrs', None): return NotImplemented
        vals = ip.bind_args(f, args, kw, n)
        names = [x for x, k in con.params]
        a = None
        for var in (con.variants or [None]):
            ks = dict(con.params)
            if var: ks.update(var[1])
            got = {}
            for nm, k in ks.items():
                if nm not in vals: got = None; break
                c = coerce(ip, vals[nm], k)
                if c is None: got = None; break
                got[nm] = c.v if isinstance(c, Const1) else c
            if got is not None and set(vals) <= set(got): a = got; break
        if a is None: return NotImplemented
        from .contracts import Args, Frame, NewView
        line = getattr(n, 'lineno', 0) if n is not None else 0
        A = Args(a); S = SP.SymS(ip)
        for v in a.values():
            if isinstance(v, (Ref, LRef)): ip._oldkeep = getattr(ip, '_oldkeep', []) + [v]
        old = SP.Snap(ip)
        for lab, g in con.requires(S, old, A):
            g = g() if callable(g) and not z3.is_expr(g) else g
            ip.oblige('call of %s at line %d: %s' % (con.target, line, lab), 'pre', z3bool(g), line)
        fr = Frame(S, con, old, A)
        alloc0 = ip.alloc
        for l in ip.loopstack:
            if not l['info'].allocs: l['info'].allocs = True; ip.A.changed = True; raise Restart()
        hi = ip.fresh('alloc', I)
        ip.assume(hi >= alloc0)
        ip.alloc_base = hi; ip.alloc_off = 0; ip.alloc = hi
        x = z3.Int('frx')
        keys = sorted(fr.keys(), key=str)
        for key in keys:
            before = ip.harr(key)
            single = [ad for ks, p, ad in fr.ent if key in ks]
            if single and all(s is not None for s in single):
                new = before
                for s in single: new = z3.Store(new, s, ip.fresh('cell_' + ip.keyname(key), before.sort().range()))
                ip.heap[key] = new
            else:
                new = ip.fresh('H_' + ip.keyname(key), ip.arr_sort(key))
                ip.heap[key] = new
                al = z3bool(fr.allowed(key, x))
                ip.assume(z3.ForAll([x], z3.Implies(z3.And(x > 0, x < alloc0, z3.Not(al)), new[x] == before[x]), patterns=[new[x]]))
            ip.note_write(key, z3.Int('anywhere'))
        for cls in sorted(set(k[1] for k in ip.heap0 if k[0] == 'f') | set(['gspattern.Pattern', 'gspattern.Event'] if not any(k[0] == 'f' for k in ip.heap0) else [])):
            for fl, k in SCHEMA[cls].items():
                if isinstance(k, tuple): ip.harr(('f', cls, fl))
        for key in sorted(set(ip.heap) | set(ip.heap0) | set(keys), key=str):
            for g in ip.arr_facts(key, ip.harr(key), ip.alloc): ip.assume(g)
        r = None
        if con.result is not None: r = ip.fresh_kind(con.result, 'res_' + f.name)
        new = NewView(SP.Snap(ip))
        S.assuming = True
        rv = SP.wrap(new.snap, r)
        for lab, g in con.ensures(S, old, new, A, rv):
            try: g = g() if callable(g) and not z3.is_expr(g) else g
            except SP.Skip: continue
            g = z3bool(g)
            ip.assume(g)
            if z3.is_expr(g): ip.A.hyplabels[g.get_id()] = 'by contract ' + lab; ip.A._hk.append(g)
        ip.A.used_contracts.add('%s (%s)' % (con.__name__, con.target))
        c = Called(); c.con = con; c.a = A; c.old = old; c.new = new; c.result = rv; c.name = con.__name__
        ip.called.append(c)
        return r
