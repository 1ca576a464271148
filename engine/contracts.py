"""Contracts on functions of the repository and their verification, one function at a time."""
import itertools, os, sys, time, traceback
import z3
from .values import *
from .interp import *
from .calls import Exec
from . import spec as SP, prove as PR

class Head(object): pass

MAX_PATHS = 1500
MAX_ROUNDS = 400

class Args(object):
    """Argument handles."""
    def __init__(self, d): self.__dict__.update(d)
    def _items(self): return sorted(self.__dict__.items())

class NewView(object):
    def __init__(self, snap, ov=None): self.snap = snap; self.ov = ov
    def __call__(self, x):
        if isinstance(x, SP.OverlayOnly): return x
        if self.ov and isinstance(SP.raw(x), Ref):
            r = SP.raw(x)
            for ref, ov in self.ov:
                if ref is not None and r.cls == ref.cls and z3num(r.addr).eq(z3num(ref.addr)): return SP.PObj(self.snap, r, ov)
        return SP.view(self.snap, x)
    def __getattr__(self, a): return getattr(self.snap, a)

class Contract(object):
    """Subclass this; see contracts/*.py.  A contract is a class (never instantiated)."""
    target = None
    params = []            # [(name, kind)]
    variants = None        # [(variant name, {param: kind})]: overrides
    result = None          # kind of the result (for calls by contract and loop invariants)
    props = []
    raises = ()            # exceptions that may escape
    use_at_calls = True
    calls = ()             # contracts of callees used at call sites
    bounded = None         # reason why only a bounded check stands in
    @staticmethod
    def requires(S, old, a): return iter(())
    @staticmethod
    def ensures(S, old, new, a, result): return iter(())
    @staticmethod
    def modifies(S, old, a): return iter(())
    @staticmethod
    def invariants(S, L): return iter(())
    @staticmethod
    def ghost(S, old, a): return iter(())
    # lemmas(S, L): yields (label, n, claim): claim(i) for 0 <= i <= n, by induction on i

def short(c): return {'Event': 'gspattern.Event', 'Pattern': 'gspattern.Pattern', 'Track': 'midiio.Track'}.get(c, c)

def heap_fields(spec, fields):
    """(kind) -> list of heap keys"""
    if isinstance(spec, tuple) and spec[0] == 'list': return [('len', spec[1]), ('data', spec[1])]
    c = short(spec)
    return [('f', c, f) for f in (fields or SCHEMA[c].keys())]

class Frame(object):
    """modifies clause evaluated at a state: which cells may change."""
    def __init__(self, S, con, old, a):
        self.S = S; self.old = old
        self.ent = []         # (set of keys, pred(addr)->formula, single address or None)
        for e in con.modifies(S, old, a):
            tgt = e[0]; fields = e[1] if len(e) > 1 else None; pred = e[2] if len(e) > 2 else None
            if isinstance(tgt, (SP.PObj, Ref)):
                r = SP.raw(tgt); ad = z3num(r.addr)
                self.ent.append((set(('f', r.cls, f) for f in (fields or SCHEMA[r.cls])), (lambda x, ad=ad: x == ad), ad))
            elif isinstance(tgt, (SP.PList, LRef)):
                l = tgt if isinstance(tgt, SP.PList) else SP.PList(old, tgt)
                if l.addr is None: continue
                ad = l.addr
                self.ent.append((set([('len', l.kind), ('data', l.kind)]), (lambda x, ad=ad: x == ad), ad))
            elif isinstance(tgt, (MObj, SP.PMObj)): continue
            else:
                keys = set(heap_fields(tgt, fields))
                def p(x, tgt=tgt, pred=pred):
                    if pred is None: return z3.BoolVal(True)
                    v = LRef(tgt[1], x) if isinstance(tgt, tuple) else Ref(short(tgt), x)
                    return z3bool(pred(SP.wrap(old, v)))
                self.ent.append((keys, p, None))
    def allowed(self, key, x):
        fs = [p(x) for ks, p, s in self.ent if key in ks]
        return SP.disj(fs) if fs else z3.BoolVal(False)
    def keys(self):
        out = set()
        for ks, p, s in self.ent: out |= ks
        return out

class Verifier(object):
    def __init__(self, prog, con, variant=None, registry=None, log=None):
        self.prog = prog; self.con = con; self.variant = variant
        from .modular import ByContract
        self.registry = dict((c.target, ByContract(c)) for c in getattr(con, 'calls', ()))
        self.sites = {}; self.loops = {}; self.desugar = {}
        self.functions = set(); self.trusted = set()
        self.allowed_exc = set(con.raises)
        self.ext = getattr(con, 'ext', {})
        self.changed = False
        self.log = log
        self.cand_cache = {}; self.hyplabels = {}; self._hk = []
        self.used_contracts = set()

    def quick(self):
        s = z3.SimpleSolver(); s.set('rlimit', 600000); s.set('timeout', 3000); s.set('auto_config', False); s.set('mbqi', False)
        return s

    # ---------------------------------------------------------------- parameters
    def kinds(self):
        out = list(self.con.params)
        if self.variant:
            ov = self.variant[1]
            out = [(n, ov.get(n, k)) for n, k in out] + [(n, k) for n, k in ov.items() if n not in dict(out)]
        return out

    def inst(self, ip, k, name):
        if callable(k) and not isinstance(k, (str, tuple)): return k(ip, name)
        if k == 'int': return z3.Int('a_' + name)
        if k == 'num': return z3.Real('a_' + name)
        if k == 'bool': return z3.Bool('a_' + name)
        if k == 'V': return SV(z3.Const('a_' + name, V))
        if k == 'str':
            t = z3.Const('a_' + name, V); ip.assume(V.is_VStr(t)); return SV(t)
        if k == 'any': return Opaque(name)
        if isinstance(k, tuple):
            if k[0] in ('ref', 'opt', 'list', 'optlist'):
                a = z3.Int('a_' + name)
                ip.assume(a < ip.alloc0); ip.assume(a >= 0 if k[0].startswith('opt') else a > 0)
                ip.A_oldaddr[a.get_id()] = True; self._keep.append(a)
                if k[0] in ('list', 'optlist'): return LRef(k[1], a, k[0] == 'optlist')
                return Ref(k[1], a, k[0] == 'opt')
            if k[0] == 'const': return k[1]
            if k[0] == 'tuple': return tuple(self.inst(ip, x, '%s_%d' % (name, n)) for n, x in enumerate(k[1]))
            if k[0] == 'clist':
                c = CList([self.inst(ip, x, '%s_%d' % (name, n)) for n, x in enumerate(k[1])], Site(), ip.order); ip.order += 1
                return c
            if k[0] == 'dict':
                d = MDict({kk: self.inst(ip, x, '%s_%s' % (name, kk)) for kk, x in k[1].items()}, ip.order); ip.order += 1
                return d
            if k[0] == 'pred':
                f = z3.Function('pred_' + name, V, B)
                p = PredV(lambda x: f(to_V(x))); p.spec = lambda x: f(to_V(x))
                return p
            if k[0] == 'obj':
                m, c = k[1].split(':')
                o = MObj(ClassV(self.prog.mods[m].defs[c][1], self.prog.mods[m]), ip.noid); ip.noid += 1
                ip.mobj[o.oid] = {}
                for at, kk in k[2].items(): ip.mobj[o.oid][at] = self.inst(ip, kk, '%s_%s' % (name, at))
                return o
        raise Unsupported('parameter kind %r' % (k,))

    # ---------------------------------------------------------------- one path
    def setup(self, ip):
        self._keep = []
        vals = {}
        for n, k in self.kinds(): vals[n] = self.inst(ip, k, n)
        a = Args(dict(vals))
        S = SP.SymS(ip)
        old = SP.Snap(ip)
        for lab, f in self.con.requires(S, old, a):
            f = f() if callable(f) and not z3.is_expr(f) else f
            ip.assume(f)
        old = SP.Snap(ip)
        ip.old = old; ip.args_h = a; ip.S = S
        for lab, f in self.con.ghost(S, old, a):
            ip.assume(f)
        return vals

    def run_path(self, prefix):
        ip = Exec(self.prog, self.registry, self)
        ip.start(prefix)
        outcome = None
        try:
            vals = self.setup(ip)
            fn = self.prog.func(self.con.target)
            if isinstance(fn, tuple): fn = fn[1]
            kw = dict(vals)
            try:
                r = ip.call_func(fn, [], kw, None)
                outcome = 'return'
                self.post(ip, r)
            except PyExc as e:
                outcome = 'raise'
                if e.name in self.con.raises:
                    for lab, f in getattr(self.con, 'on_raise', lambda *x: iter(()))(ip.S, ip.old, NewView(SP.Snap(ip)), ip.args_h, e.name):
                        f = f() if callable(f) and not z3.is_expr(f) else f
                        ip.oblige('raises %s: %s' % (e.name, lab), 'post', f, e.line)
                else:
                    ip.oblige('no %s (%s)' % (e.name, e.msg), 'exc', z3.BoolVal(False), e.line)
        except PathEnd:
            outcome = 'cut'
        except Infeasible:
            outcome = 'infeasible'
        return ip, outcome

    def post(self, ip, r):
        S = ip.S; new = NewView(SP.Snap(ip)); old = ip.old; a = ip.args_h
        rv = SP.wrap(new.snap, r)
        self.end_lemmas(ip)
        if self.con.result is None and r is not None and not getattr(self.con, 'any_result', False):
            rv = SP.wrap(new.snap, r)
        for lab, f in self.con.ensures(S, old, new, a, rv):
            try:
                g = f() if callable(f) and not z3.is_expr(f) else f
            except SP.Skip as e:
                g = z3.BoolVal(False)
                lab = '%s (%s)' % (lab, e)
            ip.oblige('ensures ' + lab, 'post', z3bool(g))
        # frame
        fr = Frame(S, self.con, old, a)
        x = z3.Int('frx')
        for key in sorted(new.snap.heap, key=str):
            cur = new.snap.heap[key]; h0 = ip.heap0.get(key)
            if h0 is None or cur.eq(h0): continue
            al = fr.allowed(key, x)
            ip.oblige('frame %s' % ip.keyname(key), 'frame',
                      z3.ForAll([x], z3.Implies(z3.And(x > 0, x < ip.alloc0, z3.Not(al)), cur[x] == h0[x])))
        ok = set(); mo = getattr(self.con, 'modifies_attrs', {})
        for pn, h in a._items():
            if isinstance(h, MObj):
                before, after = old.mobj.get(h.oid, {}), new.snap.mobj.get(h.oid, {})
                for at in sorted(set(before) | set(after)):
                    if at in mo.get(pn, ()): continue
                    v0, v1 = before.get(at), after.get(at)
                    same = (at in before and at in after) and self.same_val(ip, v0, v1)
                    if same is not True: ip.oblige('frame %s.%s' % (pn, at), 'frame', z3bool(same))

    def same_val(self, ip, a, b):
        if a is b: return True
        if isinstance(a, (CList, LRef)) and isinstance(b, (CList, LRef)):
            la = a.lref if isinstance(a, CList) else a; lb = b.lref if isinstance(b, CList) else b
            if la is None or lb is None: return False
            return la.addr == lb.addr
        if isinstance(a, Ref) and isinstance(b, Ref): return a.addr == b.addr
        try: return ip.eq(a, b)
        except Exception: return False

    # ---------------------------------------------------------------- candidates
    def contract_cands(self, h):
        ip = h.ip; S = SP.SymS(ip); out = []; names = set()
        con = self.con
        def add(label, f):
            if f is True or (z3.is_expr(f) and z3.is_true(f)): return
            if isinstance(f, bool): return
            if label in names: return
            names.add(label); out.append((label, f))
        cur, entry, old, a = h.cur, h.entry, ip.old, ip.args_h
        lists = [(n, v) for n, v in sorted(h.locals.items()) if self.aslist(v) is not None]
        # results of the surrounding call
        # ---- explicit invariants of the contract
        L = Head(); L.__dict__.update(h.__dict__); L.old = old; L.a = a; L.new = NewView(cur); L.entryv = NewView(entry)
        L.lists = [(n, SP.wrap(cur, v)) for n, v in lists]
        L.nums = []
        for n, v in sorted(h.locals.items()):
            if (is_z(v) and v.sort() in (I, R)) or (is_num_const(v) and n in h.lp.kinds):
                L.nums.append((n, z3real(v) if h.lp.kinds.get(n) == 'num' else z3num(v)))
        L.objs = [(n, SP.wrap(cur, v)) for n, v in sorted(h.locals.items()) if isinstance(v, Ref)]
        L.bools = [(n, z3.BoolVal(v) if isinstance(v, bool) else v) for n, v in sorted(h.locals.items()) if (is_z(v) and v.sort() == B) or isinstance(v, bool)]
        L.outer = []
        for n0, i, lst, en in h.subs:
            o = Head(); o.i = i; o.n0 = n0; o.seq = SP.PList(cur, lst) if lst is not None else None; L.outer.append(o)
        L.vals = [(n, SP.wrap(cur, v)) for n, v in sorted(h.locals.items()) if isinstance(v, SV)]
        L.elem = (lambda j: SP.wrap(cur, h.get(j))) if h.get is not None and h.lst is None else ((lambda j: L.seq[j]) if h.lst is not None else None)
        L.seq = SP.PList(cur, h.lst) if h.lst is not None else None
        L.calls = list(ip.called)
        L.seq0 = SP.PList(entry, h.lst) if h.lst is not None else None
        try:
            for lab, f in con.invariants(S, L):
                try:
                    g = f() if callable(f) and not z3.is_expr(f) else f
                    add('inv ' + lab, g)
                except (SP.Skip, Unsupported, TypeError, AttributeError, z3.Z3Exception): continue
        except (SP.Skip, AttributeError, TypeError): pass
        # ---- index range / numeric locals
        for n, v in h.locals.items():
            if n in h.lp.assigned and is_num_const(v) and h.lp.kinds.get(n) == 'int' and isinstance(v, int): v = z3num(v)
            if n in h.lp.assigned and is_z(v) and v.sort() == I:
                add('nonneg ' + n, v >= 0)
                if h.i is not None:
                    add('idx ' + n, v == h.i); add('le ' + n, v <= h.i)
        if h.own is not None and h.lst is None: pass
        if h.own is not None: add('index within', z3.Implies(h.n0 >= 0, h.i <= h.n0))
        # ---- what was known of a number when the loop was reached
        if h.i is None:
            pairs = []
            for n in sorted(h.lp.assigned):
                v = h.locals.get(n); e0 = h.entry_locals.get(n)
                if is_z(v) and is_z(e0) and v.sort() == e0.sort() and v.sort() in (I, R) and not z3.is_int_value(e0) and not z3.is_rational_value(e0): pairs.append((e0, v))
            if pairs:
                for f in entry.pc:
                    if SP.has_quant(f) or not SP.is_cmp(f): continue
                    g = z3.substitute(f, *pairs)
                    if f.get_id() != g.get_id() or 'entry fact ' + f.sexpr() not in h.lp.dead: add('entry fact ' + f.sexpr(), g)
        # ---- identity and freshness of lists and objects held in locals
        for n in sorted(h.lp.assigned):
            v = h.locals.get(n); e0 = h.entry_locals.get(n)
            l = self.aslist(v) if v is not None else None
            if l is None and not isinstance(v, Ref): continue
            ad = z3num((l or v).addr)
            e0l = self.aslist(e0) if e0 is not None else None
            if e0l is not None or isinstance(e0, Ref): add('same object ' + n, ad == z3num((e0l or e0).addr))
            add('new object ' + n, ad >= ip.alloc0)
            add('made here ' + n, ad >= entry.alloc)
        # ---- memory frames
        x = z3.Int('frx'); q = z3.Int('q0')
        if h.lp.heapmods:
            fr = Frame(S, con, old, a)
            for key in sorted(h.lp.heapmods, key=str):
                kn = ip.keyname(key)
                c, e = cur.harr(key), entry.harr(key)
                h0 = ip.heap0.get(key)
                strong = 'old cells kept ' + kn
                add(strong, forall([x], z3.Implies(z3.And(x > 0, x < entry.alloc), c[x] == e[x]), [c[x]]))
                same0 = h0 is not None and e.eq(h0)
                if strong not in h.lp.dead and (same0 or h0 is None): continue     # the weaker readings follow
                if h0 is not None:
                    al = fr.allowed(key, x)
                    if not (z3.is_false(al) or al is False): add('frame ' + kn, forall([x], z3.Implies(z3.And(x > 0, x < ip.alloc0, z3.Not(al)), c[x] == h0[x]), [c[x]]))
                    add('input cells kept ' + kn, forall([x], z3.Implies(z3.And(x > 0, x < ip.alloc0), c[x] == h0[x]), [c[x]]))
                if strong not in h.lp.dead: continue
                if key[0] in ('len', 'data'):
                    ads = []
                    for n, v in self.all_lists(h, cur):
                        l = self.aslist(v)
                        if l is not None and l.kind == key[1]: ads.append((n, z3num(l.addr)))
                    for n, ad in ads:
                        add('list %s kept %s' % (n, kn), cur.get(key, ad) == entry.get(key, ad))
                        add('other lists kept than %s %s' % (n, kn), forall([x], z3.Implies(z3.And(x > 0, x < entry.alloc, x != ad), c[x] == e[x]), [c[x]]))
                else:
                    for n, v in sorted(h.locals.items()):
                        if isinstance(v, Ref) and v.cls == key[1]:
                            ad = z3num(v.addr)
                            add('field of %s kept %s' % (n, kn), cur.get(key, ad) == entry.get(key, ad))
                            add('other objects kept than %s %s' % (n, kn), forall([x], z3.Implies(z3.And(x > 0, x < entry.alloc, x != ad), c[x] == e[x]), [c[x]]))
                    for hh in [h] :
                        if hh.lst is not None and isinstance(hh.lst.kind, tuple) and hh.lst.kind[1] == key[1]:
                            d = entry.get(('data', hh.lst.kind), hh.lst.addr)
                            n = entry.get(('len', hh.lst.kind), hh.lst.addr)
                            add('unvisited kept ' + kn, forall([q], z3.Implies(z3.And(q >= hh.i, q < n), c[d[q]] == e[d[q]]), [d[q]]))
        # ---- locals holding lists: contents freshness
        for n, v in lists:
            l = self.aslist(v)
            if h.i is not None and ('len', l.kind) in h.lp.heapmods: add('as long as steps done ' + n, cur.get(('len', l.kind), l.addr) == h.i)
            if isinstance(l.kind, tuple) and l.kind[0] == 'ref' and (('data', l.kind) in h.lp.heapmods):
                d = cur.get(('data', l.kind), l.addr); ln = cur.get(('len', l.kind), l.addr)
                add('fresh elements ' + n, forall([q], z3.Implies(z3.And(q >= 0, q < ln), d[q] >= ip.alloc0), [d[q]]))
                add('elements made here ' + n, forall([q], z3.Implies(z3.And(q >= 0, q < ln), d[q] >= entry.alloc), [d[q]]))
                r = z3.Int('q1')
                add('distinct ' + n, forall([q, r], z3.Implies(z3.And(q >= 0, q < r, r < ln), d[q] != d[r]), [d[q], d[r]]))
                add('increasing ' + n, forall([q, r], z3.Implies(z3.And(q >= 0, q < r, r < ln), d[q] < d[r]), [d[q], d[r]]))
        # ---- the postcondition read for the part done so far
        if not getattr(con, 'readings', True): return out
        results = self.result_readings(h, cur, lists)
        overlays = [('', None)]
        for pn, hd in a._items():
            if isinstance(hd, Ref):
                for f, k in SCHEMA[hd.cls].items():
                    if isinstance(k, tuple) and k[0] == 'list':
                        for n, v in lists:
                            l = self.aslist(v)
                            if l.kind == k[1]: overlays.append((' %s.%s=%s' % (pn, f, n), [(hd, {f: v})]))
        subs = self.substitutions(h)
        for on, ov in overlays:
            nv = NewView(cur, ov)
            for rn, rv in results:
                try:
                    clauses = list(con.ensures(S, old, nv, a, rv))
                except (SP.Skip, AttributeError, TypeError): continue
                for lab, f in clauses:
                    try:
                        g = f() if callable(f) and not z3.is_expr(f) else f
                    except (SP.Skip, Unsupported, TypeError, AttributeError, z3.Z3Exception): continue
                    if isinstance(g, bool) or g is None: continue
                    if z3.is_true(g): continue
                    add('post[%s%s%s]' % (lab, on, rn), g)
        if subs: self.partial_cands(h, subs, S, add)
        return out

    def partial_cands(self, h, subs, S, add):
        """The postcondition with a length of a fixed list replaced by the loop's progress. The formula must be the same
        function of the state at every visit of the loop head, so it is built over placeholders for everything the loop
        changes, the length is replaced there, and the placeholders are replaced last."""
        ip = h.ip; con = self.con; old, a = ip.old, ip.args_h
        rep = []
        self.phn = getattr(self, 'phn', 0) + 1
        def ph(t):
            c = z3.Const('ph!%d!%d' % (self.phn, len(rep)), t.sort()); rep.append((c, t)); return c
        def phv(v, nm=None):
            if isinstance(v, bool): return ph(z3.BoolVal(v))
            if is_z(v) or is_num_const(v): return ph(z3real(v) if h.lp.kinds.get(nm) == 'num' else z3num(v) if not (is_z(v) and v.sort() not in (I, R)) else v)
            if isinstance(v, CList) and v.lref is not None: v = v.lref
            if isinstance(v, LRef): return LRef(v.kind, ph(z3num(v.addr)), v.opt)
            if isinstance(v, Ref): return Ref(v.cls, ph(z3num(v.addr)), v.opt)
            if isinstance(v, SV): return SV(ph(v.t))
            if isinstance(v, tuple): return tuple(phv(x) for x in v)
            return v
        heap = dict(h.cur.heap)
        for key in sorted(h.lp.heapmods, key=str): heap[key] = ph(h.cur.harr(key))
        cur = SP.Snap(ip, heap, h.cur.mobj, h.cur.alloc)
        for oid, at in sorted(h.lp.mobjmods):
            if at in cur.mobj.get(oid, {}): cur.mobj[oid][at] = phv(cur.mobj[oid][at])
        hh = Head(); hh.__dict__.update(h.__dict__); hh.cur = cur
        hh.locals = dict((n, phv(v, n) if n.split('@')[0] in h.lp.assigned else v) for n, v in h.locals.items())
        subs = self.substitutions(hh)
        lists = [(n, v) for n, v in sorted(hh.locals.items()) if self.aslist(v) is not None]
        overlays = [('', None)]
        for pn, hd in a._items():
            if isinstance(hd, Ref):
                for f, k in SCHEMA[hd.cls].items():
                    if isinstance(k, tuple) and k[0] == 'list':
                        for n, v in lists:
                            l = self.aslist(v)
                            if l.kind == k[1]: overlays.append((' %s.%s=%s' % (pn, f, n), [(hd, {f: v})]))
        results = self.result_readings(hh, cur, lists)
        for on, ov in overlays:
            nv = NewView(cur, ov)
            for rn, rv in results:
                try: clauses = list(con.ensures(S, old, nv, a, rv))
                except (SP.Skip, AttributeError, TypeError): continue
                for lab, f in clauses:
                    names, npc, nqf = dict(ip.names), len(ip.pc), len(ip.qf)
                    try:
                        g = f() if callable(f) and not z3.is_expr(f) else f
                    except (SP.Skip, Unsupported, TypeError, AttributeError, z3.Z3Exception): g = None
                    extra = ip.pc[npc:]; del ip.pc[npc:]; del ip.qf[nqf:]
                    if g is None or isinstance(g, bool) or not z3.is_expr(g) or ip.names != names or SP.fold_mentions(g, 'ph!'): continue
                    for e in extra: ip.assume(z3.substitute(e, *rep) if rep else e)
                    for sn, pairs in subs:
                        g2 = z3.substitute(g, *pairs)
                        if g2.eq(g): continue
                        add('post[%s%s%s]%s' % (lab, on, rn, sn), z3.substitute(g2, *rep) if rep else g2)

    def lemmas(self, ip, lp, h, which='lemmas'):
        """facts by induction the contract asks for when a loop is reached (head_lemmas: at the start of every
        iteration, step_lemmas: at its end)"""
        con = self.con
        if not hasattr(con, which): return
        S = SP.SymS(ip)
        L = Head(); L.__dict__.update(h.__dict__); L.old = ip.old; L.a = ip.args_h; L.new = NewView(h.cur); L.entryv = NewView(h.entry)
        L.calls = list(ip.called); L.S = S
        L.seq = SP.PList(h.cur, h.lst) if h.lst is not None else None
        L.lists = [(n, SP.wrap(h.cur, v)) for n, v in sorted(h.locals.items()) if self.aslist(v) is not None]
        self.induct(ip, lp, S, getattr(con, which), L)

    def end_lemmas(self, ip):
        con = self.con
        if not hasattr(con, 'end_lemmas'): return
        if not hasattr(self, '_endlp'): self._endlp = LoopInfo('end', None, 0)
        S = SP.SymS(ip); cur = SP.Snap(ip)
        L = Head(); L.old = ip.old; L.a = ip.args_h; L.new = NewView(cur); L.calls = list(ip.called); L.S = S; L.line = 0
        self.induct(ip, self._endlp, S, con.end_lemmas, L)

    def induct(self, ip, lp, S, lemmas, L):
        try: todo = list(lemmas(S, L))
        except (SP.Skip, AttributeError, TypeError): return
        for lab, n, claim in todo:
            lab = 'lemma ' + lab
            if lab in lp.dead: continue
            lp.seen.add(lab)
            try:
                k = ip.fresh('ind', I); q = z3.Int('li')
                base = z3bool(claim(z3.IntVal(0))); here = z3bool(claim(k)); nxt = z3bool(claim(k + 1)); gen = z3bool(claim(q))
            except (SP.Skip, Unsupported, TypeError, AttributeError, z3.Z3Exception): continue
            n = z3num(n)
            ip.oblige('loop %d init: %s (base)' % (lp.line, lab), 'cand', base, lp.line, lp, lab)
            ip.oblige('loop %d init: %s (step)' % (lp.line, lab), 'cand', z3.Implies(z3.And(k >= 0, k < n, here), nxt), lp.line, lp, lab)
            ip.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= n), gen)))
            ip.assume(z3.Implies(n >= 0, z3bool(claim(n))))

    def all_lists(self, h, cur):
        out = []
        for n, v in sorted(h.locals.items()):
            if self.aslist(v) is not None: out.append((n, v))
            elif isinstance(v, Ref) and not v.opt:
                for f, k in SCHEMA[v.cls].items():
                    if isinstance(k, tuple) and k[0] == 'list':
                        out.append((n + '.' + f, LRef(k[1], cur.get(('f', v.cls, f), v.addr))))
            elif isinstance(v, MObj):
                for at, w in sorted(cur.mobj.get(v.oid, {}).items()):
                    if self.aslist(w) is not None: out.append((n + '.' + at, w))
        if h.lst is not None: out.append(('<iterated>', h.lst))
        return out

    def aslist(self, v):
        if isinstance(v, LRef) : return v
        if isinstance(v, CList) and v.lref is not None: return v.lref
        return None

    def result_readings(self, h, cur, lists):
        k = self.con.result
        if k is None: return [('', None)]
        out = []
        if isinstance(k, tuple) and k[0] == 'ref':
            for n, v in sorted(h.locals.items()):
                if isinstance(v, Ref) and v.cls == k[1]:
                    out.append((' result=' + n, SP.PObj(cur, v)))
            for f, kk in SCHEMA[k[1]].items():
                if isinstance(kk, tuple) and kk[0] == 'list':
                    for n, v in lists:
                        if self.aslist(v).kind == kk[1]: out.append((' result.%s=%s' % (f, n), SP.OverlayOnly(cur, {f: v})))
        elif isinstance(k, tuple) and k[0] == 'list':
            for n, v in lists:
                if self.aslist(v).kind == k[1]: out.append((' result=' + n, SP.PList(cur, self.aslist(v))))
            for n, v in sorted(h.locals.items()):
                if isinstance(v, CList) and v.lref is None and (not v.items): out.append((' result=' + n, SP.PList(cur, v)))
        else:
            for n, v in sorted(h.locals.items()):
                if is_z(v) or isinstance(v, SV) or is_num_const(v): out.append((' result=' + n, v.t if isinstance(v, SV) else v))
        if k == 'bool': out += [(' result=False', False), (' result=True', True)]
        if k == 'none' or (isinstance(k, tuple) and k[0] in ('opt', 'optlist')): out += [(' result=None', None)]
        if not out: out = [('', SP.OverlayOnly(cur, {}))]
        return out

    def substitutions(self, h):
        pairs = []
        for n0, i, lst, entry in h.subs:
            if n0 is not None and not z3.is_int_value(z3.simplify(n0)): pairs.append((n0, i))
        outs = []
        own = None
        if h.own is not None and not z3.is_int_value(z3.simplify(h.own[0])): own = h.own
        if own: outs.append((' up to here', [own]))
        if pairs:
            outs.append((' outer part', pairs))
            if own: outs.append((' outer part, up to here', pairs + [own]))
        if h.while_idx:
            for nm in h.while_idx:
                v = h.locals.get(nm)
                if (is_z(v) and v.sort() == I) or (isinstance(v, int) and not isinstance(v, bool)):
                    for bn, bt in self.bounds(h):
                        outs.append((' %s:=%s' % (bn, nm), pairs + [(bt, z3num(v))]))
        return outs

    def bounds(self, h):
        """lengths of the argument lists (for hand-written index loops)"""
        ip = h.ip; out = []
        for pn, hd in ip.args_h._items():
            if isinstance(hd, Ref):
                for f, k in SCHEMA[hd.cls].items():
                    if isinstance(k, tuple) and k[0] == 'list':
                        ad = h.entry.get(('f', hd.cls, f), hd.addr)
                        out.append(('len(%s.%s)' % (pn, f), h.entry.get(('len', k[1]), ad)))
            elif isinstance(hd, LRef): out.append(('len(%s)' % pn, h.entry.get(('len', hd.kind), hd.addr)))
        return out

    # ---------------------------------------------------------------- whole function
    def all_paths(self):
        work = [[]]; obls = []; outcomes = []; self.entries = {}
        npaths = 0
        while work:
            prefix = work.pop()
            ip, oc = self.run_path(prefix)
            npaths += 1
            if npaths > MAX_PATHS: raise Unsupported('more than %d paths' % MAX_PATHS)
            work += ip.newpaths
            for o in ip.obls: o.path = list(ip.trace)
            obls += ip.obls
            outcomes.append((oc, list(ip.pc), list(ip.trace)))
        return obls, outcomes

    def verify(self, budget=10.0, deadline=None):
        """returns dict report"""
        t0 = time.time()
        rounds = 0
        proved = {}
        try:
            while True:
                rounds += 1
                if rounds > MAX_ROUNDS: raise Unsupported('no fixpoint')
                if deadline and time.time() > deadline: raise Unsupported('time limit')
                self.changed = False
                try:
                    obls, outcomes = self.all_paths()
                except Restart:
                    continue
                if self.changed: continue
                # check candidates
                dropped = 0
                for phase in ('init', 'step'):
                    for o in obls:
                        if o.kind != 'cand' or o.cand in o.loop.dead: continue
                        if (' init: ' in o.label) != (phase == 'init'): continue
                        if deadline and time.time() > deadline: raise Unsupported('time limit')
                        key = self.okey(o)
                        if key in proved: continue
                        ok, rs = PR.prove(o.pc, o.goal, budget, cheap=2 if self.important(o.cand) else 1, labels=self.hyplabels, label=o.cand)
                        if ok: proved[key] = (rs, o)
                        else:
                            o.loop.dead.add(o.cand); dropped += 1
                            if self.log: self.log('drop %s (%s) %s' % (o.label, rs[-1][1].reason, o.path))
                    if dropped: break      # what fails on entry is not assumed while the rest is checked
                if self.log: self.log('round %d: %d dropped, %.1fs' % (rounds, dropped, time.time() - t0))
                if dropped == 0: break
            failures = []; items = []
            for o in obls:
                if o.kind == 'cand':
                    items.append((o.label, True, [r.backend for g, r in proved[self.okey(o)][0]])); continue
                ok, rs = PR.prove(o.pc, o.goal, budget, labels=self.hyplabels)
                items.append((o.label, ok, [r.backend for g, r in rs]))
                if not ok:
                    failures.append({'obligation': o.label, 'line': o.line, 'path': o.path, 'reason': rs[-1][1].reason,
                                     'goal': str(rs[-1][0])[:3000], 'model': rs[-1][1].model})
                    if self.log: self.log('FAIL %s line %s path %s: %s\n   %s' % (o.label, o.line, o.path, rs[-1][1].reason, str(rs[-1][0])[:600]))
            # vacuity: some path must reach the end
            reach = 0
            for oc, pc, tr in outcomes:
                if oc in ('return', 'raise'):
                    ok, rs = PR.prove(pc, z3.BoolVal(False), 2.0, cheap=1)
                    if not ok: reach += 1
            # ... and every loop body must be enterable, or its obligations say nothing
            for line, pcs in sorted(self.entries.items()):
                if all(PR.prove(pc, z3.BoolVal(False), 2.0, cheap=1)[0] for pc in pcs): raise Unsupported('the loop at line %d is never entered' % line)
            return {'ok': not failures and reach > 0, 'unsupported': None, 'obligations': items, 'failures': failures,
                    'paths': len(outcomes), 'reachable_returns': reach, 'functions': sorted(self.functions), 'trusted': sorted(self.trusted),
                    'invariants': sum(len(l.seen - l.dead) for l in self.loops.values()), 'loops': len(self.loops), 'used': sorted(self.used_contracts), 'time': time.time() - t0,
                    'vacuous': reach == 0}
        except Unsupported as e:
            return {'ok': False, 'unsupported': str(e), 'obligations': [], 'failures': [], 'paths': 0, 'functions': sorted(self.functions), 'trusted': sorted(self.trusted), 'time': time.time() - t0, 'loops': len(self.loops), 'invariants': 0, 'used': sorted(self.used_contracts), 'reachable_returns': 0, 'vacuous': False}

    def important(self, label):
        return label.startswith('inv ') or label.startswith('post[')

    def okey(self, o):
        return hash((tuple(p.get_id() for p in o.pc), o.goal.get_id()))
