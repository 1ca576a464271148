"""Discharging obligations: goal splitting, spec-function unfolding, solver portfolio."""
import itertools, time, subprocess, tempfile, os, hashlib
import z3
from .values import *
from . import spec as SP

STATS = {'z3': 0, 'z3-arith': 0, 'z3-mbqi': 0, 'cvc5': 0, 'trivial': 0}
TIME = {'solver': 0.0, 'queries': 0}

_sk = [0]
_skc = {}
def skolem(q):
    key = q.get_id()
    if key in _skc: return _skc[key][0]
    cs = []
    for k in range(q.num_vars()):
        _sk[0] += 1
        cs.append(z3.Const('sk_%s!%d' % (q.var_name(k).split('!')[0], _sk[0]), q.var_sort(k)))
    r = z3.substitute_vars(q.body(), *reversed(cs))
    _skc[key] = (r, q)
    return r

def split(goal, hyps=()):
    """goal -> list of (extra hypotheses, atomic goal)"""
    g = goal
    if z3.is_true(g): return []
    if z3.is_and(g):
        out = []
        for c in g.children(): out += split(c, hyps)
        return out
    if z3.is_implies(g):
        a, b = g.children()
        return split(b, tuple(hyps) + tuple(flat(a)))
    if z3.is_quantifier(g) and g.is_forall():
        return split(skolem(g), hyps)
    if z3.is_not(g):
        a = g.arg(0)
        if z3.is_or(a):
            out = []
            for c in a.children(): out += split(z3.Not(c), hyps)
            return out
        if z3.is_not(a): return split(a.arg(0), hyps)
        if z3.is_quantifier(a) and a.is_exists():
            return split(z3.Not(skolem(a)), hyps)
        if z3.is_implies(a):
            x, y = a.children()
            return split(x, hyps) + split(z3.Not(y), hyps)
    if z3.is_or(g):
        cs = g.children()
        for i in range(len(cs) - 1, -1, -1):
            if z3.is_and(cs[i]):
                rest = tuple(x for j, c in enumerate(cs) if j != i for x in flat(z3.Not(c)))
                out = []
                for c in cs[i].children(): out += split(c, tuple(hyps) + rest)
                return out
    if z3.is_eq(g) and g.arg(0).sort() == B and (has_q(g.arg(0)) or has_q(g.arg(1))):
        a, b = g.children()
        return split(z3.Implies(a, b), hyps) + split(z3.Implies(b, a), hyps)
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = g.children()
        return split(a, tuple(hyps) + tuple(flat(c))) + split(b, tuple(hyps) + tuple(flat(z3.Not(c))))
    return [(tuple(hyps), g)]

def flat(h):
    """conjuncts of a hypothesis, existentials opened"""
    if z3.is_and(h):
        out = []
        for c in h.children(): out += flat(c)
        return out
    if z3.is_quantifier(h) and h.is_exists(): return flat(skolem(h))
    if z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_forall():
        return flat(z3.Not(skolem(h.arg(0))))
    if z3.is_not(h) and z3.is_implies(h.arg(0)):
        a, b = h.arg(0).children()
        return flat(a) + flat(z3.Not(b))
    if z3.is_not(h) and z3.is_or(h.arg(0)):
        out = []
        for c in h.arg(0).children(): out += flat(z3.Not(c))
        return out
    return [h]

_hq = {}
def has_q(t):
    k = t.get_id()
    if k in _hq: return _hq[k][0]
    r = z3.is_quantifier(t) or any(has_q(c) for c in t.children())
    _hq[k] = (r, t)
    return r

def fold_apps(terms):
    """ground applications of folds"""
    seen = set(); out = {}; declseen = {}; arity = set()
    stack = list(terms)
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(t):
            stack.append(t.body()); continue
        if z3.is_app(t):
            nm = t.decl().name()
            if nm in SP.FOLD_BY_DECL:
                declseen[nm] = True
                if not has_var(t): out[k] = t
            stack.extend(t.children())
    return list(out.values()), list(declseen)

_hv = {}
def has_var(t):
    k = t.get_id()
    if k in _hv: return _hv[k][0]
    r = z3.is_var(t) or any(has_var(c) for c in t.children()) or (z3.is_quantifier(t) and True)
    _hv[k] = (r, t)
    return r

def fold_facts(terms, depth=2):
    out = []; done = set(); axd = set()
    new = list(terms)
    for _ in range(depth):
        apps, decls = fold_apps(new)
        new = []
        for nm in decls:
            if nm not in axd:
                axd.add(nm); out += SP.fold_axioms(SP.FOLD_BY_DECL[nm])
        for t in apps:
            F = SP.FOLD_BY_DECL[t.decl().name()]
            a = t.arg(0); ps = t.children()[1:]
            if t.get_id() in done: continue
            done.add(t.get_id())
            sa = z3.simplify(a)
            if z3.is_int_value(sa):
                n = sa.as_long()
                out.append(t == F.g(sa, *ps))
                if 0 <= n <= 8:
                    for m in range(0, n + 1):
                        f = F.unfold(z3.IntVal(m), ps); out.append(f); new.append(f)
                else: out.append(F.unfold(a, ps))
                continue
            if _ == 0 or (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD):
                f = F.unfold(a, ps); out.append(f); new.append(f)
                if F.named is not None: out += F.define(a, ps) + F.define(z3.simplify(a - 1), ps)
    # folds with equal bodies over different spellings are handled by hash-consing only
    return out

def uses_tuples(terms):
    return True

def background(terms):
    """axioms of the value model relevant for the terms"""
    out = []
    names = set(); seen = set(); stack = list(terms)
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): stack.append(t.body()); continue
        if z3.is_app(t): names.add(t.decl().name()); stack.extend(t.children())
    x, y = z3.Const('bx', V), z3.Const('by', V)
    if 'v_len' in names: out.append(z3.ForAll([x], v_len(x) >= 0, patterns=[v_len(x)]))
    if any(n.startswith('tup') for n in names) or 'v_in' in names:
        out += tuple_axioms()
    if 'v_in' in names:
        # membership of a tuple is equality with an element
        w = z3.Function('v_idx', V, V, I); i = z3.Int('bi')
        out.append(z3.ForAll([x, y], z3.Implies(z3.And(V.is_VTup(y), v_in(x, y)), z3.And(w(x, y) >= 0, w(x, y) < v_len(y), v_at(y, w(x, y)) == x)), patterns=[v_in(x, y)]))
        if 'v_at' in names:
            out.append(z3.ForAll([y, i], z3.Implies(z3.And(V.is_VTup(y), i >= 0, i < v_len(y)), v_in(v_at(y, i), y)), patterns=[v_at(y, i)]))
        # a string contains itself and the empty string
        out.append(z3.ForAll([x, y], z3.Implies(z3.And(V.is_VStr(x), v_in(x, y), V.is_VStr(y)), v_len(x) <= v_len(y)), patterns=[v_in(x, y)]))
        out.append(z3.ForAll([x], z3.Implies(V.is_VStr(x), v_in(x, x)), patterns=[v_in(x, x)]))
    for sid, s in STR.rev.items():
        if 'v_len' in names or 'v_in' in names: out.append(v_len(V.VStr(sid)) == len(s))
    if 'ratio' in names:
        a, b = z3.Real('ba'), z3.Real('bb')
        out.append(z3.ForAll([a, b], z3.Implies(b != 0, ratio(a, b) * b == a), patterns=[ratio(a, b)]))
        out.append(z3.ForAll([a, b], z3.And(z3.Implies(z3.And(b > 0, a >= 0), ratio(a, b) >= 0), z3.Implies(z3.And(b > 0, a <= 0), ratio(a, b) <= 0), z3.Implies(z3.And(b != 0, a != 0), ratio(a, b) != 0)), patterns=[ratio(a, b)]))
    if 'flr' in names:
        a = z3.Real('ba')
        out.append(z3.ForAll([a], z3.And(z3.ToReal(FLR(a)) <= a, a < z3.ToReal(FLR(a)) + 1), patterns=[FLR(a)]))
        for t in ground_apps(terms, 'flr'):
            out.append(z3.And(z3.ToReal(t) <= t.arg(0), t.arg(0) < z3.ToReal(t) + 1))
    if 'pow2' in names:
        k = z3.Int('bk')
        out.append(pow2(0) == 1)
        out.append(z3.ForAll([k], z3.Implies(k >= 1, pow2(k) == 2 * pow2(k - 1)), patterns=[pow2(k)]))
    return out

def floor_lemmas():
    """how floors of two numbers relate to the floor of their sum and difference (instantiated for every pair)"""
    a, b = z3.Reals('ba bb')
    def fl2(x): return z3.And(z3.ToReal(FLR2(x)) <= x, x < z3.ToReal(FLR2(x)) + 1)
    fa, fb = FLR(a), FLR(b)
    body = []
    for k in (1, -1, 2, -2):
        x = a + k * b; d = fa + k * fb - FLR2(x)
        body += [fl2(x), d >= -2, d <= 2]
    return [z3.ForAll([a, b], z3.And(*body), patterns=[z3.MultiPattern(fa, fb)])]

def arrays(t):
    """names of the constants read as arrays in a term, without the structure everything shares"""
    out = set(); seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and z3.is_array(x):
                n = x.decl().name().split('!')[0]
                for pre in ('H0_', 'H_'):
                    if n.startswith(pre): n = n[len(pre):]
                if not n.startswith(('data_', 'len_')) and n != 'f_Pattern_events': out.add(n)
            elif x.num_args() == 0 and x.sort() in (R,): out.add(x.decl().name())
            stack.extend(x.children())
    return set(n for n in out if n.startswith('f_')) or out

_ment = {}
def mentions(t, name):
    k = (t.get_id(), name)
    if k in _ment: return _ment[k][0]
    r = z3.is_quantifier(t) and mentions(t.body(), name) or z3.is_app(t) and (t.decl().name() == name or any(mentions(c, name) for c in t.children()))
    _ment[k] = (r, t)
    return r

def ground_apps(terms, name):
    seen = set(); out = []; stack = list(terms)
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): stack.append(t.body()); continue
        if z3.is_app(t):
            if t.decl().name() == name and not has_var(t): out.append(t)
            stack.extend(t.children())
    return out

def closure_terms(ts):
    return ts

def read_over_write(t, c):
    """select(store(a, i, v), c)  as  ite(c == i, v, a[c])"""
    memo = {}
    def rd(a):
        if z3.is_store(a): return z3.If(c == a.arg(1), go(a.arg(2)), rd(a.arg(0)))
        return z3.Select(a, c)
    def go(e):
        k = e.get_id()
        if k in memo: return memo[k]
        if z3.is_quantifier(e) or not e.children(): r = e
        elif z3.is_select(e) and z3.is_store(e.arg(0)) and e.arg(1).eq(c): r = rd(e.arg(0))
        else:
            ch = [go(x) for x in e.children()]
            r = e.decl()(*ch) if any(not x.eq(y) for x, y in zip(ch, e.children())) else e
        memo[k] = r
        return r
    return go(t)

_alt = {}
def alternating(h):
    """a universally quantified hypothesis with an existential inside"""
    if not z3.is_quantifier(h) or not h.is_forall(): return False
    k = h.get_id()
    if k not in _alt:
        def pos(e, sign):
            if z3.is_quantifier(e): return (e.is_exists() == sign) or pos(e.body(), sign)
            if z3.is_not(e): return pos(e.arg(0), not sign)
            if z3.is_implies(e): return pos(e.arg(0), not sign) or pos(e.arg(1), sign)
            if z3.is_and(e) or z3.is_or(e): return any(pos(c, sign) for c in e.children())
            if z3.is_app(e) and e.sort() == B and has_q(e): return True
            return False
        _alt[k] = (pos(h.body(), True), h)
    return _alt[k][0]

_rp = {}
def repat(t):
    """A universally quantified hypothesis with a quantifier inside gets explicit triggers: the smallest
    reads that mention a bound variable.  (Left alone, z3 may trigger on the Skolem function it introduces
    for the inner quantifier, of which no ground term exists.)"""
    if not (z3.is_quantifier(t) and t.is_forall() and t.num_patterns() == 0 and has_q(t.body())): return t
    k = t.get_id()
    if k in _rp: return _rp[k][0]
    n = t.num_vars()
    cs = [z3.Const('rp%d!%d' % (j, k), t.var_sort(j)) for j in range(n)]
    body = z3.substitute_vars(t.body(), *reversed(cs))
    ids = {c.get_id(): j for j, c in enumerate(cs)}
    memo = {}
    found = {}
    def go(e):
        """(bound constants in e, mentions an inner variable, contains a candidate)"""
        i = e.get_id()
        if i in memo: return memo[i]
        if i in ids: r = (frozenset([ids[i]]), False, False)
        elif z3.is_var(e): r = (frozenset(), True, False)
        elif z3.is_quantifier(e):
            a, b, c = go(e.body()); r = (a, b, c)
        else:
            vs = frozenset(); inner = False; cand = False
            for ch in e.children():
                a, b, c = go(ch); vs |= a; inner = inner or b; cand = cand or c
            kd = e.decl().kind()
            ok = kd == z3.Z3_OP_SELECT or (kd == z3.Z3_OP_UNINTERPRETED and e.children()) or kd in (z3.Z3_OP_DT_ACCESSOR,)
            if vs and not inner and not cand and ok and not any(has_ite_app(x) for x in e.children()):
                found[i] = (e, vs); cand = True
            r = (vs, inner, cand)
        memo[i] = r
        return r
    go(body)
    pats = []
    cands = list(found.values())
    full = [e for e, vs in cands if len(vs) == n]
    if full: pats = full[:6]
    elif n > 1:
        pick = []
        need = set(range(n))
        for e, vs in cands:
            if vs & need: pick.append(e); need -= vs
        if not need: pats = [z3.MultiPattern(*pick)]
    r = z3.ForAll(cs, body, patterns=pats) if pats else t
    _rp[k] = (r, t)
    return r

def has_ite_app(e):
    if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL): return True
    return any(has_ite_app(c) for c in e.children())

_si = {}
def store_instances(t):
    """Consequences of a universally quantified t that reads an updated array at its bound variable:
    the instance at the updated index, and the quantifier over the original array."""
    if not (z3.is_quantifier(t) and t.is_forall() and t.num_patterns() == 0 and t.num_vars() == 1): return []
    k = t.get_id()
    if k in _si: return _si[k][0]
    idx = []; seen = set()
    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return
        if z3.is_select(e) and z3.is_var(e.arg(1)) and z3.get_var_index(e.arg(1)) == 0:
            a = e.arg(0)
            while z3.is_store(a):
                if not has_var(a.arg(1)) and not any(x.eq(a.arg(1)) for x in idx): idx.append(a.arg(1))
                a = a.arg(0)
        for c in e.children(): walk(c)
    walk(t.body())
    out = []
    if idx and t.var_sort(0) == I:
        for i in idx: out += flat(z3.substitute_vars(t.body(), i))
        c = z3.Const('si!%d' % k, I)
        e = z3.ForAll([c], read_over_write(z3.substitute_vars(t.body(), c), c))
        out.append(e)
    _si[k] = (out, t)
    return out

_bi = {}
def boundary_instances(t):
    """the instances of a universally quantified t (a negated goal) at the ends of the range it speaks about"""
    if not (z3.is_quantifier(t) and t.is_forall() and t.num_vars() == 1 and t.var_sort(0) == I): return []
    k = t.get_id()
    if k in _bi: return _bi[k][0]
    idx = []; seen = set()
    def isv(e): return z3.is_var(e) and z3.get_var_index(e) == 0
    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return
        if z3.is_app(e) and e.num_args() == 2 and e.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
            a, b = e.children(); kd = e.decl().kind()
            if isv(b): a, b = b, a; kd = {z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE}[kd]
            if isv(a) and not has_var(b):
                i = z3.simplify(b - 1 if kd == z3.Z3_OP_LT else b + 1 if kd == z3.Z3_OP_GT else b)
                if not any(x.eq(i) for x in idx): idx.append(i)
        for c in e.children(): walk(c)
    walk(t.body())
    out = []
    for i in idx[:4]: out += flat(z3.substitute_vars(t.body(), i))
    _bi[k] = (out, t)
    return out

_gr = {}
def ground_reads(t):
    """names for the reads at fixed places inside a quantified t: a solver only matches terms it has met outside"""
    if not z3.is_quantifier(t): return []
    k = t.get_id()
    if k in _gr: return _gr[k][0]
    out = []; seen = set()
    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): walk(e.body()); return
        if z3.is_select(e) and not z3.is_array(e) and not has_var(e):
            out.append(z3.Const('gt!%d' % e.get_id(), e.sort()) == e); return
        for c in e.children(): walk(c)
    walk(t.body())
    _gr[k] = (out[:8], t)
    return _gr[k][0]

class Result(object):
    __slots__ = ('ok', 'backend', 'time', 'reason', 'model')
    def __init__(self, ok, backend, time, reason=None, model=None):
        self.ok = ok; self.backend = backend; self.time = time; self.reason = reason; self.model = model

def limit(s, ms):
    """a limit on the solver's own count of work, so that the outcome does not depend on how busy the machine is
    (the time limit is only there for the odd query whose work is not counted)"""
    s.set('rlimit', int(ms * 2500)); s.set('timeout', 5 * ms + 2000)

def ematch_solver(ms):
    s = z3.SimpleSolver()
    s.set('auto_config', False); s.set('mbqi', False); limit(s, ms)
    s.set('random_seed', 1)
    return s

CORES = {}      # goal -> sets of hypotheses it was proved from
KEEP = {}

_fields = {}
def fields_of(t):
    """memory cells a formula talks about"""
    k = t.get_id()
    if k not in _fields:
        out = set()
        for n in arrays(t):
            if n.startswith('H0_') or n.startswith('H_'):
                b = n.split('_', 1)[1].split('!')[0]
                if b.startswith('f_') and b != 'f_Pattern_events': out.add(b)
        _fields[k] = (frozenset(out), t)
    return _fields[k][0]

FRAME = ('old cells kept', 'frame ', 'input cells kept', 'list ', 'other lists kept', 'field of', 'other objects kept', 'unvisited kept',
         'same object', 'new object', 'made here', 'nonneg', 'idx ', 'le ', 'index within')

def run(hs, ng, ms, seed=1, cs=None):
    s = ematch_solver(ms)
    if seed != 1: s.set('random_seed', seed)
    if cs is not None: s.set('case_split', cs)
    for h in hs: s.add(h)
    s.add(*ng)
    r = s.check()
    if r == z3.unsat: return True, False
    if r == z3.sat: return False, True
    return False, not gave_up(s.reason_unknown())

def gave_up(why): return why in ('canceled', 'timeout', 'interrupted from keyboard', 'interrupted') or 'resource' in why or 'limit' in why

MULR = {R: z3.Function('mul!r', R, R, R), I: z3.Function('mul!i', I, I, I)}
_nl = {}
def abstract_products(t):
    """products of two variables become uninterpreted: equal factors give equal products (weaker, so sound)"""
    k = t.get_id()
    if k in _nl: return _nl[k][0]
    if z3.is_quantifier(t):
        n = t.num_vars()
        cs = [z3.Const('nl%d!%d' % (j, k), t.var_sort(j)) for j in range(n)]
        body = abstract_products(z3.substitute_vars(t.body(), *reversed(cs)))
        pats = []
        for i in range(t.num_patterns()):
            ps = [abstract_products(z3.substitute_vars(x, *reversed(cs))) for x in t.pattern(i).children()]
            pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
        r = (z3.ForAll if t.is_forall() else z3.Exists)(cs, body, patterns=pats)
    elif z3.is_app(t) and t.num_args():
        cs = [abstract_products(c) for c in t.children()]
        if t.decl().kind() == z3.Z3_OP_MUL:
            const = lambda x: z3.is_int_value(x) or z3.is_rational_value(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS and const(x.arg(0)))
            num = [c for c in cs if const(c)]; var = sorted([c for c in cs if not const(c)], key=lambda c: c.get_id())
            if len(var) > 1:
                p = var[0]
                for v in var[1:]: p = MULR[t.sort()](p, v)
                r = p
                for c in num: r = c * r
            else: r = t.decl()(*cs)
        elif any(not a.eq(b) for a, b in zip(cs, t.children())): r = t.decl()(*cs)
        else: r = t
    else: r = t
    _nl[k] = (r, t)
    return r

def has_product(t):
    return any(z3.is_app(x) and x.decl().name() in ('mul!r', 'mul!i') for x in subterms(abstract_products(t)))

def subterms(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x
        st += [x.body()] if z3.is_quantifier(x) else x.children()

def neighbours(hyps, ng):
    """instances of the facts over all positions at the goal's positions and the ones beside them
    (a sum up to i is unfolded only where a position i is mentioned)"""
    at = []
    for x in ng:
        for t in subterms(x):
            if z3.is_app(t) and t.num_args() == 0 and t.sort() == I and t.decl().name().startswith('sk_'): at.append(t)
    if not at or len(at) > 3: return []
    out = []
    for h in hyps:
        if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == I:
            for t in at:
                for d in (-1, 0, 1):
                    out += flat(z3.simplify(z3.substitute_vars(h.body(), t + d)))
    return out

def prove_atom(hyps, goal, budget=10.0, cheap=False, labels=None, label=None):
    """Is goal a consequence of hyps?  Returns Result."""
    t0 = time.time()
    TIME['queries'] += 1
    g = z3.simplify(goal) if not has_q(goal) else goal
    if z3.is_true(g):
        STATS['trivial'] += 1
        return Result(True, 'trivial', 0)
    labels = labels or {}
    ids = set(h.get_id() for h in hyps)
    gk = goal.get_id()
    for core in CORES.get(gk, ()):
        if core <= ids:
            STATS['z3'] += 1
            return Result(True, 'z3', 0)
    ng = flat(z3.Not(goal))
    if has_q(goal):
        for x in [nnf(x) for x in ng]: extra_ng = store_instances(x) + boundary_instances(x) + ground_reads(x); ng = ng + extra_ng
    prep = {}
    def pre(h):
        k = h.get_id()
        if k not in prep:
            n = nnf(h)
            prep[k] = [repat(n)] + store_instances(n) + (boundary_instances(n) + ground_reads(n) if n is not h else [])
        return prep[k]
    def facts(hs):
        out = [y for h in hs for y in pre(h)]
        ff = fold_facts(out + [goal])
        return out + ff + background(out + [goal] + ff)
    def done(ok, be, reason=None, model=None, used=None):
        dt = time.time() - t0
        TIME['solver'] += dt
        if ok:
            STATS[be] = STATS.get(be, 0) + 1
            us = hyps if used is None else used
            CORES.setdefault(gk, []).append(frozenset(h.get_id() for h in us))
            KEEP[gk] = goal
            for h in us: KEEP[h.get_id()] = h
        return Result(ok, be, dt, reason, model)
    seen = set(); hy = []
    for h in hyps:
        if h.get_id() not in seen: seen.add(h.get_id()); hy.append(h)
    hyps = hy
    gf = fields_of(goal)
    def lab(h): return labels.get(h.get_id())
    plain = [h for h in hyps if not (z3.is_quantifier(h) or alternating(h))]
    quant = [h for h in hyps if z3.is_quantifier(h) or alternating(h)]
    rel = [h for h in quant if fields_of(h) <= gf]
    alt = [h for h in quant if alternating(h)]
    saturated = False
    first = plain + [h for h in rel if not alternating(h) and (lab(h) is None or lab(h).startswith(FRAME) or lab(h) == label)] + [h for h in alt if lab(h) == label and label is not None]
    if label is not None and cheap != 1 and has_q(goal):
        own = plain + [h for h in first[len(plain):] if lab(h) is not None]
        ok, st = run(facts(own), ng, 300)
        if ok: return done(True, 'z3', used=own)
    ok, sat1 = run(facts(first), ng, 300 if cheap == 1 else 500)
    if ok: return done(True, 'z3', used=first)
    flr = cheap != 1 and len(ground_apps([goal], 'flr')) + len(ground_apps(hyps, 'flr')) > 1
    if not flr:
        ok, saturated = run(facts(hyps), ng, 500 if cheap else 1000)
        if ok: return done(True, 'z3')
    if cheap == 1 and not flr and label is not None and label.startswith(FRAME[:8]): return done(False, 'z3', '(incomplete quantifiers)' if saturated else 'canceled')
    if has_product(goal):
        ok, st = run([abstract_products(h) for h in facts(hyps)], [abstract_products(x) for x in ng], 500 if cheap else 1000)
        if ok: return done(True, 'z3')
    if flr:
        gn = arrays(goal)
        keep = [h for h in hyps if not mentions(h, 'flr') or (arrays(h) & gn)]
        fs = facts(keep) + floor_lemmas()
        for seed, cs, lim in ((1, 3, 2.0), (1, 1, 2.0), (2, 3, 5.0), (2, 1, 2.0), (7, 1, 2.0), (23, 3, 8.0)):
            ok, st = run(fs, ng, int(1000 * lim), seed, cs)
            if ok: return done(True, 'z3', used=keep)
            if st: break
    if cheap != 1 and fold_apps(hyps + [goal])[1]:
        near = neighbours(hyps, ng)
        if near:
            ok, st = run(facts(hyps + near), ng, 1000)
            if ok: return done(True, 'z3')
    if not saturated:
        nonalt = [h for h in quant if not alternating(h)]
        stages = [plain + [h for h in nonalt if fields_of(h) <= gf], plain + nonalt]
        for hs in stages:
            ok, st = run(facts(hs), ng, 600)
            if ok: return done(True, 'z3', used=hs)
        if alt and cheap != 1:
            # facts of the form "for every i there is a j" feed each other; try few of them at a time
            end = time.process_time() + (5.0 if cheap == 2 else 2 * budget)
            ralt = [h for h in alt if fields_of(h) <= gf]
            def rank(h):
                l = lab(h) or ''
                return (l != label, not l.startswith('inv '), l.startswith('post['))
            ralt.sort(key=rank)
            for base, al in ((stages[0], ralt), (stages[1], alt)):
                subsets = [(x,) for x in al] + list(itertools.combinations(al[:10], 2)) + list(itertools.combinations(al[:6], 3))
                for sub in subsets:
                    if time.process_time() > end: break
                    hs = base + list(sub)
                    ok, st = run(facts(hs), ng, 600)
                    if ok: return done(True, 'z3', used=hs)
    if saturated and cheap: return done(False, 'z3', '(incomplete quantifiers)')
    allh = facts(hyps)
    why = 'saturated'
    if not saturated:
        s = ematch_solver(int(1000 * (1.0 if cheap == 1 else 2.0 if cheap == 2 else min(budget, 6.0))))
        for h in allh: s.add(h)
        s.add(*ng)
        r = s.check()
        if r == z3.unsat: return done(True, 'z3')
        why = s.reason_unknown() if r == z3.unknown else 'sat'
    if cheap == 1: return done(False, 'z3', why)
    # arithmetic only: drop quantified facts
    s2 = z3.Solver(); limit(s2, int(1000 * (1.0 if cheap else min(budget, 5.0))))
    for h in allh:
        if not has_q(h): s2.add(h)
    s2.add(*ng)
    r2 = s2.check()
    if r2 == z3.unsat: return done(True, 'z3-arith')
    if budget > 5 and not cheap:
        s4 = z3.Solver(); limit(s4, int(1000 * min(budget, 5.0)))
        for h in allh: s4.add(h)
        s4.add(*ng)
        r4 = s4.check()
        if r4 == z3.unsat: return done(True, 'z3-mbqi')
        r5, why5 = cvc5_check(allh, goal, budget)
        if r5: return done(True, 'cvc5')
    m = None
    if r2 == z3.sat:
        try: m = str(s2.model())[:4000]
        except Exception: m = None
    return done(False, 'z3', why, m)

def nnf(t):
    """not exists x. p  as  forall x. not p"""
    if z3.is_not(t) and z3.is_quantifier(t.arg(0)) and t.arg(0).is_exists() and t.arg(0).num_vars() == 1:
        q = t.arg(0); c = z3.Const(q.var_name(0), q.var_sort(0))
        return z3.ForAll([c], z3.Not(z3.substitute_vars(q.body(), c)))
    return t

def cvc5_check(hyps, goal, budget):
    exe = None
    for c in ('/usr/local/bin/cvc5', '/usr/bin/cvc5', '/opt/veriftools/bin/cvc5'):
        if os.path.exists(c): exe = c; break
    if exe is None:
        import shutil
        exe = shutil.which('cvc5')
    if exe is None: return False, 'no cvc5'
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        os.write(fd, txt.encode()); os.close(fd)
        try:
            r = subprocess.run([exe, '--tlimit=%d' % int(budget * 1000), '--enum-inst-interleave', p] if False else [exe, '--tlimit=%d' % int(budget * 1000), p],
                               capture_output=True, text=True, timeout=budget + 5)
        except subprocess.TimeoutExpired:
            return False, 'timeout'
        return r.stdout.strip().startswith('unsat'), r.stdout[:200] + r.stderr[:200]
    finally:
        os.unlink(p)

def unguard(hy, lb):
    """Implies(g, forall ...) with g among the hypotheses is the quantified fact itself"""
    if not any(z3.is_implies(h) and has_q(h.arg(1)) and not has_q(h.arg(0)) for h in hy): return hy
    ids = set(h.get_id() for h in hy); out = []
    neg = set(h.arg(0).get_id() for h in hy if z3.is_not(h))
    for h in hy:
        if z3.is_implies(h) and has_q(h.arg(1)) and not has_q(h.arg(0)):
            gs = flat(h.arg(0))
            def holds(g): return g.get_id() in ids or (z3.is_not(g) and g.arg(0).get_id() in neg)
            def fails(g): return g.get_id() in neg or (z3.is_not(g) and g.arg(0).get_id() in ids)
            if any(fails(g) for g in gs): continue
            if all(holds(g) for g in gs):
                for f in flat(h.arg(1)):
                    if h.get_id() in lb: lb[f.get_id()] = lb[h.get_id()]
                    out.append(f)
                KEEP[('ung', h.get_id())] = (h, out[-1])
                continue
        out.append(h)
    return out

def prove(hyps, goal, budget=10.0, cheap=False, labels=None, label=None):
    """Split and prove; returns (ok, [(goal, Result)])"""
    hy = []; lb = {}
    for h in hyps:
        fs = flat(h) if not (z3.is_quantifier(h) and h.is_forall()) else [h]
        if labels and h.get_id() in labels:
            for f in fs: lb[f.get_id()] = labels[h.get_id()]
        hy += fs
    res = []
    hy = unguard(hy, lb)
    known = set(h.get_id() for h in hy); known.update(h.get_id() for h in hyps)
    if goal.get_id() in known:
        STATS['trivial'] += 1
        return True, [(goal, Result(True, 'trivial', 0))]
    parts = flat(goal) if z3.is_and(goal) else [goal]
    for extra, g in [x for p in parts if p.get_id() not in known for x in split(p)]:
        key = None
        r = prove_atom(hy + list(extra), g, budget, cheap, lb, label)
        res.append((g, r))
        if not r.ok: return False, res
    return True, res
