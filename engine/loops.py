"""Loops: cut at the head by inferred (Houdini) invariants."""
import ast
import z3
from .values import *
from .interp import *
from . import spec as SP

class Head(object):
    """What candidate invariants are stated about: the state at a loop head."""
    pass

def live_iter(ip, it, st):
    """(length thunk, element thunk, list or None, fixed length?)"""
    if isinstance(it, Ref) and it.cls in SEQ_FIELD:
        if it.opt: ip.require(it.addr != 0, 'TypeError', st.lineno)
        it = ip.load(Ref(it.cls, it.addr), SEQ_FIELD[it.cls])     # sequence protocol: __getitem__ on the live list
    if isinstance(it, MObj) and '__list__' in ip.mobj.get(it.oid, {}): it = ip.mobj[it.oid]['__list__']
    if isinstance(it, (LRef, CList)):
        if isinstance(it, LRef) and it.opt: ip.require(it.addr != 0, 'TypeError', st.lineno)
        l = ip.as_l(it)
        if l.opt: l = LRef(l.kind, l.addr)
        def get(i):
            v = ip.getitem(l, i); ip.elem_facts(l, i, v); return v
        return (lambda: ip.lenof(l)), get, l, False
    if isinstance(it, RevList) and isinstance(it.l, (LRef, CList)):
        l = ip.as_l(it.l); n = ip.lenof(l)
        def get(i):
            k = n - 1 - i
            ip.require(k < ip.lenof(l), 'IndexError', st.lineno)
            v = ip.getitem(l, z3.simplify(k)); ip.elem_facts(l, k, v); return v
        return (lambda: n), get, l, True
    if isinstance(it, EnumV):
        n, g, l, fixed = live_iter(ip, it.l, st)
        return n, (lambda i: (z3num(it.start) + i if not (isinstance(it.start, int) and it.start == 0) else i, g(i))), l, fixed
    s = ip.seq(it)
    n = z3num(s.n)
    def get(i):
        v = s.get(i)
        for x in (v if isinstance(v, tuple) else (v,)):
            if isinstance(x, (Ref, LRef)) : ip.assume(x.addr < ip.alloc); ip.assume(x.addr >= 0 if x.opt else x.addr > 0)
        return v
    return (lambda: n), get, None, True

def kind0(ip, v):
    try: return ip.kind_of(v)
    except Unsupported: return ('const', v)

def same_const(a, b):
    return isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ('const',) and b[:1] == ('const',) and (a[1] is b[1])

def havoc_kind(ip, k, v, name):
    """value of kind k at the loop head; v is the entry value"""
    if k == ('clist',): return v if isinstance(v, CList) else Poison('list of unknown kind')
    if isinstance(k, tuple) and k[0] == 'const': return v
    if k == 'none': return None
    return ip.fresh_kind(k, name)

def join(ip, lp, a, b):
    if a == b: return a
    if same_const(a, b): return a
    for x, y in ((a, b), (b, a)):
        if x == ('clist',) and isinstance(y, tuple) and y[0] in ('list', 'optlist'): return y
    return ip.join_kind(a, b)

def norm_list(ip, v, k):
    """entry value seen as kind k (promotes literal lists)"""
    if isinstance(k, tuple) and k[0] in ('list', 'optlist') and isinstance(v, CList) and v.lref is None:
        if v.site.kind is None or not v.site.heap:
            v.site.kind = k[1]; v.site.heap = True; ip.A.changed = True; raise Restart()
        return ip.as_l(v)
    return v

def visible(ip, env):
    out = {}
    envs = []
    for cs in ip.callstack: envs.append(cs[2])
    e = env; chain = []
    while e is not None: chain.append(e); e = e.parent
    for c in reversed(chain):
        if c not in envs: envs.append(c)
    for n, c in enumerate(envs):
        for k, v in c.vars.items():
            nm = k if k not in out else '%s@%d' % (k, n)
            out[nm] = v
    return out

def run_loop(ip, st, env, cond_body, lst, n0, index_of_while=None):
    pass

def begin(ip, st, env, n0, lst, is_while):
    lp = ip.loop_info(st)
    entry = SP.Snap(ip)
    names = sorted(lp.assigned)
    # --- kinds of the assigned locals
    entryvals = {}
    for nm in names:
        if nm not in env.vars: continue
        e = env
        v = e.vars[nm]
        if isinstance(v, Poison): continue
        k = kind0(ip, v)
        if nm in lp.kinds:
            j = ('list', lp.kinds[nm][1]) if k == ('clist',) and isinstance(lp.kinds[nm], tuple) and lp.kinds[nm][0] == 'list' else join(ip, lp, lp.kinds[nm], k)
            if j != lp.kinds[nm]: lp.kinds[nm] = j; ip.A.changed = True; raise Restart()
        else: lp.kinds[nm] = k
        v = norm_list(ip, v, lp.kinds[nm])
        e.vars[nm] = v
        entryvals[nm] = v
    entry = SP.Snap(ip); entry.entryvals = entryvals; entry.pc = list(ip.pc)
    return lp, names, entryvals, entry

def head_state(ip, lp, env, entry, i, n0, lst, idx_locals, get=None):
    h = Head(); h.get = get
    h.ip = ip; h.lp = lp; h.cur = SP.Snap(ip); h.entry = entry; h.i = i; h.n0 = n0; h.lst = lst
    h.locals = visible(ip, env); h.entry_locals = entry.entryvals
    h.subs = []
    for fr in ip.loopstack:
        if fr.get('n0') is not None: h.subs.append((fr['n0'], fr['i'], fr['lst'], fr['entry']))
    h.own = (n0, i) if n0 is not None and not isinstance(n0, int) and i is not None else None
    h.while_idx = idx_locals
    return h

def oblige_cands(ip, lp, h, phase, must=None):
    labs = set()
    for label, f in ip.A.contract_cands(h):
        if label in lp.dead: continue
        if must is not None and label not in must: continue
        labs.add(label); lp.seen.add(label)
        ip.oblige('loop %d %s: %s' % (lp.line, phase, label), 'cand', f, lp.line, lp, label)
    if must is not None:
        for l in must - labs:
            if l not in lp.dead:
                lp.dead.add(l); ip.A.changed = True
        if must - labs: raise Restart()
    return labs

def assume_cands(ip, lp, h, labs):
    out = set()
    for label, f in ip.A.contract_cands(h):
        if label in lp.dead or label not in labs: continue
        ip.assume(f); out.add(label)
        if z3.is_expr(f): ip.A.hyplabels[f.get_id()] = label; ip.A._hk.append(f)
    return out

def havoc(ip, lp, env, names, entryvals, entry):
    # heap
    newalloc = ip.alloc
    if lp.allocs:
        hi = ip.fresh('alloc', I)
        ip.assume(hi >= ip.alloc)
        ip.alloc_base = hi; ip.alloc_off = 0; ip.alloc = hi
    for key in sorted(lp.heapmods, key=str):
        new = ip.fresh('H_' + ip.keyname(key), ip.arr_sort(key))
        ip.harr(key)
        ip.heap[key] = new
    for key in sorted(lp.heapmods, key=str):
        for f in ip.arr_facts(key, ip.heap[key], ip.alloc): ip.assume(f)
    # locals
    for nm in names:
        if nm in entryvals:
            e = env
            e.vars[nm] = havoc_kind(ip, lp.kinds[nm], entryvals[nm], nm)
        else:
            env.vars[nm] = Poison('assigned in the loop at line %d only' % lp.line)
    # attributes of objects
    for oid, a in sorted(lp.mobjmods):
        d = dict(ip.mobj.get(oid, {}))
        v = d.get(a)
        mk = getattr(lp, 'mkinds', None)
        if mk is None: mk = lp.mkinds = {}
        if a not in d:
            d[a] = Poison('attribute set in the loop only')
        else:
            k = kind0(ip, v)
            k2 = mk.get((oid, a))
            if k2 is None: mk[(oid, a)] = k
            else:
                j = join(ip, lp, k2, k)
                if j != k2: mk[(oid, a)] = j; ip.A.changed = True; raise Restart()
            v = norm_list(ip, v, mk[(oid, a)])
            d[a] = havoc_kind(ip, mk[(oid, a)], v, a)
        ip.mobj[oid] = d

def end_kinds(ip, lp, env, names, entryvals):
    for nm in names:
        if nm not in entryvals: continue
        v = env.vars[nm]
        if isinstance(v, Poison): raise Unsupported('variable %s' % nm)
        k = kind0(ip, v)
        if k == lp.kinds[nm] or same_const(k, lp.kinds[nm]): continue
        if k == ('clist',) and isinstance(lp.kinds[nm], tuple) and lp.kinds[nm][0] == 'list':
            norm_list(ip, v, lp.kinds[nm]); continue
        if lp.kinds[nm] == ('clist',) and isinstance(k, tuple) and k[0] == 'list':
            lp.kinds[nm] = k; ip.A.changed = True; raise Restart()
        j = join(ip, lp, lp.kinds[nm], k)
        if j != lp.kinds[nm]:
            lp.kinds[nm] = j; ip.A.changed = True; raise Restart()
    mk = getattr(lp, 'mkinds', {})
    for (oid, a), k in list(mk.items()):
        v = ip.mobj[oid].get(a)
        k2 = kind0(ip, v)
        if k2 == k or same_const(k2, k): continue
        if k2 == ('clist',) and isinstance(k, tuple) and k[0] == 'list': norm_list(ip, v, k); continue
        j = join(ip, lp, k, k2)
        if j != k: mk[(oid, a)] = j; ip.A.changed = True; raise Restart()

def sym_for(ip, st, it, env):
    nf, get, lst, fixed = live_iter(ip, it, st)
    n0 = z3.simplify(z3num(nf())) if not is_z(nf()) else nf()
    lp, names, entryvals, entry = begin(ip, st, env, n0, lst, False)
    frame = {'info': lp, 'order': ip.order, 'writes': {}, 'mobjs': set(ip.mobj), 'n0': n0, 'i': z3.IntVal(0), 'lst': lst, 'entry': entry}
    ip.order += 1
    h = head_state(ip, lp, env, entry, z3.IntVal(0), n0, lst, [], get)
    ip.A.lemmas(ip, lp, h)
    labs = oblige_cands(ip, lp, h, 'init')
    ip.loopstack.append(frame)
    try:
        havoc(ip, lp, env, names, entryvals, entry)
        i = ip.fresh('it', I)
        frame['i'] = i
        ip.assume(i >= 0)
        if fixed: ip.assume(z3.Implies(n0 >= 0, i <= n0))
        ip.loopstack.pop()
        h = head_state(ip, lp, env, entry, i, n0, lst, [], get)
        ip.loopstack.append(frame)
        labs = assume_cands(ip, lp, h, labs)
        if ip.choose():
            ip.assume(i < nf())
            if ip.infeasible_now(): raise PathEnd()
            if len(ip.A.entries.setdefault(lp.line, [])) < 8: ip.A.entries[lp.line].append(list(ip.pc))
            ip.A.lemmas(ip, lp, h, 'head_lemmas')
            ip.bind(st.target, get(i), env)
            try:
                ip.block(st.body, env)
            except ContinueX: pass
            except BreakX:
                return
            end_kinds(ip, lp, env, names, entryvals)
            ip.loopstack.pop()
            h = head_state(ip, lp, env, entry, i + 1, n0, lst, [], get)
            ip.A.lemmas(ip, lp, h, 'step_lemmas')
            ip.loopstack.append(frame)
            oblige_cands(ip, lp, h, 'step', labs)
            raise PathEnd()
        else:
            ip.assume(i >= nf())
            if ip.infeasible_now(): raise PathEnd()
    finally:
        if ip.loopstack and ip.loopstack[-1] is frame: ip.loopstack.pop()
    ip.block(st.orelse, env)

def sym_while(ip, st, env):
    # contracts may ask for short loops to be followed as they are (no cut): complete when every path leaves the loop in time
    K = getattr(ip.A.con, 'unroll', 0)
    lp = ip.loop_info(st)
    if K and not getattr(lp, 'cut', False):
        mob = dict(ip.mobj)
        for k in range(K + 1):
            if not ip.branch(ip.truth(ip.eval(st.test, env))): break
            if k == K: lp.cut = True; ip.A.changed = True; raise Restart()
            try: ip.block(st.body, env)
            except ContinueX: pass
            except BreakX: return
        ip.block(st.orelse, env)
        return
    lp, names, entryvals, entry = begin(ip, st, env, None, None, True)
    frame = {'info': lp, 'order': ip.order, 'writes': {}, 'mobjs': set(ip.mobj), 'n0': None, 'i': None, 'lst': None, 'entry': entry}
    ip.order += 1
    h = head_state(ip, lp, env, entry, None, None, None, names)
    ip.A.lemmas(ip, lp, h)
    labs = oblige_cands(ip, lp, h, 'init')
    ip.loopstack.append(frame)
    try:
        havoc(ip, lp, env, names, entryvals, entry)
        ip.loopstack.pop()
        h = head_state(ip, lp, env, entry, None, None, None, names)
        ip.loopstack.append(frame)
        labs = assume_cands(ip, lp, h, labs)
        c = ip.truth(ip.eval(st.test, env))
        if ip.branch(c):
            if len(ip.A.entries.setdefault(lp.line, [])) < 8: ip.A.entries[lp.line].append(list(ip.pc))
            ip.A.lemmas(ip, lp, h, 'head_lemmas')
            try:
                ip.block(st.body, env)
            except ContinueX: pass
            except BreakX: return
            end_kinds(ip, lp, env, names, entryvals)
            ip.loopstack.pop()
            h = head_state(ip, lp, env, entry, None, None, None, names)
            ip.A.lemmas(ip, lp, h, 'step_lemmas')
            ip.loopstack.append(frame)
            oblige_cands(ip, lp, h, 'step', labs)
            raise PathEnd()
    finally:
        if ip.loopstack and ip.loopstack[-1] is frame: ip.loopstack.pop()
    ip.block(st.orelse, env)
