"""Contracts: descriptors (C19, C20, C21)."""
from __future__ import division
from engine.api import *
from contracts.pattern_a import PatternWithTags, PatternWithoutTags, PatternWithPitch

def tags_ok(S, ev):
    return S.forall(S.len(ev), lambda i: S.Or(S.is_tuple(ev[i].tag), S.is_str(ev[i].tag)))

def listed(S, e, l): return S.And(S.tag_len(e.tag) > 0, S.in_list(e.tag, l))

def kept(S, st, a, variant):
    """(not ignored, included): which events a density counts"""
    ign = st(st(a.self).ignoredTags); inc = st(a.self).includedTags
    P1 = lambda e: S.Not(listed(S, e, ign))
    if variant == 'none': P2 = None
    elif variant == 'list': P2 = lambda e: listed(S, e, inc)
    else: P2 = lambda e: S.eq(e.tag, inc)
    return P1, P2

def desc(cls, inc): return ('obj', 'gsdescriptors:' + cls, {'ignoredTags': ('list', 'V'), 'includedTags': inc, 'type': ('const', 'descriptor')})

def inc_variant(S, old, a):
    inc = old(a.self).includedTags
    if S.is_none(inc) is True: return 'none'
    return 'list' if S.is_seq(inc) else 'tag'

class DensityOf(Contract):
    target = 'gsdescriptors:Density.getDescriptorForPattern'
    props = ['C19']
    params = [('self', desc('Density', ('const', None))), ('pattern', PAT)]
    variants = [('no included tags', {}), ('included tags', {'self': desc('Density', ('list', 'V'))}), ('one included tag', {'self': desc('Density', 'V')})]
    result = 'num'
    calls = [PatternWithTags, PatternWithoutTags]
    @staticmethod
    def requires(S, old, a):
        yield 'tags are strings or tuples', lambda: tags_ok(S, old(a.pattern).events)
        v = inc_variant(S, old, a)
        if v == 'list': yield 'some tag is included', lambda: S.len(old(a.self).includedTags) > 0
        if v == 'tag': yield 'the included tag is a string or a tuple, not empty', lambda: S.And(S.Or(S.is_str(old(a.self).includedTags), S.is_tuple(old(a.self).includedTags)), S.tag_len(old(a.self).includedTags) > 0)
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.pattern).events
        P1, P2 = kept(S, old, a, inc_variant(S, old, a))
        w = (lambda e: e.duration) if P2 is None else (lambda e: S.Ite(P2(e), e.duration, 0))
        yield 'the durations of exactly the events counted, added up', lambda: S.eq(result, S.sum(S.len(ev), lambda i: S.Ite(P1(ev[i]), w(ev[i]), 0)))
    @staticmethod
    def invariants(S, L):
        if L.seq is None: return
        for n, x in L.nums:
            yield '%s is the sum so far' % n, lambda: S.eq(x, S.sum(L.i, lambda k: L.seq[k].duration))
    @staticmethod
    def lemmas(S, L):
        P1, P2 = kept(S, L.old, L.a, inc_variant(S, L.old, L.a))
        dur = lambda e: e.duration
        for j, c in enumerate(L.calls):
            src = c.old(c.a.self).events; res = c.new(c.result).events
            if c.name == 'PatternWithoutTags': P, ws = P1, [dur] + ([lambda e: S.Ite(P2(e), e.duration, 0)] if P2 else [])
            elif c.name == 'PatternWithTags': P, ws = P2, [dur]
            else: continue
            for k, w in enumerate(ws):
                yield 'sum over call %d, %d' % (j, k), S.len(src), lambda i, P=P, w=w, src=src, res=res: S.eq(
                    S.sum(S.count_at(lambda q: P(src[q]), i), lambda q: w(res[q])), S.sum(i, lambda q: S.Ite(P(src[q]), w(src[q]), 0)))

class NumberOfTagsOf(Contract):
    target = 'gsdescriptors:NumberOfTags.getDescriptorForPattern'
    props = ['C19']
    params = [('self', desc('NumberOfTags', ('const', None))), ('pattern', PAT)]
    variants = [('no included tags', {}), ('included tags', {'self': desc('NumberOfTags', ('list', 'V'))}), ('one included tag', {'self': desc('NumberOfTags', 'V')})]
    result = 'int'
    bounded = 'the number of distinct tags of a filtered list: counting lemma not discharged yet'
    requires = staticmethod(DensityOf.requires)
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.pattern).events
        P1, P2 = kept(S, old, a, inc_variant(S, old, a))
        P = P1 if P2 is None else (lambda e: S.And(P1(e), P2(e)))
        yield 'the number of distinct tags of the events counted', lambda: S.eq(result, S.count(S.len(ev), lambda i: S.And(P(ev[i]), S.Not(S.exists(i, lambda j: S.And(P(ev[j]), S.eq(ev[j].tag, ev[i].tag)))))))

# ---------------------------------------------------------------- C20
def weight(S, t, D):
    """metrical weight of step t of D: the number of binary subdivisions of D that have a beat there"""
    return S.count(D + 1, lambda j: S.And(S.pow2(j) <= D, lambda: S.And(S.eq(S.mod(t, S.idiv(D, S.pow2(j))), 0), S.idiv(t, S.idiv(D, S.pow2(j))) < S.pow2(j))))

def sounding(S, ev, t): return S.exists(S.len(ev), lambda i: S.And(ev[i].startTime <= t, t < ev[i].startTime + ev[i].duration))

def weights_ok(S, w): return S.forall(S.len(w), lambda t: S.eq(w[t], weight(S, t, S.len(w))))

class SyncopationOf(Contract):
    target = 'gsdescriptors:Syncopation.getDescriptorForPattern'
    props = ['C20']
    params = [('self', ('obj', 'gsdescriptors:Syncopation', {'weights': ('list', 'int'), 'noteGrid': ('list', 'int'), 'duration': 'int', 'type': ('const', 'descriptor')})), ('pattern', PAT)]
    result = 'int'
    modifies_attrs = {'self': ['weights', 'noteGrid', 'duration']}
    bounded = 'power-of-two loops'
    @staticmethod
    def gen(G, variant):
        from gsapi import gsdescriptors
        d = gsdescriptors.Syncopation()
        for _ in range(G.pick([0, 0, 1, 2])): d.getDescriptorForPattern(G.pattern())
        p = G.pattern()
        if G.chance(0.4): p.duration = G.pick([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 7.5, 0.5, 32])
        if G.chance(0.3):
            n = int(p.duration)
            for e in p.events: e.startTime = G.r.randint(0, max(0, n - 1)); e.duration = G.pick([1, 0.5, 2])
        return {'self': d, 'pattern': p}
    @staticmethod
    def requires(S, old, a):
        yield 'the weights kept from earlier calls', lambda: weights_ok(S, old(a.self).weights)
        yield 'the pattern has a length', lambda: old(a.pattern).duration >= 0
    @staticmethod
    def ensures(S, old, new, a, result):
        p = old(a.pattern); D = S.ceil(p.duration); ev = p.events
        nxt = lambda t: S.mod(t + 1, D)
        yield 'the weights depend on the length only', lambda: S.And(S.eq(S.len(new(a.self).weights), D), lambda: weights_ok(S, new(a.self).weights))
        yield 'the sum of weight differences', lambda: S.eq(result, S.sum(D, lambda t: S.Ite(S.And(sounding(S, ev, t), S.Not(sounding(S, ev, nxt(t)))), lambda: S.abs(weight(S, nxt(t), D) - weight(S, t, D)), 0)))
        yield 'never negative', lambda: result >= 0
        yield 'zero when nothing sounds', lambda: S.Implies(S.forall(D, lambda t: S.Not(sounding(S, ev, t))), lambda: S.eq(result, 0))
        yield 'zero when every step sounds', lambda: S.Implies(S.forall(D, lambda t: sounding(S, ev, t)), lambda: S.eq(result, 0))

# ---------------------------------------------------------------- C21
NUMS = ('list', 'num')

class NumNonZero(Contract):
    target = 'gsdescriptors:getNumNonZero'
    props = ['C21']
    params = [('li', NUMS)]
    result = 'int'
    @staticmethod
    def gen(G, variant): return {'li': [G.pick([0, 1, -1, 0.8]) for _ in range(G.nlist())]}
    @staticmethod
    def ensures(S, old, new, a, result):
        l = old(a.li)
        yield 'the number of entries that are not zero', lambda: S.eq(result, S.count(S.len(l), lambda i: S.Not(S.eq(l[i], 0))))
    @staticmethod
    def invariants(S, L):
        if L.seq is None: return
        for n, x in L.nums: yield '%s counts' % n, lambda: S.eq(x, S.count_at(lambda k: S.Not(S.eq(L.seq[k], 0)), L.i))

class ToProfile(Contract):
    target = 'gsdescriptors:intervalListToProfile'
    props = ['C21']
    params = [('intervalList', ('list', 'int')), ('length', 'int')]
    bounded = 'not discharged yet'
    result = NUMS
    @staticmethod
    def gen(G, variant): return {'intervalList': [G.r.randint(-5, 30) for _ in range(G.nlist())], 'length': G.pick([12, 12, 1, 5, 7])}
    @staticmethod
    def requires(S, old, a): yield 'a length', lambda: a.length > 0
    @staticmethod
    def ensures(S, old, new, a, result):
        l = old(a.intervalList); n = a.length
        named = lambda i: S.exists(S.len(l), lambda k: S.eq(S.mod(l[k], n), i))
        yield 'one entry per pitch class', lambda: S.eq(S.len(result), n)
        yield 'a positive entry exactly for the root and the intervals', lambda: S.forall(n, lambda i: S.Iff(result[i] > 0, S.Or(S.eq(i, 0), named(i))))
        yield 'entries', lambda: S.forall(n, lambda i: S.eq(result[i], S.Ite(named(i), lambda: S.lit(0.8), lambda: S.Ite(S.eq(i, 0), lambda: 1, lambda: -1))))
    @staticmethod
    def invariants(S, L):
        if L.seq is None: return
        n = L.a.length
        named = lambda i: S.exists(L.i, lambda k: S.eq(S.mod(L.seq[k], n), i))
        for nm, x in L.lists:
            yield '%s is as long' % nm, lambda: S.eq(S.len(x), n)
            yield '%s so far' % nm, lambda: S.forall(n, lambda i: S.eq(x[i], S.Ite(named(i), lambda: S.lit(0.8), lambda: S.Ite(S.eq(i, 0), lambda: 1, lambda: -1))))

class MaxAndIdx(Contract):
    target = 'gsdescriptors:findMaxAndIdx'
    props = ['C21']
    params = [('convolution', NUMS)]
    any_result = True
    result = ('tuple', 'num', 'int')
    @staticmethod
    def gen(G, variant): return {'convolution': [G.pick([0, 1, -1, 0.5, 2, 3]) for _ in range(G.nlist())]}
    @staticmethod
    def ensures(S, old, new, a, result):
        l = old(a.convolution); n = S.len(l)
        some = lambda: S.exists(n, lambda i: l[i] > 0)
        yield 'the greatest entry, or zero', lambda: S.And(result[0] >= 0, S.forall(n, lambda i: l[i] <= result[0]))
        yield 'its index when there is a positive entry', lambda: S.Implies(some(), lambda: S.And(result[1] >= 0, result[1] < n, lambda: S.eq(l[result[1]], result[0]), lambda: S.forall(result[1], lambda i: l[i] < result[0])))
        yield 'no index otherwise', lambda: S.Implies(S.Not(some()), lambda: S.And(S.eq(result[0], 0), S.eq(result[1], -1)))
    @staticmethod
    def invariants(S, L):
        if L.seq is None: return
        for n, x in L.nums:
            yield '%s counts' % n, lambda: S.eq(x, L.i)
            yield '%s is an upper bound' % n, lambda: S.And(x >= 0, S.forall(L.i, lambda k: L.seq[k] <= x))
            for m, y in L.nums:
                if m != n:
                    yield '%s is the place of %s' % (m, n), lambda x=x, y=y: S.Or(S.And(S.eq(x, 0), S.eq(y, -1)), lambda: S.And(S.is_int(y), y >= 0, y < L.i, x > 0, lambda: S.eq(L.seq[S.int(y)], x), lambda: S.forall(S.int(y), lambda k: L.seq[k] < x)))

def score(S, ch, pr, w, i, c):
    """what pitch class c adds to the score of rotation i"""
    n = S.len(ch); k = S.mod(c - i, n)
    return ch[c] * pr[k] - S.Ite(S.And(pr[k] > 0, ch[c] <= 0), w, 0)

class Convolve(Contract):
    target = 'gsdescriptors:convolveWithPitchProfile'
    props = ['C21']
    params = [('chromas', NUMS), ('pitchProfile', NUMS), ('penalityWeight', 'num')]
    bounded = 'nested sums not discharged yet'
    result = NUMS
    @staticmethod
    def gen(G, variant):
        n = G.pick([12, 12, 1, 2, 5, 0])
        return {'chromas': [G.pick([0, 0, 1, 2, 0.5, 4]) for _ in range(n)], 'pitchProfile': [G.pick([1, 0.75, -1, -1, 0]) for _ in range(n)], 'penalityWeight': G.pick([0, 1, 2, 0.5])}
    @staticmethod
    def requires(S, old, a): yield 'of equal length', lambda: S.eq(S.len(old(a.chromas)), S.len(old(a.pitchProfile)))
    @staticmethod
    def ensures(S, old, new, a, result):
        ch = old(a.chromas); pr = old(a.pitchProfile); n = S.len(ch)
        yield 'one score per rotation', lambda: S.eq(S.len(result), n)
        yield 'the inner product minus the penalties', lambda: S.forall(n, lambda i: S.eq(result[i], S.sum(n, lambda c: score(S, ch, pr, a.penalityWeight, i, c))))

class ScoreForProfiles(Contract):
    target = 'gsdescriptors:findBestScoreForProfiles'
    props = ['C21']
    params = [('chromas', NUMS), ('pitchProfileDict', 'any'), ('penalityWeight', 'num'), ('allowDuplicates', 'bool')]
    any_result = True
    bounded = 'a dictionary with arbitrary keys'
    @staticmethod
    def gen(G, variant):
        n = G.pick([12, 12, 3])
        return {'chromas': [G.pick([0, 0, 1, 2, 0.5, 4]) for _ in range(n)], 'penalityWeight': G.pick([0, 1, 2, 0.5]),
                'pitchProfileDict': dict((k, [G.pick([1, 0.75, -1, -1]) for _ in range(n)]) for k in G.r.sample(['maj', 'min', 'x', 'y', 'z'], G.r.randint(1, 4)))}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        ch = raw(a.chromas); d = raw(a.pitchProfileDict); r = raw(result)
        sc = dict(((k, i), sum(score(S, ch, d[k], a.penalityWeight, i, c) for c in range(len(ch)))) for k in d for i in range(len(ch)))
        best = max(sc.values())
        if best > 0:
            near = lambda x: abs(sc[x] - best) < 1e-9
            if a.allowDuplicates:
                yield 'every answer has the best score', len(r) > 0 and all((k, i) in sc and near((k, i)) for i, k in r)
                yield 'every profile with the best score is there', set(k for i, k in r) == set(k for k, i in sc if sc[(k, i)] == best) or not all(isinstance(x, int) or x == int(x * 64) / 64 for x in sc.values())
            else: yield 'the answer has the best score', (r[1], r[0]) in sc and near((r[1], r[0]))

class ChordOf(Contract):
    target = 'gsdescriptors:Chord.getDescriptorForPattern'
    props = ['C21']
    params = [('self', 'any'), ('pattern', PAT)]
    any_result = True
    bounded = 'dictionaries with arbitrary keys'
    @staticmethod
    def gen(G, variant):
        from gsapi import gsdescriptors, gsdefs
        p = G.pattern()
        if G.chance(0.6):
            root = G.r.randint(0, 11); ty = G.pick(sorted(gsdefs.chordTypes))
            from gsapi import gspattern
            p.events = [gspattern.Event(0, 4, 48 + root + i, 80, 'n') for i in gsdefs.chordTypes[ty]] + p.events[:G.pick([0, 0, 1])]
        if G.chance(0.2):
            for e in p.events: e.tag = 'silence'
        p.duration = max([0.5] + [e.startTime + e.duration for e in p.events])
        return {'self': gsdescriptors.Chord(G.bool(), G.bool()), 'pattern': p}
    @staticmethod
    def requires(S, old, a): yield 'durations are not negative', all(e.duration >= 0 for e in old(a.pattern).events)
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        from gsapi import gsdefs
        ev = old(a.pattern).events; r = raw(result); me = raw(a.self)
        ch = [0] * 12
        for e in ev:
            if not (e.tag != () and e.tag == 'silence'): ch[e.pitch % 12] += e.duration
        if not any(c > 0 for c in ch):
            yield 'silence when nothing sounds', r == 'silence'
            return
        types = gsdefs.chordTypes if not me.forceMajMin else dict((k, gsdefs.chordTypes[k]) for k in ('maj', 'min'))
        prof = {}
        for k in types:
            prof[k] = [0.8 if i in [x % 12 for x in types[k]] else 1 if i == 0 else -1 for i in range(12)]
        w = old(a.pattern).duration / 2.0
        sc = dict(((gsdefs.defaultPitchNames[i], k), sum(score(S, ch, prof[k], w, i, c) for c in range(12))) for k in types for i in range(12))
        best = max(sc.values())
        if best > 0:
            rs = r if me.allowDuplicates else [r]
            yield 'a root and a type with the best score', len(rs) > 0 and all(tuple(x) in sc and abs(sc[tuple(x)] - best) < 1e-6 for x in rs)
        yield 'a chord, not silence', r != 'silence'
