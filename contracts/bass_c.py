"""Contracts: the bass model (C28), run under CPython with numpy."""
from __future__ import division
from engine.api import *

def gen_counts(G, n, m=None):
    return [[G.pick([0, 0, 1, 2, 5]) if G.chance(0.8) else 0 for _ in range(m or n)] if G.chance(0.8) else [0] * (m or n) for _ in range(n)]

class NormalizeRows(Contract):
    target = 'drivers:normalize_rows'
    props = ['C28']
    params = [('counts', 'any')]
    any_result = True
    runtime_python = 'cpython'
    bounded = 'numpy arrays'
    @staticmethod
    def gen(G, variant): return {'counts': gen_counts(G, G.r.randint(1, 5), G.r.randint(1, 5))}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        rows = raw(result); c = raw(a.counts)
        yield 'the same shape', [len(r) for r in rows] == [len(r) for r in c]
        yield 'rows that are not empty become distributions', all(abs(sum(r) - 1) < 1e-9 and min(r) >= 0 for r, k in zip(rows, c) if sum(k) > 0)
        yield 'proportional to the counts', all(abs(x * sum(k) - y) < 1e-9 for r, k in zip(rows, c) for x, y in zip(r, k) if sum(k) > 0)
        yield 'empty rows stay empty', all(not any(r) for r, k in zip(rows, c) if sum(k) == 0)

class NormalizeModel(Contract):
    target = 'drivers:normalize_model'
    props = ['C28']
    params = [('temporal', 'any'), ('interlocking', 'any'), ('initial', 'any')]
    any_result = True
    runtime_python = 'cpython'
    bounded = 'numpy arrays'
    @staticmethod
    def gen(G, variant):
        n = G.pick([2, 3, 4])
        return {'temporal': gen_counts(G, n), 'interlocking': gen_counts(G, n), 'initial': [G.r.randint(0, 3) for _ in range(n)]}
    @staticmethod
    def requires(S, old, a): yield 'some sequence was learnt', lambda: sum(old(a.initial)) > 0
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        t, i, n, flag = raw(result)
        for nm, rows, c in (('temporal', t, raw(a.temporal)), ('interlocking', i, raw(a.interlocking)), ('initial', [n], [raw(a.initial)])):
            yield nm + ' rows are distributions', all(abs(sum(r) - 1) < 1e-9 and min(r) >= 0 for r, k in zip(rows, c) if sum(k) > 0)
            yield nm + ' rows are proportional to the counts', all(abs(x * sum(k) - y) < 1e-9 for r, k in zip(rows, c) for x, y in zip(r, k) if sum(k) > 0)
            yield nm + ' rows without counts stay empty', all(not any(r) for r, k in zip(rows, c) if sum(k) == 0)
        yield 'marked as normalized', flag is True

class BeatPattern(Contract):
    target = 'drivers:beat_pattern'
    props = ['C28']
    params = [('onsets', 'any'), ('beats', 'int')]
    any_result = True
    runtime_python = 'cpython'
    bounded = 'numpy arrays'
    @staticmethod
    def gen(G, variant):
        n = G.r.randint(1, 8)
        return {'beats': n, 'onsets': [G.pick([G.r.randint(0, 4 * n + 6) / 4, G.r.randint(0, 64 * n) / 64]) for _ in range(G.nlist())]}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        rows, syms = raw(result); n = a.beats; on = raw(a.onsets)
        yield 'one row of four per beat', [len(r) for r in rows] == [4] * n
        near = lambda d: [k for k in range(4) if abs(k * 0.25 - d) == min(abs(j * 0.25 - d) for j in range(4))]
        ok = True
        for b in range(n):
            mine = [near(o - b) for o in on if b <= o and o < b + 1]
            for k in range(4):
                if rows[b][k] not in (0, 1): ok = False
                if rows[b][k] == 1 and not any(k in x for x in mine): ok = False
                if rows[b][k] == 0 and any(x == [k] for x in mine): ok = False
            if any(not any(rows[b][k] for k in x) for x in mine): ok = False
        yield 'a beat holds the onsets in it, each at the nearest subdivision', ok
        yield 'one symbol per beat', syms == [8 * r[0] + 4 * r[1] + 2 * r[2] + r[3] for r in rows]

class PdfSampling(Contract):
    target = 'bassmine:pdf_sampling'
    props = ['C28']
    params = [('n', ('list', 'num'))]
    result = 'int'
    runtime_python = 'cpython'
    records_draws = True
    @staticmethod
    def draw(r, vals):
        """random numbers at the edges of the intervals are what matters"""
        n = vals['n']; x = sum(n[:r.randint(0, len(n) - 1)])
        return x if x < 1 and r.random() < 0.3 else None
    @staticmethod
    def gen(G, variant):
        k = [G.r.randint(0, 3) for _ in range(G.r.randint(1, 5))]
        if not sum(k): k[-1] = 1
        m = 1
        while m < sum(k): m *= 2
        k[G.r.randint(0, len(k) - 1)] += m - sum(k)     # dyadic: the prefix sums are exact
        return {'n': [x / m for x in k]}
    @staticmethod
    def requires(S, old, a):
        n = old(a.n)
        yield 'weights are not negative', lambda: S.forall(S.len(n), lambda i: n[i] >= 0)
        yield 'the weights sum to one', lambda: S.eq(S.sum(S.len(n), lambda k: n[k]), 1)
    @staticmethod
    def ensures(S, old, new, a, result):
        n = old(a.n); d = S.draws
        yield 'one random number is drawn', len(d) == 1
        x = d[0]
        yield 'one of the choices', lambda: S.And(result >= 0, result < S.len(n))
        yield 'the choice whose interval holds the random number', lambda: S.And(S.sum(result, lambda k: n[k]) <= x, x < S.sum(result + 1, lambda k: n[k]))
        yield 'a choice of weight zero is never taken', lambda: n[result] > 0
    @staticmethod
    def invariants(S, L):
        n = L.old(L.a.n); x = S.draws[0]
        yield 'the random number is above the intervals seen', lambda: S.sum(L.i, lambda k: n[k]) <= x
    @staticmethod
    def end_lemmas(S, L): pass

class TranslateRhythm(Contract):
    target = 'bassmine:translate_rhythm'
    props = ['C28']
    params = [('rhythm', ('list', ('list', 'int')))]
    result = ('list', 'int')
    runtime_python = 'cpython'
    @staticmethod
    def gen(G, variant): return {'rhythm': [[G.pick([0, 1]) for _ in range(4)] for _ in range(G.nlist())]}
    @staticmethod
    def requires(S, old, a):
        r = old(a.rhythm)
        yield 'four subdivisions per beat', lambda: S.forall(S.len(r), lambda i: S.eq(S.len(r[i]), 4))
    @staticmethod
    def ensures(S, old, new, a, result):
        r = old(a.rhythm)
        yield 'one symbol per beat', lambda: S.eq(S.len(result), S.len(r))
        yield 'the beat read as a binary number', lambda: S.forall(S.len(r), lambda i: S.eq(result[i], 8 * r[i][0] + 4 * r[i][1] + 2 * r[i][2] + r[i][3]))
    @staticmethod
    def invariants(S, L):
        if L.seq is None: return
        for n, x in L.lists:
            yield '%s: one per beat' % n, lambda: S.eq(S.len(x), L.i)
            yield '%s: so far' % n, lambda: S.forall(L.i, lambda k: S.eq(x[k], 8 * L.seq[k][0] + 4 * L.seq[k][1] + 2 * L.seq[k][2] + L.seq[k][3]))
