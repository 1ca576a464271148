"""Contracts: Markov styles, transformers (C22, C23, C25)."""
from __future__ import division
from engine.api import *

def gen_training(G, numSteps, loop, n=None):
    from gsapi import gspattern
    out = []
    pool = G.pick([['a', 'b'], ['kick', 'snare', 'hh'], ['a', ('a', 'b'), 'c'], ['Aa', 'BB', 'AaBB', 'BBAa']])
    step = loop / numSteps
    for _ in range(n or G.r.randint(1, 5)):
        p = gspattern.Pattern(); p.duration = loop
        for _ in range(G.r.randint(0, 2 * numSteps)):
            t = G.r.randint(0, numSteps - 1) * step
            if G.chance(0.1): t = min(t + step / 4, loop - step)
            d = G.pick([step, step, step / 2, 2 * step])
            p.events.append(gspattern.Event(t, min(d, loop - t), G.r.choice([36, 38, 42]), 100, G.pick(pool)))
        if G.chance(0.7): p.events.sort(key=lambda e: e.startTime)
        out.append(p)
    return out

def event_set(p, step):
    return frozenset(e.tag for e in p.events if e.startTime == step)

def transitions(pats, order, numSteps):
    """(step, context, event set) -> count, with event sets as frozensets"""
    c = {}; ctx = {}
    for p in pats:
        sets = [event_set(p, s) for s in range(numSteps)]
        for s in range(numSteps):
            k = (s, tuple(sets[(s - i) % numSteps] for i in range(order, 0, -1)))
            ctx[k] = ctx.get(k, 0) + 1
            c[k + (sets[s],)] = c.get(k + (sets[s],), 0) + 1
    return c, ctx

def as_sets(t): return tuple(frozenset(x) for x in t)

class LearnTable(Contract):
    target = 'drivers:learn'
    props = ['C22']
    params = [('patterns', 'any'), ('order', 'int'), ('numSteps', 'int'), ('loopDuration', 'num'), ('style', 'bool')]
    any_result = True
    bounded = 'nested dictionaries keyed by tuples of tuples'
    @staticmethod
    def gen(G, variant):
        n = G.pick([1, 2, 3, 4, 4, 8, 8, 16]); loop = G.pick([4, 4, 2, 8, 1])
        return {'patterns': gen_training(G, n, loop), 'order': G.r.randint(1, min(3, n)), 'numSteps': n, 'loopDuration': loop}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        table, formatted = raw(result)
        yield 'one entry per step', len(table) == a.numSteps
        c, ctx = transitions(formatted, a.order, a.numSteps)
        seen = {}
        dup = False
        for s in range(len(table)):
            for k in table[s]:
                for e in table[s][k]:
                    key = (s, as_sets(k), frozenset(e))
                    if key in seen: dup = True
                    seen[key] = table[s][k][e]
        yield 'one entry per context and event set', not dup
        yield 'exactly the transitions observed', set(seen) == set(c)
        yield 'the frequencies', all(abs(seen[k] - c[k] / ctx[k[:2]]) < 1e-9 for k in c)
        yield 'rows sum to one', all(abs(sum(r.values()) - 1) < 1e-9 for t in table for r in t.values())
        yield 'probabilities are positive', all(x > 0 for t in table for r in t.values() for x in r.values())
        # what is counted are the training patterns themselves, on the grid
        pats = raw(a.patterns); step = a.loopDuration / a.numSteps
        for p, f in zip(pats, formatted):
            grid = [e for e in p.events if abs(e.startTime / step - round(e.startTime / step)) < 1e-9]
            if len(grid) == len(p.events):
                want = [set(e.tag for e in p.events if round(e.startTime / step) == s) for s in range(a.numSteps)]
                got = [set(event_set(f, s)) - set(['silence']) for s in range(a.numSteps)]
                yield 'the event sets are those of the training patterns', got == want

class GenerateFrom(Contract):
    target = 'drivers:generate'
    props = ['C23']
    params = [('patterns', 'any'), ('order', 'int'), ('numSteps', 'int'), ('loopDuration', 'num'), ('seed', 'int'), ('style', 'bool')]
    any_result = True
    bounded = 'random choices from nested dictionaries'
    @staticmethod
    def gen(G, variant):
        n = G.pick([2, 3, 4, 4, 8]); loop = G.pick([4, 4, 2, 8])
        return {'patterns': gen_training(G, n, loop), 'order': G.r.randint(1, min(2, n - 1)), 'numSteps': n, 'loopDuration': loop, 'seed': G.pick([0, 0, G.r.randint(0, 10 ** 6)])}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        table, runs, again = raw(result)
        n = a.numSteps; step = a.loopDuration / n
        ev = lambda p: sorted((e.startTime, e.duration, e.pitch, e.velocity, repr(e.tag)) for e in p.events)
        for p, q in zip(runs, again):
            if p is None or q is None:
                yield 'the same seed gives the same pattern', p is None and q is None
                continue
            yield 'the same seed gives the same pattern', [(e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in p.events] == [(e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in q.events]
            yield 'the loop duration', p.duration == a.loopDuration
            yield 'events on steps, one step long', all(abs(e.startTime / step - round(e.startTime / step)) < 1e-9 and 0 <= round(e.startTime / step) < n and abs(e.duration - step) < 1e-9 for e in p.events)
            yield 'no silence', all(e.tag != 'silence' for e in p.events)
            sets = [frozenset(e.tag for e in p.events if int(round(e.startTime / step)) == s) or frozenset(['silence']) for s in range(n)]
            for s in range(a.order, n):
                row = dict()
                for k in table[s]:
                    if as_sets(k) == tuple(sets[s - a.order:s]):
                        for e in table[s][k]: row[frozenset(e)] = table[s][k][e]
                yield 'every step follows a learnt transition', row.get(sets[s], 0) > 0

class EveryChoice(Contract):
    """every allowed choice is generated, about as often as its probability says"""
    target = 'drivers:choices'
    props = ['C23']
    params = [('weights', 'any'), ('draws', 'int')]
    any_result = True
    weight = 1
    bounded = 'random choices'
    @staticmethod
    def gen(G, variant): return {'weights': [G.r.randint(1, 4) for _ in range(G.r.randint(1, 4))], 'draws': 400}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        got = raw(result); w = raw(a.weights); tot = sum(w)
        yield 'every allowed choice occurs', all(got.get(i, 0) > 0 for i in range(len(w)))
        yield 'about as often as its probability says', all(abs(got.get(i, 0) / a.draws - w[i] / tot) < 0.2 for i in range(len(w)))

# ---------------------------------------------------------------- C25
def gen_voices(G, numSteps):
    from gsapi import gspattern
    p = gspattern.Pattern(); p.duration = G.pick([4, 8, 2, numSteps]); step = p.duration / numSteps
    for t in G.r.sample(['a', 'ab', 'kick', 'k'], G.r.randint(1, 3)):
        for s in sorted(G.r.sample(range(numSteps), G.r.randint(1, numSteps))):
            p.events.append(gspattern.Event(s * step, step * G.pick([1, 1, 0.5]), 36, 100, t))
    if G.chance(0.5): p.events.sort(key=lambda e: e.startTime)
    p.bpm = G.pick([120, 90])
    return p

class Densify(Contract):
    target = 'drivers:densify'
    props = ['C25']
    params = [('pattern', PAT), ('numSteps', 'int'), ('mode', 'str'), ('densities', 'any')]
    any_result = True
    bounded = 'a state machine over nested dictionaries and random choices'
    @staticmethod
    def gen(G, variant):
        n = G.pick([4, 8, 16])
        p = gen_voices(G, n)
        tags = sorted(set(e.tag for e in p.events))
        d = []
        for _ in range(G.r.randint(0, 4)): d.append(dict((t, G.pick([1, 1, 0, 0.5, 1.5, 2, 0.25, 1.25, 0.9, 0.1, 1.9])) for t in tags if G.chance(0.7)))
        return {'pattern': p, 'numSteps': n, 'mode': G.pick(['random', 'hysteresis']), 'densities': d}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        p = old(a.pattern); outs = raw(result); step = p.duration / a.numSteps
        now = lambda q: sorted((e.startTime, e.duration, e.pitch, e.velocity, repr(e.tag)) for e in q.events)
        yield 'the pattern given is not changed', now(new(a.pattern)) == now(p)
        sig = lambda es: sorted((round(e[0] / step, 6), round(e[1] / step, 6), e[2], e[3], repr(e[4])) for e in es)
        base = outs[0]; requests = raw(a.densities); tags = set(e.tag for e in p.events)
        for r in [base, outs[-2]] + [x for o in outs[1:-2] for x in o]:
            yield 'the duration of the input', abs(r[0] - p.duration) < 1e-9
            yield 'events lie on the step grid', all(abs(e[0] / step - round(e[0] / step)) < 1e-9 and -1e-9 <= e[0] < p.duration for e in r[3])
            yield 'the metadata of the input', r[1] == p.bpm and r[2] == p.timeSignature
        onsets = lambda q, t: sorted(int(round(e[0] / step)) for e in q[3] if e[4] == t)
        yield 'density one gives the aligned input', sig(base[3]) == sorted((float(round(e.startTime / step)), 1.0, e.pitch, e.velocity, repr(e.tag)) for e in p.events)
        yield 'back at density one: the aligned input', sig(outs[-2][3]) == sig(base[3])
        n, r, q = outs[-1]
        yield 'a new input starts afresh', abs(r[0] - n) < 1e-9 and sorted((float(e[0]), float(e[1]), e[2], e[3], repr(e[4])) for e in r[3]) == sorted((float(e[0]), float(e[1]), e[2], e[3], repr(e[4])) for e in q[3])
        def answers(r, d):
            for t in tags:
                mine = onsets(r, t); was = onsets(base, t)
                yield 'a tag does not sound twice on a step', len(set(mine)) == len(mine)
                if d.get(t, 1) == 1: yield 'a tag at density one is as in the input', sig(e for e in r[3] if e[4] == t) == sig(e for e in base[3] if e[4] == t)
                elif d[t] < 1: yield 'a lower density only takes events away', set(mine) <= set(was)
                else: yield 'a higher density only adds events', set(mine) >= set(was)
            yield 'no tag appears', set(e[4] for e in r[3]) <= tags
        dens = {}; prev = base
        for d, (alone, r, again) in zip(requests, outs[1:-2]):
            for x in answers(alone, d): yield x
            was = dict(dens); dens.update(d)
            for x in answers(r, dens): yield x
            for t in tags:
                u, v = set(onsets(prev, t)), set(onsets(r, t)); w, z = was.get(t, 1), dens.get(t, 1)
                if w == z: yield 'a tag whose density stays is left alone', u == v
                elif w < z: yield 'raising a density removes no event of the tag', u <= v
                else: yield 'lowering a density adds no event of the tag', u >= v
            yield 'asking again without a request changes nothing', sig(again[3]) == sig(r[3])
            prev = r

# ---------------------------------------------------------------- C31
class MarkovQueries(Contract):
    """what a learnt model reports is what its table holds"""
    target = 'drivers:markov_queries'
    props = ['C31']
    params = [('patterns', 'any'), ('order', 'int'), ('numSteps', 'int'), ('loopDuration', 'num')]
    any_result = True
    bounded = 'nested dictionaries keyed by tuples of tuples'
    gen = staticmethod(LearnTable.gen)
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        t, after, queries, everything, (ins, outs, total) = raw(result)
        n = a.numSteps
        once = lambda got, want: len(got) == len(want) and set(got) == want
        yield 'asking changes nothing', t == after
        yield 'all states of the model, once each', once(everything, set(x for d in t for x in d) | set(y for d in t for r in d.values() for y in r))
        ok = [True] * 4
        for k, i, o, al, (m, mi, mo) in queries:
            d = t[k % n]
            outs_k = set(y for r in d.values() for y in r)
            if not once(i, set(d)): ok[0] = False
            if not once(o, outs_k): ok[1] = False
            if not once(al, set(d) | outs_k): ok[2] = False
            if not (once(mi, set(d)) and once(mo, outs_k) and m == [[d[x].get(y, 0) for y in mo] for x in mi]): ok[3] = False
        yield 'the contexts of a step', ok[0]
        yield 'the event sets of a step', ok[1]
        yield 'both', ok[2]
        yield 'the matrix of a step holds its probabilities', ok[3]
        yield 'the matrix of all steps holds their sums', all(abs(total[i][j] - sum(d.get(x, {}).get(y, 0) for d in t)) < 1e-9 for i, x in enumerate(ins) for j, y in enumerate(outs))

class MarkovSaved(Contract):
    """a Markov style saved and loaded into a new style"""
    target = 'drivers:markov_state'
    props = ['C31']
    params = [('patterns', 'any'), ('order', 'int'), ('numSteps', 'int'), ('loopDuration', 'num'), ('via', 'str')]
    variants = [('internal state', {'via': ('const', 'state')}), ('json', {'via': ('const', 'json')}), ('pickle', {'via': ('const', 'pickle')})]
    any_result = True
    bounded = 'files, and the json and pickle libraries'
    gen = staticmethod(LearnTable.gen)
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        t, kept, back, conf, built, g = raw(result)
        yield 'saving does not change the model', kept == t
        yield 'the loaded model has the same table', back == t
        yield 'the same order, steps and loop', conf == (a.order, a.numSteps, a.loopDuration)
        yield 'it says whether it is built', [bool(b) for b in built] == [False, True, True]
        yield 'it generates for its own loop', g is None or g.duration == a.loopDuration

class DatabaseSaved(Contract):
    """a database style gives its own patterns, and keeps them when saved and loaded"""
    target = 'drivers:database_state'
    props = ['C31']
    params = [('patterns', 'any'), ('via', 'str'), ('ordering', 'str')]
    variants = [('internal state', {'via': ('const', 'state')}), ('json', {'via': ('const', 'json')}), ('pickle', {'via': ('const', 'pickle')})]
    any_result = True
    bounded = 'files, and the json and pickle libraries'
    @staticmethod
    def gen(G, variant):
        return {'patterns': [G.pattern() for _ in range(G.r.randint(1, 4))], 'ordering': G.pick(['indexed', 'increasing', 'random'])}
    @staticmethod
    def modifies(S, old, a):
        from contracts.pattern_e import may_grow
        from rtspec import raw
        for p in raw(a.patterns):
            for m in may_grow(S, old, old(p)): yield m
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        from contracts.pattern_e import same_pattern
        picked, back, built = raw(result)
        pats = raw(a.patterns)
        if a.ordering == 'increasing': yield 'its patterns one after the other', picked == [[i] for i in range(len(pats))]
        elif a.ordering == 'indexed': yield 'the current pattern', picked == [[0]] * len(pats)
        else: yield 'one of its patterns', all(len(x) == 1 for x in picked)
        plain = lambda t: [plain(x) for x in t] if isinstance(t, (tuple, list)) else t
        def tag_ok(x, y):
            if a.via != 'pickle' and not isinstance(y, tuple): y = (y,)
            return plain(x) == plain(y)
        yield 'the loaded style has the same patterns, in order', len(back) == len(pats) and all(same_pattern(p, q, tag_ok) for p, q in zip(pats, back))
        yield 'it says whether it is built', built == [False, True, True]
