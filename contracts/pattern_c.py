"""Contracts: filling, alignment, overlaps, legato (C09, C10, C12)."""
from __future__ import division
from engine.api import *
from contracts.pattern_a import META
from contracts.pattern_b import end, same_events, distinct_events

class FillWithPrevious(Contract):
    target = 'gspattern:Pattern.fillWithPreviousEvent'
    props = ['C12']
    params = [('self', PAT)]
    any_result = True
    @staticmethod
    def modifies(S, old, a):
        yield ('Event', ['duration'], lambda x: S.member(x, old(a.self).events))
    @staticmethod
    def reached(S, old, new, a, m):
        """the first m events last until the next later onset, or the pattern's end"""
        ev = old(a.self).events; n = S.len(ev); D = old(a.self).duration
        st = lambda i: ev[i].startTime
        ne = lambda i: st(i) + new(ev[i]).duration
        yield 'until a later onset or the end', lambda: S.forall(m, lambda i: S.Or(S.eq(ne(i), D), S.exists(n, lambda j: S.And(st(j) > st(i), S.eq(st(j), ne(i))))))
        yield 'no later onset is passed', lambda: S.forall(m, lambda i: S.forall(n, lambda j: S.Implies(st(j) > st(i), ne(i) <= st(j))))
        yield 'the end only when nothing starts later', lambda: S.forall(m, lambda i: S.Implies(S.Not(S.exists(n, lambda j: st(j) > st(i))), S.eq(ne(i), D)))
    @staticmethod
    def ensures(S, old, new, a, result):
        return FillWithPrevious.reached(S, old, new, a, S.len(old(a.self).events))
    @staticmethod
    def requires(S, old, a):
        ev = old(a.self).events
        yield 'events start no later than the end', lambda: S.forall(S.len(ev), lambda i: ev[i].startTime <= old(a.self).duration)
    @staticmethod
    def invariants(S, L):
        ev = L.old(L.a.self).events
        if L.i is not None:
            for lab, f in FillWithPrevious.reached(S, L.old, L.new, L.a, L.i): yield lab, f
        for n, l in L.lists:
            if l.kind != 'num': continue
            yield '%s different onsets' % n, lambda: S.distinct_vals(l)
            if L.i is None: continue
            yield '%s onsets seen' % n, lambda: S.forall(S.len(l), lambda j: S.exists(L.i, lambda k: S.eq(l[j], ev[k].startTime)))
            yield '%s every onset seen' % n, lambda: S.forall(L.i, lambda k: S.exists(S.len(l), lambda j: S.eq(l[j], ev[k].startTime)))

class FillSilences(Contract):
    target = 'gspattern:Pattern.fillWithSilences'
    props = ['C09']
    params = [('self', PAT), ('maxSilenceTime', 'num'), ('perTag', ('const', False)), ('silenceTag', 'V'), ('silencePitch', 'int')]
    any_result = True
    @staticmethod
    def gen(G, variant):
        return {'self': G.pattern(), 'maxSilenceTime': G.pick([0, 0, 1, 0.5, 3, -1]), 'silenceTag': G.pick(['silence', 'sil', '', 'a'])}
    @staticmethod
    def modifies(S, old, a):
        yield (old(a.self).events,)
        yield (a.self, ['events'])
    @staticmethod
    def requires(S, old, a):
        ev = old(a.self).events
        yield 'starts from 0', lambda: S.forall(S.len(ev), lambda i: ev[i].startTime >= 0)
        yield 'durations from 0', lambda: S.forall(S.len(ev), lambda i: ev[i].duration >= 0)
    @staticmethod
    def is_silence(S, new, a, x):
        s = new(x)
        return S.And(S.eq(s.tag, a.silenceTag), S.eq(s.pitch, a.silencePitch), S.eq(s.velocity, 0), s.duration > 0, s.startTime >= 0,
                     S.Or(a.maxSilenceTime <= 0, s.duration <= a.maxSilenceTime))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; nv = new(a.self).events; n = S.len(nv); D = old(a.self).duration
        fresh = lambda i: S.fresh(nv[i], old)
        yield 'no event is lost', lambda: S.forall(S.len(ev), lambda i: S.member(ev[i], nv))
        yield 'the rest are silences', lambda: S.forall(n, lambda i: S.Or(S.member(nv[i], ev), S.And(fresh(i), FillSilences.is_silence(S, new, a, nv[i]))))
        yield 'no silence overlaps a later one', lambda: S.forall2(n, lambda i, j: S.Implies(fresh(i), end(new(nv[i])) <= new(nv[j]).startTime))
        yield 'no silence overlaps an earlier one', lambda: S.forall2(n, lambda i, j: S.Implies(fresh(j), end(new(nv[i])) <= new(nv[j]).startTime))
        yield 'no gap', lambda: S.forall_real(lambda t: S.Implies(S.And(t >= 0, t < D), S.exists(n, lambda i: S.And(new(nv[i]).startTime <= t, t < end(new(nv[i]))))),
            dom=lambda: [t for x in range(n) for t in (new(nv[x]).startTime, end(new(nv[x])))] + [0])
        yield 'in time order', lambda: S.ascending(nv, lambda e: new(e).startTime)
        yield 'no silence reaches beyond the end', lambda: S.forall(n, lambda i: S.Implies(fresh(i), S.Or(end(new(nv[i])) <= D, S.exists(S.len(ev), lambda j: end(new(nv[i])) <= ev[j].startTime))))
        yield 'events keep their fields', lambda: S.forall(S.len(ev), lambda i: S.same_fields(new(ev[i]), ev[i], S.EVF))
    readings = False
    @staticmethod
    def invariants(S, L):
        new = L.new; old = L.old; a = L.a; ev = old(a.self).events; D = old(a.self).duration
        own = L if L.seq is not None else (L.outer[0] if L.outer else None)
        seq = own.seq if own is not None and own.seq is not None else None
        done = own.i if seq is not None else None
        inner = own is not None and own is not L
        lasts = [(n, x) for n, x in L.nums if x.sort().name() == 'Real' and not x.eq(a.maxSilenceTime)]
        for n, l in L.lists:
            if l.kind != EV: continue
            fresh = lambda i: S.fresh(l[i], old)
            for m, t in lasts:
                yield '%s covered up to %s' % (n, m), lambda: S.And(t >= 0, S.forall_real(lambda u: S.Implies(S.And(u >= 0, u < t), S.exists(S.len(l), lambda i: S.And(new(l[i]).startTime <= u, u < end(new(l[i])))))))
                yield '%s ends by %s' % (n, m), lambda: S.forall(S.len(l), lambda i: end(new(l[i])) <= t)
                if inner and seq is not None: yield '%s before the next event' % m, lambda: t <= new(seq[done]).startTime
            if seq is not None:
                yield '%s events so far' % n, lambda: S.forall(done, lambda i: S.member(seq[i], l))
                yield '%s only those and silences' % n, lambda: S.forall(S.len(l), lambda i: S.Or(S.exists(done, lambda j: S.same(l[i], seq[j])), S.And(fresh(i), FillSilences.is_silence(S, new, a, l[i]))))
                yield '%s in front of the events to come' % n, lambda: S.forall(S.len(l), lambda i: S.forall_range(done, S.len(seq), lambda j: S.And(new(l[i]).startTime <= new(seq[j]).startTime, S.Implies(fresh(i), end(new(l[i])) <= new(seq[j]).startTime))))
                yield '%s silences before an event' % n, lambda: S.forall(S.len(l), lambda i: S.Implies(fresh(i), S.exists(done + (1 if inner else 0), lambda j: end(new(l[i])) <= new(seq[j]).startTime)))
            else:
                cur = new(a.self).events
                yield '%s every event in its present order' % n, lambda: S.forall(S.len(cur), lambda i: S.member(cur[i], l))
                yield '%s every event' % n, lambda: S.forall(S.len(ev), lambda i: S.member(ev[i], l))
                yield '%s only events and silences' % n, lambda: S.forall(S.len(l), lambda i: S.Or(S.member(l[i], ev), S.And(fresh(i), FillSilences.is_silence(S, new, a, l[i]))))
                yield '%s silences end in time' % n, lambda: S.forall(S.len(l), lambda i: S.Implies(fresh(i), S.Or(end(new(l[i])) <= D, S.exists(S.len(ev), lambda j: end(new(l[i])) <= ev[j].startTime))))
            yield '%s silences before the later ones' % n, lambda: S.forall2(S.len(l), lambda i, j: S.Implies(fresh(i), end(new(l[i])) <= new(l[j]).startTime))
            yield '%s silences after the earlier ones' % n, lambda: S.forall2(S.len(l), lambda i, j: S.Implies(fresh(j), end(new(l[i])) <= new(l[j]).startTime))
            yield '%s ascending' % n, lambda: S.ascending(l, lambda e: new(e).startTime)
