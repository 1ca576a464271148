"""Contracts: overlaps, grid alignment, legato, filling tag by tag, splitting, JSON (C08, C09, C10, C12, C13)."""
from __future__ import division
from engine.api import *
from contracts.pattern_a import META, PatternWithPitch, PatternWithTags
from contracts.pattern_b import end, same_events, distinct_events

def voice(S, by_pitch, x, y): return S.Ite(by_pitch, S.eq(x.pitch, y.pitch), S.eq(x.tag, y.tag))

class RemoveOverlapped(Contract):
    target = 'gspattern:Pattern.removeOverlapped'
    props = ['C10']
    params = [('self', PAT), ('usePitchValues', 'bool')]
    variants = [('by tag', {'usePitchValues': ('const', False)}), ('by pitch', {'usePitchValues': ('const', True)})]
    any_result = True
    readings = False        # the invariants below are complete
    time_limit = 500.0
    @staticmethod
    def requires(S, old, a):
        ev = old(a.self).events
        yield 'no event listed twice', lambda: distinct_events(S, old, a)
        yield 'no negative duration', lambda: S.forall(S.len(ev), lambda i: ev[i].duration >= 0)
    @staticmethod
    def modifies(S, old, a):
        yield (old(a.self).events,)
        yield (a.self, ['events'])
        yield ('Event', ['duration'], lambda x: S.member(x, old(a.self).events))
    @staticmethod
    def same_voice(S, a, x, y):
        return S.eq(x.pitch, y.pitch) if a.usePitchValues else S.eq(x.tag, y.tag)
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; nv = new(a.self).events; n = S.len(nv); m = S.len(ev)
        sv = lambda x, y: RemoveOverlapped.same_voice(S, a, x, y)
        yield 'no event is invented or doubled', lambda: S.And(S.forall(n, lambda i: S.member(nv[i], ev)), S.distinct(nv))
        yield 'in time order', lambda: S.ascending(nv, lambda e: new(e).startTime)
        yield 'no overlap within a voice', lambda: S.forall2(n, lambda i, j: S.Implies(sv(new(nv[i]), new(nv[j])), end(new(nv[i])) <= new(nv[j]).startTime))
        yield 'no event gets longer', lambda: S.forall(m, lambda i: new(ev[i]).duration <= ev[i].duration)
        yield 'events are shortened only down to a later one of the voice', lambda: S.forall(m, lambda i: S.Or(S.eq(new(ev[i]).duration, ev[i].duration),
            S.exists(m, lambda j: S.And(sv(ev[i], ev[j]), ev[j].startTime > ev[i].startTime, S.eq(end(new(ev[i])), ev[j].startTime)))))
        yield 'an event goes only for a later-listed one starting with it', lambda: S.forall(m, lambda i: S.Or(S.member(ev[i], nv),
            S.exists_range(i + 1, m, lambda j: S.And(sv(ev[i], ev[j]), S.eq(ev[j].startTime, ev[i].startTime)))))
    @staticmethod
    def invariants(S, L):
        old, new = L.old, L.new
        sv = lambda x, y: RemoveOverlapped.same_voice(S, L.a, x, y)
        E = (L.outer[0] if L.outer else L).seq; i = (L.outer[0] if L.outer else L).i
        if E is None or i is None or E.kind != EV: return
        m = S.len(E); pos = S.position('time order', E)
        bools = [(n, b) for n, b in L.bools if n in L.lp.assigned]
        yield 'no event twice', lambda: S.forall(m, lambda k: S.eq(pos(E[k]), k))
        yield 'time order', lambda: S.ascending(E, lambda e: new(e).startTime)
        yield 'starts kept', lambda: S.forall(m, lambda k: S.eq(new(E[k]).startTime, old(E[k]).startTime))
        yield 'not longer', lambda: S.forall(m, lambda k: new(E[k]).duration <= old(E[k]).duration)
        yield 'not negative', lambda: S.forall(m, lambda k: new(E[k]).duration >= 0)
        cut = lambda k, hi: S.exists_range(k + 1, hi, lambda j: S.And(sv(E[k], E[j]), E[j].startTime > E[k].startTime, S.eq(end(new(E[k])), E[j].startTime)))
        yield 'shortened to a later one', lambda: S.forall(i, lambda k: S.Or(S.eq(new(E[k]).duration, old(E[k]).duration), cut(k, m)))
        if not L.outer:
            yield 'not reached yet', lambda: S.forall_range(i, m, lambda k: S.eq(new(E[k]).duration, old(E[k]).duration))
        else:
            v = i + 1 + L.i; e = E[i]
            yield 'those after not reached yet', lambda: S.forall_range(i + 1, m, lambda k: S.eq(new(E[k]).duration, old(E[k]).duration))
            yield 'clear of those looked at', lambda: S.forall_range(i + 1, v, lambda j: S.Implies(sv(e, E[j]), end(new(e)) <= new(E[j]).startTime))
            for n, b in bools:
                yield '%s false: not cut' % n, lambda: S.Or(b, S.eq(new(e).duration, old(e).duration))
                yield '%s true: cut' % n, lambda: S.Or(S.Not(b), cut(i, v))
        for n, l in L.lists:
            if l.kind != EV: continue
            hi = i + 1 if L.outer else i
            yield '%s taken from those seen' % n, lambda: S.forall(S.len(l), lambda p: S.And(pos(l[p]) >= 0, pos(l[p]) < hi, S.same(E[pos(l[p])], l[p])))
            yield '%s in order' % n, lambda: S.forall2(S.len(l), lambda p, q: pos(l[p]) < pos(l[q]))
            yield '%s no overlap' % n, lambda: S.forall(S.len(l), lambda p: S.Or(pos(l[p]) >= i, S.forall_range(pos(l[p]) + 1, m, lambda j: S.Implies(sv(l[p], E[j]), end(new(l[p])) <= new(E[j]).startTime))))
            yield '%s left out' % n, lambda: S.forall(i, lambda k: S.Or(S.exists(S.len(l), lambda p: S.same(l[p], E[k])), S.exists_range(k + 1, m, lambda j: S.And(sv(E[k], E[j]), S.eq(E[j].startTime, E[k].startTime)))))
            if L.outer:
                for bn, b in bools:
                    yield '%s %s appended' % (n, bn), lambda: S.Or(S.Not(b), S.exists(S.len(l), lambda p: S.same(l[p], E[i])))
                    yield '%s %s not appended' % (n, bn), lambda: S.Or(b, S.forall(S.len(l), lambda p: pos(l[p]) < i))

class CutInSteps(Contract):
    target = 'gspattern:Event.cutInSteps'
    props = ['C10']
    params = [('self', EV), ('stepSize', 'num')]
    result = ('list', EV)
    @staticmethod
    def requires(S, old, a):
        yield 'a positive step', lambda: a.stepSize > 0
        yield 'no negative duration', lambda: old(a.self).duration >= 0
    @staticmethod
    def ensures(S, old, new, a, result):
        e = old(a.self); n = S.max(1, S.floor(S.div(e.duration, a.stepSize)))
        yield 'one event per whole step, at least one', lambda: S.eq(S.len(result), n)
        yield 'steps follow each other', lambda: S.forall(S.len(result), lambda i: S.And(S.eq(result[i].startTime, e.startTime + S.mul(i, a.stepSize)), S.eq(result[i].duration, a.stepSize)))
        yield 'other fields kept', lambda: S.forall(S.len(result), lambda i: S.same_fields(result[i], e, ['pitch', 'velocity', 'tag']))
        yield 'new events, each once', lambda: S.And(S.forall(S.len(result), lambda i: S.fresh(result[i], old)), S.distinct(result))

class AlignOnGrid(Contract):
    target = 'gspattern:Pattern.alignOnGrid'
    props = ['C10']
    params = [('self', PAT), ('stepSize', 'num'), ('repeatibleTags', ('list', 'V'))]
    any_result = True
    bounded = 'built on removeOverlapped and cutInSteps: not discharged yet'
    @staticmethod
    def gen(G, variant):
        return {'self': G.pattern(), 'stepSize': G.pick([1, 0.5, 2, 0.25, 4]), 'repeatibleTags': G.pick([['silence'], ['silence'], [], [G.tag()], ['a', 'silence']])}
    @staticmethod
    def requires(S, old, a):
        ev = old(a.self).events
        yield 'no event listed twice', lambda: distinct_events(S, old, a)
        yield 'no negative time', lambda: S.forall(S.len(ev), lambda i: S.And(ev[i].startTime >= 0, ev[i].duration >= 0))
        yield 'a positive step', lambda: a.stepSize > 0
        rt = a.repeatibleTags
        yield 'a tuple among the repeatible tags is looked for in tuples only', lambda: S.forall(S.len(rt), lambda j: S.Or(S.is_str(old(rt)[j]), S.forall(S.len(ev), lambda i: S.Not(S.is_str(ev[i].tag)))))
    @staticmethod
    def modifies(S, old, a):
        yield (old(a.self).events,)
        yield (a.self, ['events'])
        yield ('Event', ['duration', 'startTime'], lambda x: S.member(x, old(a.self).events))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; nv = new(a.self).events; n = S.len(nv); st = a.stepSize; D = old(a.self).duration
        rt = a.repeatibleTags
        rep = lambda e: S.exists(S.len(rt), lambda j: S.Or(S.eq(old(rt)[j], e.tag), S.tag_in(old(rt)[j], e.tag)))
        snap = lambda t: S.mul(S.floor(S.div(t, st) + S.div(1, 2)), st)
        is_step = lambda t: S.eq(S.mul(S.floor(S.div(t, st)), st), t)
        yield 'every event starts on a step before the end', lambda: S.forall(n, lambda i: S.And(is_step(nv[i].startTime), nv[i].startTime < D))
        yield 'no event lasts longer than a step', lambda: S.forall(n, lambda i: S.And(nv[i].duration <= st, nv[i].duration > 0))
        yield 'in time order', lambda: S.ascending(nv, lambda e: e.startTime)
        yield 'one event per tag and step', lambda: S.forall2(n, lambda i, j: S.Or(S.Not(S.eq(nv[i].tag, nv[j].tag)), nv[i].startTime < nv[j].startTime))
        # events that may not be repeated are the original objects, at the nearest step
        yield 'nothing invented', lambda: S.forall(n, lambda i: S.Or(S.member(nv[i], ev), S.And(S.fresh(nv[i], old), S.exists(S.len(ev), lambda j: S.And(rep(ev[j]), S.same_fields(nv[i], ev[j], ['pitch', 'velocity', 'tag']),
            snap(ev[j].startTime) <= nv[i].startTime, nv[i].startTime <= snap(end(ev[j])))))))
        yield 'the nearest step', lambda: S.forall(S.len(ev), lambda i: S.Implies(S.member(ev[i], nv), S.eq(new(ev[i]).startTime, snap(ev[i].startTime))))
        yield 'an event goes only past the end or for another of its tag on its step', lambda: S.forall(S.len(ev), lambda i: S.Or(rep(ev[i]), S.member(ev[i], nv), snap(ev[i].startTime) >= D,
            S.exists(n, lambda j: S.And(S.eq(nv[j].tag, ev[i].tag), S.eq(nv[j].startTime, snap(ev[i].startTime))))))
        yield 'a repeated event sounds on each of its steps', lambda: S.forall(S.len(ev), lambda i: S.Implies(rep(ev[i]), S.forall(S.max(1, S.floor(S.div(ev[i].duration, st))), lambda k: S.Or(snap(ev[i].startTime + k * st) >= D,
            S.exists(n, lambda j: S.And(S.eq(nv[j].tag, ev[i].tag), S.eq(nv[j].startTime, snap(ev[i].startTime + k * st))))))))
        yield 'the pattern itself is returned', lambda: S.same(result, a.self)

class ApplyLegato(Contract):
    target = 'gspattern:Pattern.applyLegato'
    props = ['C12']
    params = [('self', PAT), ('usePitchValues', 'bool')]
    variants = [('by tag', {'usePitchValues': ('const', False)}), ('by pitch', {'usePitchValues': ('const', True)})]
    bounded = 'the proof of the whole contract is not finished'
    any_result = True
    calls = [PatternWithPitch, PatternWithTags]
    readings = False        # the invariants below are complete
    time_limit = 500.0
    @staticmethod
    def requires(S, old, a):
        ev = old(a.self).events
        yield 'no event listed twice', lambda: distinct_events(S, old, a)
        yield 'no negative duration', lambda: S.forall(S.len(ev), lambda i: ev[i].duration >= 0)
    @staticmethod
    def modifies(S, old, a):
        yield ('Event', ['duration'], lambda x: S.member(x, old(a.self).events))
    @staticmethod
    def closed(S, old, new, a):
        """(label, property of the i-th event once its voice is closed)"""
        ev = old(a.self).events; n = S.len(ev); D = old(a.self).duration
        sv = lambda i, j: S.eq(ev[i].pitch, ev[j].pitch) if a.usePitchValues else S.eq(ev[i].tag, ev[j].tag)
        ne = lambda i: ev[i].startTime + new(ev[i]).duration
        later = lambda i, j: S.And(sv(i, j), ev[j].startTime > ev[i].startTime)
        tie = lambda i, j: S.And(sv(i, j), S.eq(ev[j].startTime, ev[i].startTime))
        return [
          ('no event gets shorter', lambda i: new(ev[i]).duration >= ev[i].duration),
          ('a longer event reaches no further than the next onset of its voice', lambda i: S.Or(S.eq(new(ev[i]).duration, ev[i].duration), S.forall(n, lambda j: S.Or(S.Not(later(i, j)), ne(i) <= ev[j].startTime)))),
          ('a longer event reaches an onset of its voice, or the end', lambda i: S.Or(S.eq(new(ev[i]).duration, ev[i].duration), S.eq(ne(i), D), S.exists(n, lambda j: S.And(later(i, j), S.eq(ne(i), ev[j].startTime))))),
          ('no gap is left before the next onset of the voice', lambda i: S.exists(n, lambda k: S.And(tie(i, k),
            S.Or(S.exists(n, lambda j: S.And(later(i, j), ne(k) >= ev[j].startTime)), S.And(S.Not(S.exists(n, lambda j: later(i, j))), ne(k) >= D))))),
          # among events of the voice that start together, the one listed last is the one extended
          ('a gap after an event without a twin is closed exactly', lambda i: S.forall(n, lambda j: S.Or(S.Not(later(i, j)), S.eq(ne(i), S.max(end(ev[i]), ev[j].startTime)),
            S.exists(n, lambda k: S.And(S.Not(S.eq(i, k)), tie(i, k))), S.exists(n, lambda q: S.And(later(i, q), ev[q].startTime < ev[j].startTime))))),
          ('the last event of a voice, without a twin, lasts to the end', lambda i: S.Or(S.exists(n, lambda k: S.And(S.Not(S.eq(i, k)), S.Or(tie(i, k), later(i, k)))), S.eq(ne(i), S.max(end(ev[i]), D))))]
    @staticmethod
    def ensures(S, old, new, a, result):
        n = S.len(old(a.self).events)
        for lab, f in ApplyLegato.closed(S, old, new, a):
            yield lab, lambda: S.forall(n, f)
    @staticmethod
    def invariants(S, L):
        old, new, a = L.old, L.new, L.a
        ev = old(a.self).events; m = S.len(ev)
        calls = [c for c in L.calls if c.con.target.startswith('gspattern:Pattern.getPatternWith')]
        if not L.outer:
            key = (lambda e: e.pitch) if a.usePitchValues else (lambda e: e.tag)
            done = lambda k: S.exists(L.i, lambda q: S.eq(L.elem(q), key(ev[k])))
            yield 'other voices not reached yet', lambda: S.forall(m, lambda k: S.Or(done(k), S.eq(new(ev[k]).duration, ev[k].duration)))
            for lab, f in ApplyLegato.closed(S, old, new, a):
                yield lab, lambda: S.forall(m, lambda k: S.Implies(done(k), f(k)))
        elif calls:
            c = calls[-1]; E = new(c.result).events; n = S.len(E); i = L.i
            mine = (lambda e: S.eq(e.pitch, c.a.pitch)) if a.usePitchValues else (lambda e: S.eq(e.tag, c.a.tagToLookFor))
            was = L.entryv
            yield 'other voices untouched', lambda: S.forall(m, lambda k: S.Or(mine(ev[k]), S.eq(new(ev[k]).duration, was(ev[k]).duration)))
            yield 'rest of the voice untouched', lambda: S.forall_range(i, n, lambda k: S.eq(new(E[k]).duration, old(E[k]).duration))
            yield 'gaps so far closed', lambda: S.forall(i, lambda k: S.eq(new(E[k]).duration, S.max(old(E[k]).duration, E[k + 1].startTime - E[k].startTime)))
            yield 'the last of a chord is closed', lambda: S.forall(i + 1, lambda k: S.exists_range(k, i + 1, lambda q: S.And(S.eq(E[q].startTime, E[k].startTime),
                S.Or(S.eq(q, i), S.And(E[q + 1].startTime > E[q].startTime, E[q].startTime + new(E[q]).duration >= E[q + 1].startTime)))))
    @staticmethod
    def of_voice(S, L):
        calls = [c for c in L.calls if c.con.target.startswith('gspattern:Pattern.getPatternWith')]
        if not calls: return None
        a = L.a; ev = L.old(a.self).events; c = calls[-1]; E = L.new(c.result).events
        mine = (lambda e: S.eq(e.pitch, c.a.pitch)) if a.usePitchValues else (lambda e: S.eq(e.tag, c.a.tagToLookFor))
        yields = lambda lab, bound, f: (lab, bound, lambda q: S.Or(q >= bound, f(q)))
        return ev, S.len(ev), E, S.len(E), mine, yields, S.position('events', ev), S.position('voice', E)
    @staticmethod
    def lemmas(S, L):
        """about the time-ordered list E of a voice and the pattern's list"""
        if not L.subs: return
        old, new = L.old, L.new
        ev, m, E, n, mine, yields, P, Q = ApplyLegato.of_voice(S, L)
        yield yields('each of the voice is an event', n, lambda q: S.And(P(E[q]) >= 0, P(E[q]) < m, S.same(ev[P(E[q])], E[q]), mine(E[q])))
        yield yields('none of the voice twice', n, lambda q: S.eq(Q(E[q]), q))
        yield yields('each event of the voice is there', m, lambda k: S.Or(S.Not(mine(ev[k])), S.And(Q(ev[k]) >= 0, Q(ev[k]) < n, S.same(E[Q(ev[k])], ev[k]))))
        yield yields('voice as at first', n, lambda q: S.eq(new(E[q]).duration, old(E[q]).duration))
    @staticmethod
    def step_lemmas(S, L):
        """a voice has been closed: what its time-ordered list E says about the pattern's list"""
        if L.subs: return
        old, new, a = L.old, L.new, L.a; D = old(a.self).duration
        ev, m, E, n, mine, yields, P, Q = ApplyLegato.of_voice(S, L)
        ne = lambda q: E[q].startTime + new(E[q]).duration
        yield yields('closed to the next', n, lambda q: S.Or(q + 1 >= n, S.eq(ne(q), S.max(end(old(E[q])), E[q + 1].startTime))))
        yield yields('closed to the end', n, lambda q: S.Or(q + 1 < n, S.eq(ne(q), S.max(end(old(E[q])), D))))
        yield yields('some of the chord is closed', n, lambda k: S.exists_range(k, n, lambda q: S.And(S.eq(E[q].startTime, E[k].startTime),
            S.Or(S.And(q + 1 < n, E[q + 1].startTime > E[q].startTime, ne(q) >= E[q + 1].startTime), S.And(S.eq(q, n - 1), ne(q) >= D)))))
        yield yields('none later than the last', m, lambda j: S.Or(S.Not(mine(ev[j])), ev[j].startTime <= E[n - 1].startTime))
        yield yields('closed before a later one of the pattern, or at its end', n, lambda k: S.exists_range(k, n, lambda q: S.And(S.eq(ev[P(E[q])].startTime, E[k].startTime),
            S.Or(S.And(q + 1 < n, ev[P(E[q + 1])].startTime > E[k].startTime, ev[P(E[q])].startTime + new(ev[P(E[q])]).duration >= ev[P(E[q + 1])].startTime),
                 S.And(S.eq(E[k].startTime, E[n - 1].startTime), ev[P(E[q])].startTime + new(ev[P(E[q])]).duration >= D)))))
        for lab, f in ApplyLegato.closed(S, old, new, a):
            yield yields('in the voice: ' + lab, n, lambda q, f=f: f(P(E[q])))
