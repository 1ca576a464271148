"""Contracts: durations, stretching, transposition, quantising, slicing, removal (C04-C07, C11)."""
from __future__ import division
from engine.api import *
from contracts.pattern_a import META

def end(e): return e.startTime + e.duration

def same_events(S, before, after):
    """after holds exactly the objects of before"""
    return S.And(S.eq(S.len(before), S.len(after)),
                 S.forall(S.len(before), lambda i: S.member(before[i], after)),
                 S.forall(S.len(after), lambda i: S.member(after[i], before)))

def distinct_events(S, old, a):
    return S.distinct(old(a.self).events)

class LastNoteOff(Contract):
    target = 'gspattern:Pattern.lastNoteOff'
    props = ['C04']
    params = [('self', PAT)]
    any_result = True
    @staticmethod
    def modifies(S, old, a):
        yield (old(a.self).events,)
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events
        yield 'nothing for an empty pattern', lambda: S.Iff(S.is_none(result), S.eq(S.len(ev), 0))
        yield 'not before the end of any event', lambda: S.Or(S.is_none(result), lambda: S.forall(S.len(ev), lambda i: end(ev[i]) <= result))
        yield 'the end of some event', lambda: S.Or(S.is_none(result), lambda: S.exists(S.len(ev), lambda i: S.eq(end(ev[i]), result)))
        yield 'the same events', lambda: same_events(S, ev, new(ev))
        yield 'the same list', lambda: S.same(new(a.self).events, ev)

class DurationToLastEvent(Contract):
    target = 'gspattern:Pattern.durationToLastEvent'
    props = ['C04']
    params = [('self', PAT), ('onlyIfBigger', 'bool')]
    any_result = True
    @staticmethod
    def modifies(S, old, a):
        yield (old(a.self).events,)
        yield (a.self, ['duration'])
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; d0 = old(a.self).duration; d1 = new(a.self).duration
        yield 'unchanged when there is no event', lambda: S.Implies(S.eq(S.len(ev), 0), S.eq(d1, d0))
        yield 'covers every event', lambda: S.forall(S.len(ev), lambda i: end(ev[i]) <= d1)
        yield 'the old duration or the end of an event', lambda: S.Or(S.eq(d1, d0), S.exists(S.len(ev), lambda i: S.eq(end(ev[i]), d1)))
        yield 'never shorter unless asked for', lambda: S.Implies(a.onlyIfBigger, d1 >= d0)
        yield 'exactly the latest end when asked for', lambda: S.Implies(S.And(S.Not(a.onlyIfBigger), S.len(ev) > 0), S.exists(S.len(ev), lambda i: S.eq(end(ev[i]), d1)))
        yield 'the same events', lambda: same_events(S, ev, new(ev))

class AddEvent(Contract):
    target = 'gspattern:Pattern.addEvent'
    props = ['C04']
    params = [('self', PAT), ('myEvent', EV)]
    any_result = True
    @staticmethod
    def modifies(S, old, a):
        yield (old(a.self).events,)
        yield (a.self, ['duration', 'events'])
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; e = old(a.myEvent); nv = new(a.self).events
        d0 = old(a.self).duration; d1 = new(a.self).duration
        yield 'one event more', lambda: S.eq(S.len(nv), S.len(ev) + 1)
        yield 'the new event is there', lambda: S.member(e, nv)
        yield 'no event is lost', lambda: S.forall(S.len(ev), lambda i: S.member(ev[i], nv))
        yield 'nothing else is added', lambda: S.forall(S.len(nv), lambda i: S.Or(S.same(nv[i], e), S.member(nv[i], ev)))
        yield 'never shorter', lambda: d1 >= d0
        yield 'covers every event', lambda: S.And(end(e) <= d1, S.forall(S.len(ev), lambda i: end(ev[i]) <= d1))
        yield 'the old duration or the end of an event', lambda: S.Or(S.eq(d1, d0), S.eq(d1, end(e)), S.exists(S.len(ev), lambda i: S.eq(end(ev[i]), d1)))

class DurationToBar(Contract):
    target = 'gspattern:Pattern.durationToBar'
    props = ['C04']
    params = [('self', PAT)]
    any_result = True
    @staticmethod
    def modifies(S, old, a):
        yield (a.self, ['duration'])
    @staticmethod
    def requires(S, old, a):
        ts = old(a.self).timeSignature
        yield 'a time signature', lambda: S.And(S.is_tuple(ts), S.eq(S.tag_len(ts), 2), S.is_intval(S.tag_at(ts, 0)), S.int_of(S.tag_at(ts, 0)) > 0)
    @staticmethod
    def ensures(S, old, new, a, result):
        b = S.int_of(S.tag_at(old(a.self).timeSignature, 0)); d0 = old(a.self).duration; d1 = new(a.self).duration
        yield 'the smallest number of bars not shorter', lambda: S.eq(d1, S.ceil(S.div(d0, b)) * b)
        yield 'not shorter', lambda: d1 >= d0
        yield 'less than a bar longer', lambda: d1 < d0 + b

class TimeStretch(Contract):
    target = 'gspattern:Pattern.timeStretch'
    props = ['C05']
    params = [('self', PAT), ('ratio', 'num')]
    any_result = True
    @staticmethod
    def requires(S, old, a):
        yield 'no event listed twice', lambda: distinct_events(S, old, a)
    @staticmethod
    def modifies(S, old, a):
        yield (a.self, ['duration'])
        yield ('Event', ['startTime', 'duration'], lambda x: S.member(x, old(a.self).events))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events
        yield 'every start and duration is multiplied', lambda: S.forall(S.len(ev), lambda i: S.And(
            S.eq(new(ev[i]).startTime, ev[i].startTime * a.ratio), S.eq(new(ev[i]).duration, ev[i].duration * a.ratio)))
        yield "the pattern's duration is multiplied", lambda: S.eq(new(a.self).duration, old(a.self).duration * a.ratio)

NAMES = ["C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B"]

class Pitch2Name(Contract):
    target = 'gsutil:pitch2name'
    props = ['C05']
    params = [('pitch', 'int'), ('pitchNames', ('list', 'V'))]
    variants = [('any names', {}), ('default names', {'pitchNames': ('clist', [('const', n) for n in NAMES])})]
    result = 'V'
    @staticmethod
    def gen(G, variant):
        d = {'pitch': G.r.randint(0, 140)}
        if variant == 'any names': d['pitchNames'] = NAMES[:G.r.randint(1, 12)]
        return d
    @staticmethod
    def requires(S, old, a):
        names = old(a.pitchNames)
        yield 'a pitch', lambda: a.pitch >= 0
        yield 'some names', lambda: S.len(names) > 0
        yield 'names are strings', lambda: S.forall(S.len(names), lambda i: S.is_str(names[i]))
    @staticmethod
    def ensures(S, old, new, a, result):
        names = old(a.pitchNames); n = S.len(names)
        yield 'name in the octave, then octave number', lambda: S.eq(result, S.cat(names[S.mod(a.pitch, n)], S.str_of(S.idiv(a.pitch, n) - 1)))

class Transpose(Contract):
    target = 'gspattern:Pattern.transpose'
    props = ['C05']
    params = [('self', PAT), ('interval', 'int')]
    any_result = True
    @staticmethod
    def gen(G, variant):
        return {'self': G.pattern(), 'interval': G.r.randint(-24, 24)}
    @staticmethod
    def requires(S, old, a):
        ev = old(a.self).events
        yield 'no event listed twice', lambda: distinct_events(S, old, a)
        yield 'pitches stay at or above 0', lambda: S.forall(S.len(ev), lambda i: ev[i].pitch + a.interval >= 0)
    @staticmethod
    def modifies(S, old, a):
        yield ('Event', ['pitch', 'tag'], lambda x: S.member(x, old(a.self).events))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events
        p = lambda i: ev[i].pitch + a.interval
        yield 'the interval is added to every pitch', lambda: S.forall(S.len(ev), lambda i: S.eq(new(ev[i]).pitch, p(i)))
        yield 'every tag names the new pitch', lambda: S.forall(S.len(ev), lambda i: S.eq(new(ev[i]).tag, S.tuple1(S.cat(S.table(NAMES, S.mod(p(i), 12)), S.str_of(S.idiv(p(i), 12) - 1)))))

class Quantize(Contract):
    target = 'gspattern:Pattern.quantize'
    props = ['C06']
    params = [('self', PAT), ('stepSize', 'num'), ('quantizeStartTime', 'bool'), ('quantizeDuration', 'bool')]
    variants = [('starts', {'quantizeStartTime': ('const', True), 'quantizeDuration': ('const', False)}), ('durations', {'quantizeStartTime': ('const', False), 'quantizeDuration': ('const', True)}),
                ('both', {'quantizeStartTime': ('const', True), 'quantizeDuration': ('const', True)}), ('neither', {'quantizeStartTime': ('const', False), 'quantizeDuration': ('const', False)})]
    any_result = True
    @staticmethod
    def gen(G, variant):
        return {'self': G.pattern(), 'stepSize': G.pick([1, 0.5, 0.25, 2, 4, 0.125])}
    @staticmethod
    def requires(S, old, a):
        yield 'a positive step', lambda: a.stepSize > 0
        yield 'no event listed twice', lambda: distinct_events(S, old, a)
    @staticmethod
    def modifies(S, old, a):
        yield ('Event', ['startTime', 'duration'], lambda x: S.member(x, old(a.self).events))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; st = a.stepSize
        half = S.div(1, 2)
        def start(e): return S.mul(S.ceil(S.div(e.startTime, st) - half), st)
        def dur(e): return S.Ite(e.duration < st * half, st, S.mul(S.floor(S.div(e.duration, st) + half), st))
        yield 'starts go to the nearest grid position', lambda: S.Implies(a.quantizeStartTime, lambda: S.forall(S.len(ev), lambda i: S.eq(new(ev[i]).startTime, start(ev[i]))))
        yield 'durations go to the nearest positive multiple', lambda: S.Implies(a.quantizeDuration, lambda: S.forall(S.len(ev), lambda i: S.eq(new(ev[i]).duration, dur(ev[i]))))
        yield 'starts stay if not asked for', lambda: S.Or(a.quantizeStartTime, S.forall(S.len(ev), lambda i: S.eq(new(ev[i]).startTime, ev[i].startTime)))
        yield 'durations stay if not asked for', lambda: S.Or(a.quantizeDuration, S.forall(S.len(ev), lambda i: S.eq(new(ev[i]).duration, ev[i].duration)))

class TimeSlice(Contract):
    target = 'gspattern:Pattern.patternFromTimeSlice'
    props = ['C07']
    params = [('self', PAT), ('startTime', 'num'), ('length', 'num'), ('trimEnd', 'bool')]
    result = PAT
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; r = new(result)
        P = lambda e: S.And(a.startTime <= old(e).startTime, old(e).startTime < a.startTime + a.length)
        yield 'start and length of the slice', lambda: S.And(S.eq(r.startTime, a.startTime), S.eq(r.duration, a.length))
        yield 'one copy of each event starting inside, in order, from the slice start', lambda: S.filtered(r.events, ev, P, rel=lambda x, s: S.And(
            S.fresh(x, old), S.same_fields(new(x), old(s), ['pitch', 'velocity', 'tag']), S.eq(new(x).startTime, old(s).startTime - a.startTime),
            S.eq(new(x).duration, S.Ite(S.And(a.trimEnd, old(s).startTime - a.startTime + old(s).duration > a.length), a.length - (old(s).startTime - a.startTime), old(s).duration))))
        yield 'other metadata kept', lambda: S.same_fields(r, old(a.self), ['bpm', 'timeSignature', 'key', 'name', 'originFilePath', 'resolution'])
        yield 'a new pattern with new events', lambda: S.And(S.fresh(result, old), S.fresh(r.events, old), S.forall(S.len(r.events), lambda i: S.fresh(r.events[i], old)), S.distinct(r.events))
    @staticmethod
    def invariants(S, L):
        # copies first, trimmed in a second pass: what is not trimmed yet
        old, new, a = L.old, L.new, L.a
        if L.seq is None: return
        ev = old(a.self).events
        P = lambda e: S.And(a.startTime <= old(e).startTime, old(e).startTime < a.startTime + a.length)
        rel = lambda x, s: S.And(S.fresh(x, old), S.same_fields(new(x), old(s), ['pitch', 'velocity', 'tag']), S.eq(new(x).startTime, old(s).startTime - a.startTime))
        cut = lambda s: S.Ite(old(s).startTime - a.startTime + old(s).duration > a.length, a.length - (old(s).startTime - a.startTime), old(s).duration)
        at = lambda k: S.count_at(lambda j: P(ev[j]), k)
        for n, l in [(n, x) for n, x in L.lists if x.kind == EV] + [(n + '.events', new(x).events) for n, x in L.objs if x._ref.cls == PAT[1]]:
            yield '%s uncut so far' % n, lambda: S.filtered(l, ev, P, rel=lambda x, s: S.And(rel(x, s), S.eq(new(x).duration, old(s).duration)), n=L.i)
            yield '%s copies' % n, lambda: S.filtered(l, ev, P, rel=rel)
            yield '%s cut so far' % n, lambda: S.forall(S.len(ev), lambda k: S.Implies(P(ev[k]), lambda: S.eq(new(l[at(k)]).duration, S.Ite(at(k) < L.i, cut(ev[k]), old(ev[k]).duration))))

class RemoveEvent(Contract):
    target = 'gspattern:Pattern.removeEvent'
    props = ['C11']
    params = [('self', PAT), ('event', EV)]
    any_result = True
    @staticmethod
    def gen(G, variant):
        p = G.pattern()
        d = {'self': p}
        if p.events and G.chance(0.8): d['event'] = G.pick(p.events)
        return d
    @staticmethod
    def modifies(S, old, a):
        yield (a.self, ['events'])
        yield (old(a.self).events,)
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; x = old(a.event)
        yield 'exactly the events not equal to it remain, in order', lambda: S.filtered(new(a.self).events, ev, lambda e: S.Not(S.same_fields(old(e), x, S.EVF)))

class RemoveByTags(Contract):
    target = 'gspattern:Pattern.removeByTags'
    props = ['C11']
    params = [('self', PAT), ('tags', ('list', 'V'))]
    any_result = True
    @staticmethod
    def requires(S, old, a):
        ev = old(a.self).events; ts = old(a.tags)
        yield 'tags are strings or tuples', lambda: S.forall(S.len(ev), lambda i: S.Or(S.is_tuple(ev[i].tag), S.And(S.is_str(ev[i].tag), S.forall(S.len(ts), lambda j: S.is_str(ts[j])))))
    @staticmethod
    def modifies(S, old, a):
        yield (a.self, ['events'])
        yield (old(a.self).events,)
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; ts = old(a.tags)
        P = lambda e: S.Not(S.exists(S.len(ts), lambda j: S.Or(S.eq(ts[j], old(e).tag), S.tag_in(ts[j], old(e).tag))))
        yield 'exactly the events with none of the tags remain, in order', lambda: S.filtered(new(a.self).events, ev, P)
    @staticmethod
    def invariants(S, L):
        if L.i is None or L.elem is None: return
        for n, o in L.objs:
            if S.is_event(o):
                yield 'none so far is a tag of %s' % n, lambda: S.forall(L.i, lambda j: S.Not(S.Or(S.eq(L.elem(j), L.old(o).tag), S.tag_in(L.elem(j), L.old(o).tag))))
