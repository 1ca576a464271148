"""Contracts: events and queries on patterns (C01, C02, C03)."""
from __future__ import division
from engine.api import *

def wf(S, old, p):
    """the tags of a pattern's events are strings or tuples"""
    ev = old(p).events
    return S.forall(S.len(ev), lambda i: S.Or(S.is_str(ev[i].tag), S.is_tuple(ev[i].tag)))

class EventEq(Contract):
    target = 'gspattern:Event.__eq__'
    props = ['C01']
    params = [('self', EV), ('other', EV)]
    result = 'bool'
    use_at_calls = False
    @staticmethod
    def ensures(S, old, new, a, result):
        x, y = old(a.self), old(a.other)
        yield 'equal iff all five fields agree', lambda: S.Iff(result, S.And(*[S.eq(getattr(x, f), getattr(y, f)) for f in S.EVF]))

class EventNe(Contract):
    target = 'gspattern:Event.__ne__'
    props = ['C01']
    params = [('self', EV), ('other', EV)]
    result = 'bool'
    use_at_calls = False
    @staticmethod
    def ensures(S, old, new, a, result):
        x, y = old(a.self), old(a.other)
        yield 'negation of equality', lambda: S.Iff(result, S.Not(S.And(*[S.eq(getattr(x, f), getattr(y, f)) for f in S.EVF])))

class HasOneOfTags(Contract):
    target = 'gspattern:Event.hasOneOfTags'
    props = ['C01']
    params = [('self', EV), ('tags', ('list', 'V'))]
    result = 'bool'
    @staticmethod
    def requires(S, old, a):
        t = old(a.self).tag; ts = old(a.tags)
        yield 'tags are strings or tuples', lambda: S.Or(S.is_tuple(t), S.And(S.is_str(t), S.forall(S.len(ts), lambda i: S.is_str(ts[i]))))
    @staticmethod
    def ensures(S, old, new, a, result):
        t = old(a.self).tag; ts = old(a.tags)
        yield 'true iff some tag equals or is in the tag', lambda: S.Iff(result, S.exists(S.len(ts), lambda i: S.Or(S.eq(ts[i], t), S.tag_in(ts[i], t))))
        yield 'none so far', lambda: S.Or(result, S.forall(S.len(ts), lambda i: S.Not(S.Or(S.eq(ts[i], t), S.tag_in(ts[i], t)))))


class EventEqOther(Contract):
    """An event against something that is not an event."""
    target = 'gspattern:Event.__eq__'
    props = ['C01']
    params = [('self', EV), ('other', 'any')]
    variants = [('number', {'other': 'num'}), ('tag', {'other': 'V'}), ('pattern', {'other': PAT}), ('nothing', {'other': ('const', None)}), ('list', {'other': ('list', 'V')})]
    any_result = True
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'NotImplemented, so never equal', lambda: S.not_implemented(result)

class EventNeOther(EventEqOther):
    target = 'gspattern:Event.__ne__'

class IsTag(Contract):
    target = 'gspattern:Event.isTag'
    props = ['C01']
    params = [('self', EV), ('tag', 'V')]
    result = 'bool'
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'true iff the tags are equal', lambda: S.Iff(result, S.eq(old(a.self).tag, a.tag))

class AllTagsAreEqualWith(Contract):
    target = 'gspattern:Event.allTagsAreEqualWith'
    props = ['C01']
    params = [('self', EV), ('myEvent', EV)]
    result = 'bool'
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'true iff the tags are equal', lambda: S.Iff(result, S.eq(old(a.self).tag, old(a.myEvent).tag))

class HasCommonTagWith(Contract):
    target = 'gspattern:Event.hasCommonTagWith'
    props = ['C01']
    params = [('self', EV), ('event', EV)]
    result = 'bool'
    @staticmethod
    def requires(S, old, a):
        yield 'tuple tags', lambda: S.And(S.is_tuple(old(a.self).tag), S.is_tuple(old(a.event).tag))
    @staticmethod
    def ensures(S, old, new, a, result):
        t = old(a.self).tag; u = old(a.event).tag
        yield 'true iff some member of the other tag equals or is in the tag', lambda: S.Iff(result, S.exists(S.tag_len(u), lambda i: S.Or(S.eq(S.tag_at(u, i), t), S.tag_in(S.tag_at(u, i), t))))
        yield 'none so far', lambda: S.Or(result, S.forall(S.tag_len(u), lambda i: S.Not(S.Or(S.eq(S.tag_at(u, i), t), S.tag_in(S.tag_at(u, i), t)))))

class EventCopy(Contract):
    target = 'gspattern:Event.copy'
    props = ['C01']
    params = [('self', EV)]
    result = EV
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'a distinct event', lambda: S.fresh(result, old)
        yield 'equal to the original', lambda: S.same_fields(new(result), old(a.self), S.EVF)

class EndTime(Contract):
    target = 'gspattern:Event.endTime'
    props = ['C02', 'C04']
    params = [('self', EV)]
    result = 'num'
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'start plus duration', lambda: S.eq(result, old(a.self).startTime + old(a.self).duration)

class ContainsTime(Contract):
    target = 'gspattern:Event.containsTime'
    props = ['C02']
    params = [('self', EV), ('time', 'num')]
    result = 'bool'
    @staticmethod
    def ensures(S, old, new, a, result):
        e = old(a.self)
        yield 'active from the start to before the end', lambda: S.Iff(result, S.And(e.startTime <= a.time, a.time < e.startTime + e.duration))

class ActiveEvents(Contract):
    target = 'gspattern:Pattern.activeEventsAtTime'
    props = ['C02']
    params = [('self', PAT), ('time', 'num')]
    result = ('list', EV)
    @staticmethod
    def ensures(S, old, new, a, result):
        act = lambda e: S.And(old(e).startTime <= a.time, a.time < old(e).startTime + old(e).duration)
        ev = old(a.self).events
        yield 'exactly the active events in order', lambda: S.filtered(result, ev, act)
        yield 'a new list', lambda: S.fresh(result, old)

class StartingEvents(Contract):
    target = 'gspattern:Pattern.getStartingEventsAtTime'
    props = ['C02']
    params = [('self', PAT), ('time', 'num'), ('tolerance', 'num')]
    variants = [('any tolerance', {}), ('default', {'tolerance': ('const', 0)})]
    result = ('list', EV)
    @staticmethod
    def gen(G, variant):
        d = {'self': G.pattern(), 'time': G.num()}
        if variant != 'default': d['tolerance'] = G.pick([0, 0.25, 0.5, 1, -0.25, 2])
        return d
    @staticmethod
    def ensures(S, old, new, a, result):
        st = lambda e: S.And(old(e).startTime <= a.time, a.time <= old(e).startTime + a.tolerance)
        ev = old(a.self).events
        yield 'exactly the events starting then, in order', lambda: S.filtered(result, ev, st)
        yield 'a new list', lambda: S.fresh(result, old)

# ------------------------------------------------------------------ selection (C03)
META = ('duration', 'bpm', 'timeSignature', 'key', 'name', 'originFilePath', 'startTime', 'resolution')

def selected(S, old, new, a, result, pred, makeCopy):
    ev = old(a.self).events
    P = lambda e: pred(old(e))
    yield "without copying: the source's own matching events, in order", lambda: S.Or(makeCopy, lambda: S.filtered(result.events, ev, P))
    yield 'with copying: equal copies of the matching events, in order', lambda: S.Implies(makeCopy, lambda: S.filtered(result.events, ev, P, rel=lambda r, s: S.And(S.fresh(r, old), S.same_fields(new(r), old(s), S.EVF))))
    yield 'with copying: all new events', lambda: S.Implies(makeCopy, lambda: S.forall(S.len(result.events), lambda i: S.fresh(result.events[i], old)))
    yield 'with copying: copies are distinct', lambda: S.Implies(makeCopy, lambda: S.distinct(result.events))
    yield 'metadata kept', lambda: S.same_fields(new(result), old(a.self), META)
    yield 'a new pattern', lambda: S.And(S.fresh(result, old), S.fresh(result.events, old))

def tag_matcher(S, q, variant):
    if variant == 'exact': return lambda e: S.eq(e.tag, q)
    if variant == 'inclusive': return lambda e: S.Or(S.eq(e.tag, q), S.And(S.tag_len(e.tag) > 0, S.tag_in(q, e.tag)))
    if variant == 'list': return lambda e: S.And(S.tag_len(e.tag) > 0, S.in_list(e.tag, q))
    return lambda e: S.pred(q, e.tag)

class PatternWithTags(Contract):
    target = 'gspattern:Pattern.getPatternWithTags'
    props = ['C03']
    params = [('self', PAT), ('tagToLookFor', 'V'), ('exactSearch', 'bool'), ('makeCopy', 'bool')]
    variants = [('exact', {'exactSearch': ('const', True)}), ('inclusive', {'exactSearch': ('const', False)}),
                ('list', {'tagToLookFor': ('list', 'V')}), ('pred', {'tagToLookFor': ('pred',)})]
    result = PAT
    excluded = False
    @classmethod
    def variant_of(cls, S, a):
        if S.is_pred(a.tagToLookFor): return 'pred'
        if S.is_seq(a.tagToLookFor): return 'list'
        return 'exact' if a.exactSearch is True else 'inclusive'
    @classmethod
    def requires(cls, S, old, a):
        v = cls.variant_of(S, a); ev = old(a.self).events
        if v in ('inclusive', 'list'):
            yield 'tags are strings or tuples', lambda: S.forall(S.len(ev), lambda i: S.Or(S.is_tuple(ev[i].tag), S.And(S.is_str(ev[i].tag), True if v == 'list' else S.is_str(a.tagToLookFor))))
    @classmethod
    def ensures(cls, S, old, new, a, result):
        q = old(a.tagToLookFor) if S.is_seq(a.tagToLookFor) else a.tagToLookFor
        m = tag_matcher(S, q, cls.variant_of(S, a))
        if cls.excluded:
            for x in selected(S, old, new, a, result, lambda e: S.Not(m(e)), a.makeCopy): yield x
        else:
            for x in selected(S, old, new, a, result, m, a.makeCopy): yield x

class PatternWithoutTags(PatternWithTags):
    target = 'gspattern:Pattern.getPatternWithoutTags'
    excluded = True

class PatternWithPitch(Contract):
    target = 'gspattern:Pattern.getPatternWithPitch'
    props = ['C03']
    params = [('self', PAT), ('pitch', 'int'), ('makeCopy', 'bool')]
    result = PAT
    @staticmethod
    def gen(G, variant):
        return {'self': G.pattern(), 'pitch': G.pitch()}
    @staticmethod
    def ensures(S, old, new, a, result):
        for x in selected(S, old, new, a, result, lambda e: S.eq(e.pitch, a.pitch), a.makeCopy): yield x

class CopyWithoutEvents(Contract):
    target = 'gspattern:Pattern.copyWithoutEvents'
    props = ['C03']
    params = [('self', PAT)]
    result = PAT
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'a new pattern', lambda: S.And(S.fresh(result, old), S.fresh(new(result).events, old))
        yield 'no events', lambda: S.eq(S.len(new(result).events), 0)
        yield 'metadata kept', lambda: S.same_fields(new(result), old(a.self), META)

class AllTags(Contract):
    target = 'gspattern:Pattern.getAllTags'
    props = ['C03']
    params = [('self', PAT)]
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events
        yield 'holds the tag of every event', lambda: S.forall(S.len(ev), lambda i: S.in_set(ev[i].tag, result))
        yield 'holds nothing else', lambda: S.forall_set(result, lambda x: S.exists(S.len(ev), lambda i: S.eq(ev[i].tag, x)))
    @staticmethod
    def invariants(S, L):
        ev = L.old(L.a.self).events
        for n, l in L.lists:
            if l.kind == 'V' and L.i is not None:
                yield '%s lists the tags so far' % n, lambda: S.mapped(L.new(l), ev, lambda r, s: S.eq(r, s.tag), L.i)

class AllPitches(Contract):
    target = 'gspattern:Pattern.getAllPitches'
    props = ['C03']
    params = [('self', PAT)]
    result = ('list', 'int')
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events
        yield 'holds the pitch of every event', lambda: S.forall(S.len(ev), lambda i: S.exists(S.len(result), lambda j: S.eq(result[j], ev[i].pitch)))
        yield 'holds nothing else', lambda: S.forall(S.len(result), lambda j: S.exists(S.len(ev), lambda i: S.eq(result[j], ev[i].pitch)))
    @staticmethod
    def invariants(S, L):
        ev = L.old(L.a.self).events
        for n, l in L.lists:
            if l.kind == 'int' and L.i is not None:
                yield '%s lists the pitches so far' % n, lambda: S.mapped(L.new(l), ev, lambda r, s: S.eq(r, s.pitch), L.i)

class IdenticalEvents(Contract):
    target = 'gspattern:Pattern.getIdenticalEvents'
    props = ['C03']
    params = [('self', PAT), ('event', EV), ('allTagsMustBeEquals', 'bool')]
    variants = [('all', {'allTagsMustBeEquals': ('const', True)}), ('common', {'allTagsMustBeEquals': ('const', False)})]
    result = ('list', EV)
    @staticmethod
    def requires(S, old, a):
        ev = old(a.self).events
        if a.allTagsMustBeEquals is not True:
            yield 'tuple tags', lambda: S.And(S.is_tuple(old(a.event).tag), S.forall(S.len(ev), lambda i: S.is_tuple(ev[i].tag)))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; t = old(a.event).tag
        if a.allTagsMustBeEquals is True: P = lambda e: S.eq(old(e).tag, t)
        else: P = lambda e: S.exists(S.tag_len(old(e).tag), lambda k: S.Or(S.eq(S.tag_at(old(e).tag, k), t), S.tag_in(S.tag_at(old(e).tag, k), t)))
        yield 'exactly the identical events, in order', lambda: S.filtered(result, ev, P)
        yield 'a new list', lambda: S.fresh(result, old)
    @staticmethod
    def invariants(S, L):
        if L.i is None or L.a.allTagsMustBeEquals is True: return
        t = L.old(L.a.event).tag
        yield 'none so far is a common tag', lambda: S.forall(L.i, lambda j: S.Not(S.Or(S.eq(L.elem(j), t), S.tag_in(L.elem(j), t))))
