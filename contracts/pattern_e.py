"""Contracts with bounded evaluation only: filling tag by tag, splitting, the JSON form (C08, C09, C13)."""
from __future__ import division
from engine.api import *
from contracts.pattern_a import META
from contracts.pattern_b import end, same_events, distinct_events
from contracts.pattern_c import FillSilences

class FillPerTag(Contract):
    target = 'gspattern:Pattern.fillWithSilences'
    props = ['C09']
    params = [('self', PAT), ('maxSilenceTime', 'num'), ('perTag', ('const', True)), ('silenceTag', 'V'), ('silencePitch', 'int')]
    any_result = True
    bounded = 'iterates over a set of tags and concatenates the lists made for them'
    gen = staticmethod(FillSilences.gen)
    requires = staticmethod(FillSilences.requires)
    modifies = staticmethod(FillSilences.modifies)
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; nv = new(a.self).events; n = len(nv); D = old(a.self).duration
        is_sil = lambda x: FillSilences.is_silence(S, new, a, x)
        fresh = [i for i in range(n) if S.fresh(nv[i], old)]
        yield 'no event is lost or doubled', S.And(all(S.member(ev[i], nv) for i in range(len(ev))), S.distinct(nv))
        yield 'the rest are silences', all(S.member(nv[i], ev) or (i in fresh and is_sil(nv[i])) for i in range(n))
        tags = set(e.tag for e in ev)
        cover = lambda e, t: e.startTime <= t and t < end(e)
        times = sorted(set([0] + [x for e in ev for x in (e.startTime, end(e))]))
        # each tag has silences of its own filling exactly its gaps
        gaps = []
        for T in tags:
            last = 0
            own = sorted([(e.startTime, end(e)) for e in ev if e.tag == T])
            for s, f in own + [(D, D)]:
                if s > last: gaps.append((last, s))
                last = max(last, f)
        want = []
        for s, f in gaps:
            while a.maxSilenceTime > 0 and f - s > a.maxSilenceTime:
                want.append((s, s + a.maxSilenceTime)); s = s + a.maxSilenceTime
            want.append((s, f))
        got = sorted((nv[i].startTime, end(nv[i])) for i in fresh)
        yield 'the gaps of each tag are filled, and nothing else', len(got) == len(want) and all(abs(p[0] - q[0]) < 1e-9 and abs(p[1] - q[1]) < 1e-9 for p, q in zip(got, sorted(want)))
        yield 'events keep their fields', all(S.same_fields(new(e), e, S.EVF) for e in ev)

class FilledCopy(Contract):
    target = 'gspattern:Pattern.getFilledWithSilences'
    props = ['C09']
    params = [('self', PAT), ('maxSilenceTime', 'num'), ('perTag', 'bool'), ('silenceTag', 'V')]
    result = PAT
    bounded = 'copy.deepcopy of a whole pattern'
    @staticmethod
    def gen(G, variant):
        return {'self': G.pattern(), 'maxSilenceTime': G.pick([0, 0, 1, 0.5, 3, -1]), 'silenceTag': G.pick(['silence', 'sil', '', 'a'])}
    requires = staticmethod(FillSilences.requires)
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; nv = result.events; n = len(nv); D = old(a.self).duration
        yield 'a new pattern with new events', S.fresh(result, old) and all(S.fresh(e, old) for e in nv)
        yield 'metadata kept', S.same_fields(result, old(a.self), META)
        key = lambda e: (e.startTime, e.duration, e.pitch, e.velocity, e.tag)
        rest = [key(e) for e in nv]
        ok = True
        for e in ev:
            if key(e) in rest: rest.remove(key(e))
            else: ok = False
        yield 'every event is there', ok
        yield 'the rest are silences', all(k[4] == a.silenceTag and k[3] == 0 and k[2] == 0 and k[1] > 0 and (a.maxSilenceTime <= 0 or k[1] <= a.maxSilenceTime) for k in rest)
        times = sorted(set([0] + [x for e in nv for x in (e.startTime, end(e))]))
        if not a.perTag:
            yield 'no gap', all(t < 0 or t >= D or any(e.startTime <= t and t < end(e) for e in nv) for t in times)
            yield 'no silence overlaps anything', all(end(e) <= k[0] or e.startTime >= k[0] + k[1] or key(e) == k for k in rest for e in nv if e.duration > 0)

class Split(Contract):
    target = 'gspattern:Pattern.splitInEqualLengthPatterns'
    props = ['C08']
    params = [('self', PAT), ('desiredLength', 'num'), ('viewpointName', ('const', None)), ('makeCopy', 'bool'), ('supressEmptyPattern', 'bool')]
    variants = [('copies', {'makeCopy': ('const', True)}), ('in place', {'makeCopy': ('const', False)})]
    any_result = True
    bounded = 'recursive, over a dictionary keyed by cut number'
    weight = 3
    @staticmethod
    def gen(G, variant):
        L = G.pick([1, 2, 4, 0.5, 3, 1.5, 0.25])
        p = G.pattern()
        if G.chance(0.7): p.duration = max([p.duration] + [e.startTime + e.duration for e in p.events])
        return {'self': p, 'desiredLength': L}
    @staticmethod
    def requires(S, old, a):
        ev = old(a.self).events
        yield 'no negative time, sounding events', lambda: S.forall(S.len(ev), lambda i: S.And(ev[i].startTime >= 0, ev[i].duration > 0))
        yield 'no event listed twice', lambda: distinct_events(S, old, a)
        yield 'the pattern lasts until its last event ends', lambda: S.forall(S.len(ev), lambda i: end(ev[i]) <= old(a.self).duration)
    @staticmethod
    def modifies(S, old, a):
        if not a.makeCopy: yield ('Event', ['startTime', 'duration'], lambda x: S.member(x, old(a.self).events))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = old(a.self).events; L = a.desiredLength; D = old(a.self).duration
        res = list(new(result))
        full = [p for p in res if p is not None]
        yield 'one length for all cuts', all(p.duration == L for p in full)
        ks = [S.floor(p.startTime / L) for p in full]
        yield 'cuts begin at multiples of the length', all(k * L == p.startTime for k, p in zip(ks, full))
        yield 'in increasing order', all(x < y for x, y in zip(ks, ks[1:]))
        want = {}
        for e in ev:
            s = e.startTime
            while True:
                k = S.floor(s / L)
                f = min(end(e), (k + 1) * L)
                if f > s: want.setdefault(k, []).append((s - k * L, f - s, e.pitch, e.velocity, repr(e.tag)))
                if f >= end(e): break
                s = f
        got = dict((k, [(e.startTime, e.duration, e.pitch, e.velocity, repr(e.tag)) for e in p.events]) for k, p in zip(ks, full))
        ok = True
        for k in set(want) | set(got):
            if sorted(want.get(k, [])) != sorted(got.get(k, [])): ok = False
        yield 'every cut holds exactly the pieces of the events inside it', ok
        if a.supressEmptyPattern: yield 'no empty cut', all(p is not None and len(p.events) for p in res)
        else:
            # placeholders stand for the cuts in between
            if full:
                top = max(ks)
                yield 'one entry for every cut', len(res) > top and all((res[k] is None) if k not in want else (res[k] is not None and S.floor(res[k].startTime / L) == k) for k in range(len(res)))
        if a.makeCopy: yield 'copies', all(S.fresh(e, old) for p in full for e in p.events)
        yield 'other metadata kept', all(S.same_fields(p, old(a.self), ['bpm', 'timeSignature', 'key', 'originFilePath', 'resolution']) for p in full)

def with_viewpoints(G, p, depth=0):
    for name in ('vp1', 'chords')[:G.r.choice([0, 0, 1, 2])] if depth < 2 else ():
        v = G.pattern(); v.name = name + '_%d' % depth
        if G.chance(0.7): v.originPattern = p
        with_viewpoints(G, v, depth + 1)
        p.viewpoints[name] = v
    return p

def fine(G, p):
    """now and then times that are no binary fractions (nothing is computed with them)"""
    if G.chance(0.3):
        for e in p.events:
            if G.chance(0.5): e.startTime = e.startTime / 3
            if G.chance(0.5): e.duration = e.duration / 7
    return p

class JSONRoundTrip(Contract):
    target = 'drivers:json_roundtrip'
    props = ['C13']
    params = [('pattern', PAT), ('useTagIndexing', 'bool')]
    variants = [('indexed', {'useTagIndexing': ('const', True)}), ('plain', {'useTagIndexing': ('const', False)})]
    any_result = True
    bounded = 'a dictionary of lists of dictionaries, recursive over viewpoints'
    @staticmethod
    def gen(G, variant): return {'pattern': fine(G, with_viewpoints(G, G.pattern()))}
    @staticmethod
    def modifies(S, old, a):
        def pats(p):
            yield p
            for k in p.viewpoints.keys():
                for q in pats(p.viewpoints[k]): yield q
        for p in pats(old(a.pattern)):
            yield (p.events,)
            yield (p, ['duration'])
    @staticmethod
    def ensures(S, old, new, a, result):
        import json as J
        d, q = result
        raw = d.d if hasattr(d, 'd') else d
        def tag_ok(x, y): return x == y or (a.useTagIndexing and not isinstance(y, tuple) and x == (y,))
        def same(p, q):
            if not (p.name == q.name and p.bpm == q.bpm and tuple(p.timeSignature) == tuple(q.timeSignature) and p.duration == q.duration): return False
            if len(p.events) != len(q.events): return False
            for i in range(len(p.events)):
                x, y = q.events[i], p.events[i]
                if not (x.startTime == y.startTime and x.duration == y.duration and x.pitch == y.pitch and x.velocity == y.velocity and tag_ok(x.tag, y.tag)): return False
            if sorted(p.viewpoints.keys()) != sorted(q.viewpoints.keys()): return False
            return all(same(p.viewpoints[k], q.viewpoints[k]) for k in p.viewpoints.keys())
        yield 'the same pattern comes back', same(new(a.pattern), q)
        def written(p, d):
            if len(d['eventList']) != len(p.events): return False
            for i in range(len(p.events)):
                e, x = p.events[i], d['eventList'][i]
                if not (x['on'] == e.startTime and x['duration'] == e.duration and x['pitch'] == e.pitch and x['velocity'] == e.velocity): return False
                if a.useTagIndexing:
                    ts = d['eventTags']
                    if not all(0 <= k < len(ts) for k in x['tagsIdx']): return False
                    if not tag_ok(tuple(ts[k] for k in x['tagsIdx']), e.tag): return False
                    if any(ts[i] == ts[j] for j in range(len(ts)) for i in range(j)): return False
                elif x['tag'] != e.tag: return False
            return d['timeInfo']['duration'] == p.duration and d['timeInfo']['bpm'] == p.bpm and all(written(p.viewpoints[k], d['viewpoints'][k]) for k in p.viewpoints.keys())
        yield 'every event is written, every tag index refers into the tag list beside it', written(new(a.pattern), raw)
        yield 'the result has events of its own', all(S.fresh(q.events[i], old) for i in range(len(q.events)))
        yield 'the duration covers the events', all(end(e) <= q.duration for e in q.events) and new(a.pattern).duration >= old(a.pattern).duration
        yield 'the dictionary can be written as text', bool(J.dumps(raw))

def same_pattern(p, q, tag_ok):
    """the JSON form keeps these fields of q as they were in p"""
    if not (p.name == q.name and p.bpm == q.bpm and tuple(p.timeSignature) == tuple(q.timeSignature) and p.duration == q.duration): return False
    if len(p.events) != len(q.events): return False
    for i in range(len(p.events)):
        x, y = q.events[i], p.events[i]
        if not (x.startTime == y.startTime and x.duration == y.duration and x.pitch == y.pitch and x.velocity == y.velocity and tag_ok(x.tag, y.tag)): return False
    return sorted(p.viewpoints.keys()) == sorted(q.viewpoints.keys()) and all(same_pattern(p.viewpoints[k], q.viewpoints[k], tag_ok) for k in p.viewpoints.keys())

def may_grow(S, old, p):
    """writing the JSON form may make a pattern, and its viewpoints, as long as their events,
    which are sorted for it"""
    yield (p.events,)
    yield (p, ['duration'])
    for k in p.viewpoints.keys():
        for q in may_grow(S, old, p.viewpoints[k]): yield q

def file_name(p, suffix, ext): return p.name + (suffix or '') + ext

class JSONFile(Contract):
    """a pattern written to a JSON file and read back with the same options"""
    target = 'drivers:json_file'
    props = ['C30']
    params = [('pattern', PAT), ('useTagIndexing', 'bool'), ('conserveTuple', 'bool'), ('nameSuffix', 'any')]
    variants = [('tuples kept', {'conserveTuple': ('const', True)}), ('tuples as lists', {'conserveTuple': ('const', False)})]
    any_result = True
    bounded = 'files, and the json library'
    @staticmethod
    def gen(G, variant):
        p = fine(G, with_viewpoints(G, G.pattern()))
        p.name = G.pick(['p', 'a b', 'x.y', ''])
        if variant == 'tuples kept':
            for e in p.events:
                if G.chance(0.15): e.tag = G.pick([('a', ('b', 'c')), (('kick',), 'b'), ((1, 2), ('x', ('y',)))])
        return {'pattern': p, 'nameSuffix': G.pick([None, None, '', '_s', '.v2'])}
    @staticmethod
    def modifies(S, old, a):
        for m in may_grow(S, old, old(a.pattern)): yield m
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        here, files, q = raw(result)
        p = new(a.pattern)
        def plain(t): return [plain(x) for x in t] if isinstance(t, (tuple, list)) else t
        def tag_ok(x, y):
            if a.useTagIndexing and not isinstance(y, tuple): y = (y,)
            return x == y and isinstance(x, tuple) == isinstance(y, tuple) if a.conserveTuple else plain(x) == plain(y)
        yield 'one file, named after the pattern, whose path is returned', here and files == [file_name(p, a.nameSuffix, '.json')]
        yield 'the same pattern comes back', same_pattern(p, q, tag_ok)
        yield 'the duration covers the events', all(end(e) <= q.duration for e in q.events) and p.duration >= old(a.pattern).duration

class PickleFile(Contract):
    """a pattern written to a pickle file and read back"""
    target = 'drivers:pickle_file'
    props = ['C30']
    params = [('pattern', PAT), ('nameSuffix', 'any')]
    any_result = True
    bounded = 'files, and the pickle library'
    @staticmethod
    def gen(G, variant):
        p = fine(G, with_viewpoints(G, G.pattern()))
        p.name = G.pick(['p', 'a b', 'x.y', ''])
        return {'pattern': p, 'nameSuffix': G.pick([None, None, '', '_s', '.v2'])}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        here, files, q = raw(result)
        p = new(a.pattern)
        yield 'one file, named after the pattern, whose path is returned', here and files == [file_name(p, a.nameSuffix, '.pickle')]
        yield 'the same pattern comes back', same_pattern(p, q, lambda x, y: x == y and isinstance(x, tuple) == isinstance(y, tuple))
        yield 'the other fields too', all(getattr(p, f) == getattr(q, f) for f in ('startTime', 'key', 'originFilePath', 'resolution'))
