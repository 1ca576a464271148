"""Contracts: note maps, MIDI files (C17, C18)."""
from __future__ import division
from engine.api import *

NAMES = ['Kick', 'Snare', 'HH', 'a', 'b', 'track1', 'x']

def gen_rule(G):
    p = G.pick([36, 38, 42, 60, '*', 36]); c = G.pick([0, 1, 9, '*', '*'])
    return (p, c)

def gen_map(G):
    m = {}
    for n in G.r.sample(NAMES, G.r.randint(0, 5)):
        x = G.r.random()
        if x < 0.3: m[n] = G.pick([36, 38, 42, 60])
        elif x < 0.5: m[n] = gen_rule(G)
        elif x < 0.75: m[n] = [gen_rule(G) for _ in range(G.r.randint(0, 3))]
        else: m[n] = [G.pick([36, 38, 42]) if G.chance(0.6) else gen_rule(G) for _ in range(G.r.randint(1, 3))]
    return m

def rules_of(v):
    if not isinstance(v, list): v = [v]
    return [(r, '*') if isinstance(r, (int, long)) else r for r in v]

def tags_for(m, pitch, channel):
    return set(t for t in m if any((r[0] == '*' or r[0] == pitch) and (r[1] == '*' or r[1] == channel) for r in rules_of(m[t])))

class NoteTags(Contract):
    target = 'drivers:note_tags'
    props = ['C17']
    params = [('noteMap', 'any'), ('notes', 'any')]
    any_result = True
    weight = 3
    bounded = 'dictionaries with arbitrary keys'
    @staticmethod
    def gen(G, variant):
        m = gen_map(G)
        if G.chance(0.1): m = 'pitchName'
        elif G.chance(0.1): m = {'pitchName': G.pick(['', ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']])}
        return {'noteMap': m, 'notes': [(G.pick([36, 38, 42, 60, 61, 0, 127]), G.pick([0, 1, 9, 15])) for _ in range(G.r.randint(1, 4))]}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        from gsapi import gsdefs
        m = raw(a.noteMap); tags = raw(result)
        for (p, c), t in zip(raw(a.notes), tags):
            if m == 'pitchName' or 'pitchName' in m:
                nm = (m['pitchName'] if m != 'pitchName' else None) or gsdefs.defaultPitchNames
                yield 'a pitch-name map names the pitch', t == nm[p % 12] + str(p // 12 - 1)
                continue
            want = tags_for(m, p, c)
            if len(want) == 0: yield 'no rule matches: the empty tuple', t == ()
            elif len(want) == 1: yield 'one tag matches: that tag', t in want and not isinstance(t, tuple)
            else: yield 'several tags match: all of them, each at least once', isinstance(t, tuple) and set(t) == want

class ImportMap(Contract):
    """the map given by the caller is the same after any import"""
    target = 'drivers:import_tags'
    props = ['C17']
    params = [('noteMap', 'any'), ('notes', 'any'), ('how', 'str')]
    any_result = True
    bounded = 'reads files'
    @staticmethod
    def gen(G, variant):
        return {'noteMap': gen_map(G), 'notes': [(G.pick([36, 38, 42, 60, 61]), G.pick([0, 1, 9, 15])) for _ in range(G.r.randint(1, 4))], 'how': G.pick(['file', 'file', 'collection'])}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        m = raw(a.noteMap)
        first, second = raw(result)
        want = [(p, c) for p, c in raw(a.notes) if tags_for(m, p, c)]
        yield 'a note is imported when some rule matches', [e[0] for e in first] == [p for p, c in want]
        def good(t, w):
            if len(w) == 1: return t in w
            return isinstance(t, tuple) and set(t) == w
        yield 'imported notes have the tags of the map', all(good(e[1], tags_for(m, p, c)) for e, (p, c) in zip(first, want))
        yield 'a second import gives the same', first == second

class TrackNameTags(Contract):
    target = 'drivers:track_name_tags'
    props = ['C17']
    params = [('noteMap', 'any'), ('name', 'str')]
    any_result = True
    bounded = 'dictionaries with arbitrary keys'
    @staticmethod
    def gen(G, variant):
        return {'noteMap': gen_map(G), 'name': G.pick(['Kick', 'my Kick drum', 'Snare and Kick', 'zz', '', 'a', 'track1'])}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        m = raw(a.noteMap); t = raw(result)
        yield 'the names of the map found in the track name', isinstance(t, tuple) and sorted(t) == sorted(n for n in m if n in a.name)

KEYS = [None, '', 'C', 'Am', 'G', 'Bbm', 'F#', 'Cb', 'Ebm', 'Db']

def gen_export(G, clean):
    from gsapi import gspattern, gsdefs
    p = G.pattern(lo=0)
    p.resolution = G.pick([96, 220, 480, 960])
    p.bpm = G.pick([60, 90, 120, 140.5, 99.9, 200])
    p.timeSignature = G.pick([(4, 4), (3, 4), (6, 8), (5, 4), (7, 8), (2, 2), (12, 16)])
    p.key = G.pick(KEYS)
    for e in p.events:
        e.velocity = G.r.randint(1, 127)
        if G.chance(0.2): e.startTime = e.startTime + G.pick([1 / 3, 0.1, 0.0371])
    if clean:
        byp = {}
        for e in sorted(p.events, key=lambda e: e.startTime):
            l = byp.get(e.pitch, -1)
            if e.startTime < l: e.startTime = l + G.pick([0, 0, 0.25])
            byp[e.pitch] = e.startTime + e.duration
        if G.chance(0.7): p.events.sort(key=lambda e: e.startTime)
    p.duration = max([p.duration, 0.25] + [e.startTime + e.duration for e in p.events])
    return p

class Exported(Contract):
    target = 'drivers:exported'
    props = ['C18']
    params = [('pattern', PAT)]
    any_result = True
    weight = 2
    bounded = 'writes a file'
    @staticmethod
    def gen(G, variant): return {'pattern': gen_export(G, G.bool())}
    @staticmethod
    def requires(S, old, a):
        p = old(a.pattern)
        yield 'values MIDI can hold', all(0 <= e.pitch <= 127 and 0 <= e.velocity <= 127 and e.startTime >= 0 and e.duration >= 0 for e in p.events)
        yield 'the pattern lasts until its last event ends', all(e.startTime + e.duration <= p.duration for e in p.events)
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        from gsapi import gsdefs
        p = old(a.pattern); (fmt, ntracks, res), evs = raw(result)
        tick = lambda t: int(t * res)
        yield 'one track, with the resolution of the pattern', ntracks == 1 and res == p.resolution
        want = sorted([(tick(e.startTime), 0x90, e.pitch, e.velocity) for e in p.events] + [(tick(e.startTime + e.duration), 0x80, e.pitch, e.velocity) for e in p.events])
        got = sorted((t, d[0] & 0xF0, d[1], d[2]) for t, k, d in evs if k == 'channel')
        yield 'a note-on and a note-off for every event, and no other', got == want
        yield 'a note-on is not after its note-off', [t for t, k, d in evs] == sorted(t for t, k, d in evs)
        metas = [(t, d) for t, k, d in evs if k == 'meta']
        ts = [d for t, d in metas if d[0] == 0x58]; tempo = [d for t, d in metas if d[0] == 0x51]; key = [d for t, d in metas if d[0] == 0x59]
        yield 'the time signature', len(ts) == 1 and ts[0][1] == p.timeSignature[0] and 2 ** ts[0][2] == p.timeSignature[1]
        yield 'the tempo', len(tempo) == 1 and abs((tempo[0][1] << 16) + (tempo[0][2] << 8) + tempo[0][3] - 6e7 / p.bpm) <= 1
        if p.key:
            nm = p.key[:-1] if p.key.endswith('m') else p.key
            k = key[0][1]; k = k - 256 if k > 127 else k
            yield 'the key', len(key) == 1 and gsdefs.midiKey[k] == nm and key[0][2] == (1 if p.key.endswith('m') else 0)
        else: yield 'no key when there is none', key == []
        yield 'the track ends at the duration', evs[-1][1] == 'meta' and evs[-1][2] == [0x2F] and evs[-1][0] == tick(p.duration) and sum(1 for t, d in metas if d[0] == 0x2F) == 1

class Reimported(Contract):
    target = 'drivers:reimported'
    props = ['C18']
    params = [('pattern', PAT)]
    any_result = True
    weight = 2
    bounded = 'writes and reads a file'
    @staticmethod
    def gen(G, variant): return {'pattern': gen_export(G, True)}
    @staticmethod
    def requires(S, old, a):
        for c in Exported.requires(S, old, a): yield c
        p = old(a.pattern); ev = p.events; n = len(ev); res = p.resolution
        tick = lambda t: int(t * res)
        yield 'notes sound', all(e.velocity > 0 and tick(e.startTime) < tick(e.startTime + e.duration) for e in ev)
        yield 'equal pitches do not overlap', all(i == j or ev[i].pitch != ev[j].pitch or ev[i].startTime + ev[i].duration <= ev[j].startTime or ev[j].startTime + ev[j].duration <= ev[i].startTime for i in range(n) for j in range(n))
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        p = old(a.pattern); q = raw(result); res = p.resolution
        yield 'as many notes', len(q.events) == len(p.events)
        tick = lambda t: int(t * res)
        want = sorted((e.pitch, tick(e.startTime), e.velocity, tick(e.startTime + e.duration)) for e in p.events)
        got = sorted((e.pitch, int(round(e.startTime * res)), e.velocity, int(round((e.startTime + e.duration) * res))) for e in q.events)
        yield 'the same notes at the same times', got == want
        yield 'the same time signature', tuple(q.timeSignature) == tuple(p.timeSignature)
        yield 'the same tempo', abs(6e7 / q.bpm - 6e7 / p.bpm) <= 1
        yield 'the same key', (q.key or '') == (p.key or '')
        yield 'the same duration', abs(q.duration * res - tick(p.duration)) < 1e-6
        yield 'the same resolution', q.resolution == res
