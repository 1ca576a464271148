"""Contracts: the MIDI layer (C14, C15, C16)."""
from __future__ import division
from engine.api import *

# ---------------------------------------------------------------- C16: ticks
TRACK = ('ref', 'midiio.Track')

def gen_track(G, relative=None):
    from gsapi import midiio
    evs = []
    for _ in range(G.nlist()):
        c = G.pick([midiio.NoteOnEvent, midiio.NoteOffEvent, midiio.ControlChangeEvent, midiio.EndOfTrackEvent, midiio.TextMetaEvent, midiio.SetTempoEvent])
        evs.append(c(tick=G.pick([0, 0, 1, 7, 120, 960, 100000, -3]) if G.chance(0.8) else G.int(0, 5000)))
    return midiio.Track(evs, tick_relative=G.bool() if relative is None else relative)

class TicksAbs(Contract):
    target = 'midiio:Track.make_ticks_abs'
    props = ['C16']
    params = [('self', TRACK)]
    result = 'none'
    @staticmethod
    def gen(G, variant): return {'self': gen_track(G)}
    @staticmethod
    def requires(S, old, a): yield 'an event is in the track once', lambda: S.distinct(S.items(old(a.self)))
    @staticmethod
    def modifies(S, old, a):
        ev = S.items(old(a.self))
        yield (a.self, ['tick_relative'])
        yield ('midiio.AbstractEvent', ['tick'], lambda e: S.And(old(a.self).tick_relative, S.member(e, ev)))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = S.items(old(a.self)); n = S.len(ev); rel = old(a.self).tick_relative
        yield 'absolute from now on', lambda: S.Not(new(a.self).tick_relative)
        yield 'ticks are the running sums', lambda: S.Implies(rel, lambda: S.forall(n, lambda i: S.eq(new(ev[i]).tick, S.sum(i + 1, lambda k: ev[k].tick))))
        yield 'nothing to do on an absolute track', lambda: S.Implies(S.Not(rel), lambda: S.forall(n, lambda i: S.eq(new(ev[i]).tick, ev[i].tick)))
    @staticmethod
    def invariants(S, L):
        if L.seq is None: return
        ev = S.items(L.old(L.a.self)); n = S.len(ev)
        for nm, x in L.nums:
            yield '%s is the sum so far' % nm, lambda: S.eq(x, S.sum(L.i, lambda k: ev[k].tick))
        yield 'ticks done', lambda: S.forall(L.i, lambda k: S.eq(L.new(ev[k]).tick, S.sum(k + 1, lambda j: ev[j].tick)))
        yield 'ticks to do', lambda: S.forall_range(L.i, n, lambda k: S.eq(L.new(ev[k]).tick, ev[k].tick))

class TicksRel(Contract):
    target = 'midiio:Track.make_ticks_rel'
    props = ['C16']
    params = [('self', TRACK)]
    result = 'none'
    @staticmethod
    def gen(G, variant): return {'self': gen_track(G)}
    requires = staticmethod(TicksAbs.requires)
    @staticmethod
    def modifies(S, old, a):
        ev = S.items(old(a.self))
        yield (a.self, ['tick_relative'])
        yield ('midiio.AbstractEvent', ['tick'], lambda e: S.And(S.Not(old(a.self).tick_relative), S.member(e, ev)))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = S.items(old(a.self)); n = S.len(ev); rel = old(a.self).tick_relative
        prev = lambda i: S.Ite(S.eq(i, 0), 0, lambda: ev[i - 1].tick)
        yield 'relative from now on', lambda: new(a.self).tick_relative
        yield 'ticks are the differences', lambda: S.Implies(S.Not(rel), lambda: S.forall(n, lambda i: S.eq(new(ev[i]).tick, ev[i].tick - prev(i))))
        yield 'nothing to do on a relative track', lambda: S.Implies(rel, lambda: S.forall(n, lambda i: S.eq(new(ev[i]).tick, ev[i].tick)))
    @staticmethod
    def invariants(S, L):
        if L.seq is None: return
        ev = S.items(L.old(L.a.self)); n = S.len(ev)
        prev = lambda i: S.Ite(S.eq(i, 0), 0, lambda: ev[i - 1].tick)
        for nm, x in L.nums:
            yield '%s is the tick before' % nm, lambda: S.eq(x, prev(L.i))
        yield 'ticks done', lambda: S.forall(L.i, lambda k: S.eq(L.new(ev[k]).tick, ev[k].tick - prev(k)))
        yield 'ticks to do', lambda: S.forall_range(L.i, n, lambda k: S.eq(L.new(ev[k]).tick, ev[k].tick))

class TicksBack(Contract):
    """one conversion after the other restores every tick"""
    target = 'drivers:ticks_back'
    props = ['C16']
    params = [('track', TRACK)]
    result = 'none'
    calls = [TicksAbs, TicksRel]
    @staticmethod
    def gen(G, variant): return {'track': gen_track(G)}
    @staticmethod
    def requires(S, old, a): yield 'an event is in the track once', lambda: S.distinct(S.items(old(a.track)))
    @staticmethod
    def modifies(S, old, a):
        yield (a.track, ['tick_relative'])
        yield ('midiio.AbstractEvent', ['tick'], lambda e: S.member(e, S.items(old(a.track))))
    @staticmethod
    def ensures(S, old, new, a, result):
        ev = S.items(old(a.track))
        yield 'every tick is restored', lambda: S.forall(S.len(ev), lambda i: S.eq(new(ev[i]).tick, ev[i].tick))
        yield 'the track is in the form it had', lambda: S.Iff(new(a.track).tick_relative, old(a.track).tick_relative)
    @staticmethod
    def end_lemmas(S, L):
        ev = S.items(L.old(L.a.track)); n = S.len(ev)
        yield 'sums', n, lambda i: S.eq(S.sum(i + 1, lambda k: ev[k].tick), S.sum(i, lambda k: ev[k].tick) + ev[i].tick)
        mid = L.calls[0].new
        yield 'differences add up', n, lambda i: S.Implies(S.And(i >= 1, S.Not(L.old(L.a.track).tick_relative)), lambda: S.eq(S.sum(i, lambda k: mid(ev[k]).tick), ev[i - 1].tick))

class PatternTicks(Contract):
    """converting a pattern converts every track, from whichever form the track has"""
    target = 'drivers:pattern_ticks'
    props = ['C16']
    params = [('pattern', ('ref', 'midiio.Pattern')), ('absolute', 'bool')]
    result = 'none'
    calls = [TicksAbs, TicksRel]
    @staticmethod
    def gen(G, variant):
        from gsapi import midiio
        rel = G.bool()
        return {'pattern': midiio.Pattern([gen_track(G, rel if G.chance(0.8) else None) for _ in range(G.r.randint(0, 4))], resolution=G.pick([96, 220, 960]), tick_relative=rel), 'absolute': G.bool()}
    @staticmethod
    def requires(S, old, a):
        tr = S.items(old(a.pattern)); n = S.len(tr)
        yield 'a track is in the pattern once', lambda: S.distinct(tr)
        yield 'an event is in its track once', lambda: S.forall(n, lambda t: S.distinct(S.items(tr[t])))
        yield 'an event is in one track', lambda: S.forall(n, lambda t: S.forall_range(t + 1, n, lambda u: S.forall(S.len(S.items(tr[t])), lambda i: S.Not(S.member(S.items(tr[t])[i], S.items(tr[u]))))))
    @staticmethod
    def modifies(S, old, a):
        tr = S.items(old(a.pattern)); n = S.len(tr)
        yield (a.pattern, ['tick_relative'])
        yield ('midiio.Track', ['tick_relative'], lambda t: S.member(t, tr))
        yield ('midiio.AbstractEvent', ['tick'], lambda e: S.exists(n, lambda t: S.member(e, S.items(tr[t]))))
    @staticmethod
    def after(S, state, a, tr, t):
        """track t is in the form asked for"""
        ev = S.items(tr[t]); n = S.len(ev); rel = tr[t].tick_relative; now = lambda i: state(ev[i]).tick
        prev = lambda i: S.Ite(S.eq(i, 0), 0, lambda: ev[i - 1].tick)
        keep = lambda: S.forall(n, lambda i: S.eq(now(i), ev[i].tick))
        return S.And(S.Iff(state(tr[t]).tick_relative, S.Not(a.absolute)),
                     S.Implies(S.And(a.absolute, rel), lambda: S.forall(n, lambda i: S.eq(now(i), S.sum(i + 1, lambda k: ev[k].tick)))),
                     S.Implies(S.And(a.absolute, S.Not(rel)), keep), S.Implies(S.And(S.Not(a.absolute), rel), keep),
                     S.Implies(S.And(S.Not(a.absolute), S.Not(rel)), lambda: S.forall(n, lambda i: S.eq(now(i), ev[i].tick - prev(i)))))
    @staticmethod
    def ensures(S, old, new, a, result):
        tr = S.items(old(a.pattern))
        yield 'the pattern has the form asked for', lambda: S.Iff(new(a.pattern).tick_relative, S.Not(a.absolute))
        yield 'every track is converted', lambda: S.forall(S.len(tr), lambda t: PatternTicks.after(S, new, a, tr, t))
    @staticmethod
    def invariants(S, L):
        if L.seq is None: return
        tr = S.items(L.old(L.a.pattern)); n = S.len(tr)
        yield 'tracks done', lambda: S.forall(L.i, lambda t: PatternTicks.after(S, L.new, L.a, tr, t))
        yield 'tracks to do', lambda: S.forall_range(L.i, n, lambda t: S.And(S.Iff(L.new(tr[t]).tick_relative, tr[t].tick_relative),
                                                                          S.forall(S.len(S.items(tr[t])), lambda i: S.eq(L.new(S.items(tr[t])[i]).tick, S.items(tr[t])[i].tick))))
    @staticmethod
    def head_lemmas(S, L):
        if L.seq is None: return
        tr = S.items(L.old(L.a.pattern))
        old = S.items(tr[L.i]); new = S.items(L.new(tr[L.i]))
        yield 'the sums of the next track are as they were', S.len(old), lambda i: S.Implies(L.i < S.len(tr), lambda: S.eq(S.sum(i, lambda k: new[k].tick), S.sum(i, lambda k: old[k].tick)))

# ---------------------------------------------------------------- C14: numbers
class VarlenRoundtrip(Contract):
    """write_varlen then read_varlen, with arbitrary bytes following"""
    target = 'drivers:varlen_roundtrip'
    props = ['C14']
    params = [('value', 'int'), ('rest', ('list', 'int'))]
    unroll = 6
    @staticmethod
    def gen(G, variant):
        k = G.r.randint(0, 28)
        v = G.pick([2 ** k, 2 ** k - 1, max(0, 2 ** k - 2), 2 ** k + 1, G.r.randint(0, 2 ** k), G.r.randint(0, 2 ** 28 - 1)])
        return {'value': v, 'rest': [G.r.randint(0, 255) for _ in range(G.r.randint(0, 3))]}
    @staticmethod
    def requires(S, old, a):
        yield 'representable', lambda: S.And(a.value >= 0, a.value < 2 ** 28)
        yield 'bytes follow', lambda: S.forall(S.len(old(a.rest)), lambda i: S.And(old(a.rest)[i] >= 0, old(a.rest)[i] <= 255))
    @staticmethod
    def ensures(S, old, new, a, result):
        data, back, left = new(result[0]), result[1], new(result[2])
        rest = old(a.rest); n = S.len(data)
        yield 'one to four bytes', lambda: S.And(n >= 1, n <= 4)
        yield 'no byte more than needed', lambda: S.And(S.Iff(n >= 2, a.value >= 128), S.Iff(n >= 3, a.value >= 128 ** 2), S.Iff(n >= 4, a.value >= 128 ** 3))
        yield 'exactly the last byte has its top bit clear', lambda: S.forall(n, lambda i: S.Iff(data[i] >= 128, i < n - 1))
        yield 'every byte fits', lambda: S.forall(n, lambda i: S.And(data[i] >= 0, data[i] <= 255))
        yield 'the value is read back', lambda: S.eq(back, a.value)
        yield 'no byte more is consumed', lambda: S.And(S.eq(S.len(left), S.len(rest)), S.forall(S.len(rest), lambda i: S.eq(left[i], rest[i])))

class FieldsRoundtrip(Contract):
    """set a field of a MIDI event, then look at all its fields and bytes"""
    target = 'drivers:field_roundtrip'
    props = ['C14']
    params = [('kind', 'str'), ('field', 'str'), ('value', 'int'), ('before', 'any')]
    weight = 1
    FIELDS = {'SetTempoEvent': (3, {'mpqn': (0, 2 ** 24 - 1), 'bpm': None}), 'PitchWheelEvent': (2, {'pitch': (-8192, 8191)}),
              'KeySignatureEvent': (2, {'alternatives': (-7, 7), 'minor': (0, 1)}),
              'TimeSignatureEvent': (4, {'numerator': (0, 255), 'denominator': 'pow', 'metronome': (0, 255), 'thirtyseconds': (0, 255)}),
              'NoteOnEvent': (2, {'pitch': (0, 127), 'velocity': (0, 127)}), 'NoteOffEvent': (2, {'pitch': (0, 127), 'velocity': (0, 127)}),
              'ControlChangeEvent': (2, {'control': (0, 127), 'value': (0, 127)}), 'AfterTouchEvent': (2, {'pitch': (0, 127), 'value': (0, 127)}),
              'ProgramChangeEvent': (1, {'value': (0, 127)}), 'ChannelAfterTouchEvent': (1, {'value': (0, 127)})}
    variants = [('%s.%s' % (k, f), {'kind': ('const', k), 'field': ('const', f), 'before': ('clist', ['int'] * n), 'value': 'num' if fs[f] is None else 'int'})
                for k, (n, fs) in sorted(FIELDS.items()) for f in sorted(fs)]
    @staticmethod
    def span(a): return FieldsRoundtrip.FIELDS[a.kind][1][a.field]
    @staticmethod
    def gen(G, variant):
        k, f = variant.split('.'); n, fs = FieldsRoundtrip.FIELDS[k]; d = fs[f]
        if d is None: v = G.pick([60, 90, 120, 140, 140.5, 4, 200, 999.25, 6e7, 3.58])
        elif d == 'pow': v = G.pick(list(range(0, 256)) if G.chance(0.3) else list(range(0, 8)))
        else: v = G.pick([d[0], d[1], G.r.randint(*d), G.r.randint(*d), G.r.randint(*d)])
        return {'kind': k, 'field': f, 'value': v, 'before': [G.r.randint(0, 127) for _ in range(n)]}
    @staticmethod
    def requires(S, old, a):
        b = old(a.before); d = FieldsRoundtrip.span(a)
        yield 'bytes', lambda: S.forall(S.len(b), lambda i: S.And(b[i] >= 0, b[i] <= 127))
        if d is None: yield 'a tempo the three bytes can hold', lambda: S.And(a.value * 2 ** 24 > 60000000, a.value <= 60000000)
        elif d == 'pow': yield 'an exponent the byte can hold', lambda: S.And(a.value >= 0, a.value <= 255)
        else: yield 'a value the format can represent', lambda: S.And(a.value >= d[0], a.value <= d[1])
    @staticmethod
    def ensures(S, old, new, a, result):
        seen, data, others0, others1, length, want = result[0], new(result[1]), new(result[2]), new(result[3]), result[4], result[5]
        if a.field == 'bpm':
            # the file holds whole microseconds per quarter note
            mpqn = data[0] * 65536 + data[1] * 256 + data[2]
            yield 'the tempo is stored to the microsecond', lambda: S.eq(mpqn, S.floor(S.div(60000000, a.value)))
            yield 'the tempo read back is that of the stored microseconds', lambda: S.And(seen * mpqn <= 60000001, seen * mpqn >= 59999999)
        else: yield 'the value is read back', lambda: S.eq(seen, want)
        yield 'as many bytes as the event has', lambda: S.eq(S.len(data), length)
        yield 'every byte fits', lambda: S.forall(S.len(data), lambda i: S.And(data[i] >= 0, data[i] <= 255))
        yield 'the other fields are as they were', lambda: S.And(S.eq(S.len(others0), S.len(others1)), S.forall(S.len(others0), lambda i: S.eq(others0[i], others1[i])))

# ---------------------------------------------------------------- C15: events in a track
class TrackRoundtrip(Contract):
    target = 'drivers:track_roundtrip'
    props = ['C15']
    params = [('track', 'any'), ('running', 'bool')]
    any_result = True
    weight = 1
    bounded = 'byte strings of unbounded length'
    @staticmethod
    def gen(G, variant):
        from gsapi import midiio
        out = []
        chans = [G.r.randint(0, 15) for _ in range(G.r.randint(1, 3))]
        kinds = [midiio.NoteOnEvent, midiio.NoteOffEvent, midiio.AfterTouchEvent, midiio.ControlChangeEvent, midiio.ProgramChangeEvent, midiio.ChannelAfterTouchEvent, midiio.PitchWheelEvent]
        some = [G.pick(kinds) for _ in range(G.r.randint(1, 3))]
        metas = [c for n, c in sorted(vars(midiio).items()) if isinstance(c, type) and issubclass(c, midiio.MetaEvent) and c.metacommand and n != 'UnknownMetaEvent']
        for _ in range(G.nlist() * 2):
            tick = G.pick([0, 1, 127, 128, 129, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 28 - 1, G.r.randint(0, 2 ** 28 - 1)])
            x = G.r.random()
            if x < 0.65:
                c = G.pick(some if G.chance(0.7) else kinds)
                out.append(c(tick=tick, channel=G.pick(chans), data=[G.pick([0, 1, 127, G.r.randint(0, 127)]) for _ in range(c.length)]))
            elif x < 0.85:
                c = G.pick(metas + [midiio.SequenceNumberMetaEvent])
                n = G.pick([0, 1, 2, 3, 4, 5, 127, 128, 200]) if G.chance(0.5) or type(c.length) != int else c.length
                out.append(c(tick=tick, data=[G.r.randint(0, 255) for _ in range(n)]))
            else:
                out.append(midiio.SysexEvent(tick=tick, data=[G.pick([0, 1, 0xF0, 0xF6, 0xF8, 0xFF, G.r.randint(0, 0xF6)]) for _ in range(G.pick([0, 1, 2, 5, 130]))]))
        if G.chance(0.5): out.append(midiio.EndOfTrackEvent(tick=0))
        return {'track': midiio.Track(out)}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        back, expected, left = raw(result)
        yield 'as many events', len(back) == len(expected)
        yield 'the same kinds of event', [type(e).__name__ for e in back] == [type(e).__name__ for e in expected]
        yield 'the same delta times', [e.tick for e in back] == [e.tick for e in expected]
        yield 'the same data', [list(e.data) for e in back] == [list(e.data) for e in expected]
        ch = lambda t: [getattr(e, 'channel', None) for e in t if e.__class__.__name__ not in ('SysexEvent',)]
        yield 'the same channels', ch(back) == ch(expected)
        yield 'the same meta commands', [getattr(e, 'metacommand', None) for e in back] == [getattr(e, 'metacommand', None) for e in expected]
        yield 'exactly the bytes written are consumed', left == 0
