"""Compositions of public calls under contract as one function (run under Jython on the real code)."""
from __future__ import division

def json_roundtrip(pattern, useTagIndexing):
    from gsapi import gspattern
    d = pattern.toJSONDict(useTagIndexing=useTagIndexing)
    q = gspattern.Pattern()
    q.fromJSONDict(d)
    return (d, q)

# ---------------------------------------------------------------- midiio
def ticks_back(track):
    if track.tick_relative:
        track.make_ticks_abs()
        track.make_ticks_rel()
    else:
        track.make_ticks_rel()
        track.make_ticks_abs()

def pattern_ticks(pattern, absolute):
    if absolute: pattern.make_ticks_abs()
    else: pattern.make_ticks_rel()

def varlen_roundtrip(value, rest):
    from gsapi import midiio
    s = midiio.write_varlen(value)
    it = iter(s + ''.join(chr(x) for x in rest))
    back = midiio.read_varlen(it)
    left = [ord(c) for c in it]
    return ([ord(c) for c in s], back, left)

FIELD_NAMES = {'SetTempoEvent': ['mpqn'], 'PitchWheelEvent': ['pitch'], 'KeySignatureEvent': ['alternatives', 'minor'],
               'TimeSignatureEvent': ['numerator', 'denominator', 'metronome', 'thirtyseconds'], 'NoteOnEvent': ['pitch', 'velocity'], 'NoteOffEvent': ['pitch', 'velocity'],
               'ControlChangeEvent': ['control', 'value'], 'AfterTouchEvent': ['pitch', 'value'], 'ProgramChangeEvent': ['value'], 'ChannelAfterTouchEvent': ['value']}

def field_roundtrip(kind, field, value, before):
    from gsapi import midiio
    cls = getattr(midiio, kind)
    e = cls(tick=5, data=list(before))
    def others():
        return [getattr(e, n) for n in FIELD_NAMES[kind] + ['tick'] if n != field and not (field == 'bpm' and n == 'mpqn')]
    o0 = others()
    want = 2 ** value if field == 'denominator' else value
    setattr(e, field, want)
    return (getattr(e, field), list(e.data), o0, others(), cls.length, want)

def expand_running(track):
    """the same track with a status byte on every channel message"""
    from gsapi import midiio
    out = ''
    for e in track:
        w = midiio.FileWriter()
        w.RunningStatus = None
        out += w.encode_midi_event(e)
    return out

class Bytes(object):
    def __init__(self, s): self.s = s; self.p = 0
    def read(self, n):
        r = self.s[self.p:self.p + n]; self.p += len(r); return r

class Sink(object):
    def __init__(self): self.s = ''
    def write(self, x): self.s += x

def track_roundtrip(track, running):
    from gsapi import midiio
    w = midiio.FileWriter()
    sink = Sink()
    w.write_track(sink, track)
    s = sink.s
    if not running:
        body = expand_running(track)
        s = midiio.FileWriter().encode_track_header(len(body)) + body
    f = Bytes(s + 'MTrk')
    back = midiio.Track()
    midiio.FileReader().parse_track(f, back)
    return (back, track, len(s) - f.p)

# ---------------------------------------------------------------- gsio
def note_tags(noteMap, notes):
    from gsapi import gsio
    norm = getattr(gsio, '__tagFromMidiNote'); tag = getattr(gsio, '__tagsFromMidiNoteAndChannel')
    m = norm(noteMap)
    norm(noteMap)
    return [tag(p, c, m) for p, c in notes]

def track_name_tags(noteMap, name):
    from gsapi import gsio
    return getattr(gsio, '__tagFromTrackName')(name, noteMap)

class Scratch(object):
    def __enter__(self):
        import tempfile
        self.d = tempfile.mkdtemp(prefix='gsvc')
        return self.d
    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d, True)

def import_tags(noteMap, notes, how):
    from gsapi import gsio, midiio
    import os
    t = midiio.Track()
    for p, c in notes:
        t.append(midiio.NoteOnEvent(tick=0, pitch=p, velocity=80, channel=c))
        t.append(midiio.NoteOffEvent(tick=96, pitch=p, velocity=80, channel=c))
    t.append(midiio.EndOfTrackEvent(tick=0))
    out = []
    with Scratch() as d:
        f = os.path.join(d, 'a.mid')
        g = open(f, 'wb'); midiio.write_midifile(g, midiio.Pattern([t], resolution=96)); g.close()
        for k in range(2):
            p = gsio.fromMidiFile(f, noteMap) if how == 'file' else gsio.fromMidiCollection(os.path.join(d, '*.mid'), noteMap)[0]
            out.append([(e.pitch, e.tag) for e in p.events])
    return tuple(out)

def parse_midi(s):
    """an independent reader of MIDI files with one track"""
    b = [ord(c) for c in s]
    assert s[:4] == 'MThd'
    head = (b[8] * 256 + b[9], b[10] * 256 + b[11], b[12] * 256 + b[13])
    assert s[14:18] == 'MTrk'
    n = (b[18] << 24) + (b[19] << 16) + (b[20] << 8) + b[21]
    p = 22; end = p + n
    assert end == len(b)
    out = []; tick = 0; status = None
    def var(p):
        v = 0
        while True:
            v = v * 128 + (b[p] & 127); p += 1
            if b[p - 1] < 128: return v, p
    while p < end:
        dt, p = var(p); tick += dt
        if b[p] == 0xFF:
            cmd = b[p + 1]; ln, p = var(p + 2)
            out.append((tick, 'meta', [cmd] + b[p:p + ln])); p += ln
        else:
            if b[p] >= 128: status = b[p]; p += 1
            ln = 1 if status & 0xF0 in (0xC0, 0xD0) else 2
            out.append((tick, 'channel', [status] + b[p:p + ln])); p += ln
    return head, out

def exported(pattern):
    from gsapi import gsio
    with Scratch() as d:
        f = gsio.toMidiFile(pattern, folderPath=d, name='x')
        g = open(f, 'rb'); s = g.read(); g.close()
    return parse_midi(s)

def reimported(pattern):
    from gsapi import gsio
    with Scratch() as d:
        f = gsio.toMidiFile(pattern, folderPath=d, name='x')
        return gsio.fromMidiFile(f)

# ---------------------------------------------------------------- gsutil, gsdataset
def spellings(pitch_class, alt):
    from gsapi import gsutil, gsdefs
    return (gsutil.pc2note(pitch_class, alt), gsdefs.pitch40[gsutil.pc2base40(pitch_class, alt)])

def search_files(names, query, suffix):
    from gsapi import gsutil
    import os
    with Scratch() as d:
        for n in names:
            if '/' in n and not os.path.isdir(os.path.join(d, n.split('/')[0])): os.mkdir(os.path.join(d, n.split('/')[0]))
            open(os.path.join(d, n), 'w').close()
        def put(q):
            if isinstance(q, list): return [put(x) for x in q]
            return os.path.join(d, q) if q else d
        try: r = gsutil.search_files(put(query), suffix)
        except IOError: return 'IOError'
        return [os.path.relpath(x, d) for x in r]

def dataset_import(files):
    from gsapi import gsdataset, midiio
    import os
    with Scratch() as d:
        for i, notes in enumerate(files):
            t = midiio.Track(tick_relative=False)
            for p, s, l in notes:
                t.append(midiio.NoteOnEvent(tick=s * 96, pitch=p, velocity=80, channel=0))
                t.append(midiio.NoteOffEvent(tick=(s + l) * 96, pitch=p, velocity=80, channel=0))
            t.sort(key=lambda e: e.tick)
            t.append(midiio.EndOfTrackEvent(tick=1000)); t.make_ticks_rel()
            f = open(os.path.join(d, '%d.mid' % i), 'wb'); midiio.write_midifile(f, midiio.Pattern([t], resolution=96)); f.close()
        ds = gsdataset.Dataset(d, '*.mid')
        return ([os.path.basename(f) for f in ds.files], [[(e.pitch, e.startTime) for e in p.events] for p in ds.patterns], [p.name for p in ds.patterns])

# ---------------------------------------------------------------- gsstyles, gstransformers
def markov(patterns, order, numSteps, loopDuration, style):
    from gsapi import gsstyles
    if style:
        m = gsstyles.MarkovStyle(order=order, numSteps=numSteps, loopDuration=loopDuration)
        m.generateStyle(patterns)
        return m, m.markovChain
    m = gsstyles.PatternMarkov(order=order, numSteps=numSteps, loopDuration=loopDuration)
    m.generateTransitionTableFromPatternList(patterns)
    return m, m

def learn(patterns, order, numSteps, loopDuration, style):
    import copy
    m, c = markov(patterns, order, numSteps, loopDuration, style)
    f = copy.deepcopy(patterns)
    for p in f: c.formatPattern(p)
    return (c.transitionTable, f)

def generate(patterns, order, numSteps, loopDuration, seed, style):
    import copy
    m, c = markov(patterns, order, numSteps, loopDuration, style)
    t = copy.deepcopy(c.transitionTable)
    def one(s):
        try: return m.generatePattern(s)
        except Exception as e:
            if 'start hypothesis' in str(e): return None
            raise
    a = [one(seed + k) for k in range(3)]
    b = [one(seed + k) for k in range(3)]
    assert c.transitionTable == t, 'the table changed'
    return (t, a, b)

def choices(weights, draws):
    from gsapi import gsstyles
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    tot = float(sum(weights))
    m.transitionTable = [{(('z',),): {('s',): 1.0}}, {(('s',),): dict((('t%d' % i,), w / tot) for i, w in enumerate(weights))}]
    got = {}
    for k in range(draws):
        p = m.generatePattern(k)
        for e in p.events:
            if e.tag.startswith('t'): got[int(e.tag[1:])] = got.get(int(e.tag[1:]), 0) + 1
    return got

def densify(pattern, numSteps, mode, densities):
    from gsapi import gstransformers
    t = gstransformers.AgnosticDensity(mode=mode, numSteps=numSteps)
    take = lambda p: (p.duration, p.bpm, p.timeSignature, [(e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in p.events])
    out = [take(t.transformPattern(pattern, {}))]
    for d in densities:
        alone = take(gstransformers.AgnosticDensity(mode=mode, numSteps=numSteps).transformPattern(pattern, {'normalizedDensities': d}))
        out.append((alone, take(t.transformPattern(None, {'normalizedDensities': d})), take(t.transformPattern(None, {}))))
    out.append(take(t.transformPattern(None, {'normalizedDensities': dict((x, 1) for x in pattern.getAllTags())})))
    # another pattern given to the same transformer: the same events on a pattern of another length
    other = pattern.copy(); other.duration = numSteps
    for e in other.events: e.startTime = int(e.startTime * numSteps / pattern.duration + 0.5); e.duration = 1
    other.events = [e for e in other.events if e.startTime < numSteps]
    out.append((numSteps, take(t.transformPattern(other, {})), take(other)))
    return out

# ---------------------------------------------------------------- bassmine (CPython, numpy)
def normalize_rows(counts):
    from gsapi import bassmine
    import numpy as np
    return [[float(x) for x in r] for r in bassmine.normalize(np.array(counts, dtype=float))]

def normalize_model(temporal, interlocking, initial):
    from gsapi import bassmine
    m = bassmine.MarkovModel(len(initial))
    for i, r in enumerate(temporal):
        for j, k in enumerate(r):
            for _ in range(k): m.update_temporal(i, j)
    for i, r in enumerate(interlocking):
        for j, k in enumerate(r):
            for _ in range(k): m.update_interlocking(i, j)
    for i, k in enumerate(initial):
        for _ in range(k): m.update_initial(i)
    m.normalize_model()
    f = lambda x: [[float(y) for y in r] for r in x]
    return (f(m.get_temporal()), f(m.get_interlocking()), [float(y) for y in m.get_initial()], m.normalized)

def beat_pattern(onsets, beats):
    from gsapi import bassmine
    r = bassmine.binaryBeatPattern(onsets, beats)
    return ([[int(x) for x in row] for row in r], [int(x) for x in bassmine.translate_rhythm(r)])

# ---------------------------------------------------------------- files and saved models
def json_file(pattern, useTagIndexing, conserveTuple, nameSuffix):
    from gsapi import gsio
    import os
    with Scratch() as d:
        folder = os.path.join(d, 'sub')
        f = gsio.toJSONFile(pattern, folder, useTagIndexing=useTagIndexing, nameSuffix=nameSuffix, conserveTuple=conserveTuple)
        return (f == os.path.abspath(os.path.join(folder, os.path.basename(f))), os.listdir(folder), gsio.fromJSONFile(f, conserveTuple=conserveTuple))

def pickle_file(pattern, nameSuffix):
    from gsapi import gsio
    import os
    with Scratch() as d:
        folder = os.path.join(d, 'sub')
        f = gsio.toPickleFile(pattern, folder, nameSuffix=nameSuffix)
        return (f == os.path.abspath(os.path.join(folder, os.path.basename(f))), os.listdir(folder), gsio.fromPickleFile(f))

def save_and_load(style, fresh, via):
    import os
    if via == 'state': fresh.setInternalState(style.getInternalState())
    else:
        with Scratch() as d:
            f = os.path.join(d, 'style')
            if via == 'json': style.saveToJSON(f); fresh.loadFromJSON(f)
            else: style.saveToPickle(f); fresh.loadFromPickle(f)
    return fresh

def markov_state(patterns, order, numSteps, loopDuration, via):
    import copy
    from gsapi import gsstyles
    s, m = markov(patterns, order, numSteps, loopDuration, True)
    t = copy.deepcopy(m.transitionTable)
    fresh = gsstyles.MarkovStyle()
    built = [fresh.isBuilt()]
    if not m.transitionTable == {}: save_and_load(s, fresh, via)
    c = fresh.markovChain
    try: g = fresh.generatePattern(3) if order < numSteps else None
    except Exception as e:
        if 'start hypothesis' not in str(e): raise
        g = None
    return (t, m.transitionTable, c.transitionTable, (c.order, c.numSteps, c.loopDuration), built + [s.isBuilt(), fresh.isBuilt()], g)

def database_state(patterns, via, ordering):
    from gsapi import gsstyles
    s = gsstyles.DatabaseStyle(generatePatternOrdering=ordering)
    built = [s.isBuilt()]
    s.generateStyle(patterns)
    picked = []
    for k in range(len(patterns)):
        p = s.generatePattern()
        picked.append([i for i, q in enumerate(patterns) if q is p])
    fresh = save_and_load(s, gsstyles.DatabaseStyle(generatePatternOrdering=ordering), via)
    return (picked, fresh.patternList, built + [s.isBuilt(), fresh.isBuilt()])

def markov_queries(patterns, order, numSteps, loopDuration):
    import copy
    s, m = markov(patterns, order, numSteps, loopDuration, False)
    t = copy.deepcopy(m.transitionTable)
    steps = list(range(-numSteps, numSteps))
    q = [(k, m.getPossibleInStatesAtStep(k), m.getPossibleOutStatesAtStep(k), m.getAllPossibleStatesAtStep(k), m.getMatrixAtStep(k)) for k in steps]
    ins = list(set(x for d in t for x in d)); outs = list(set(y for d in t for r in d.values() for y in r))
    total = None
    for k in range(numSteps): total, _, _ = m.getMatrixAtStep(k, possibleStatesIn=ins, possibleStatesOut=outs, matrix=total)
    return (t, m.transitionTable, q, m.getAllPossibleStates(), (ins, outs, total))
