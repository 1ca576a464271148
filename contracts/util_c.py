"""Contracts: pitch spelling, file names, datasets, viewpoints (C24, C26, C27, C29)."""
from __future__ import division
from engine.api import *

SHARP40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
FLAT40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
SHARPS = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
FLATS = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']

def alts(G, variant):
    # a string made at run time, as a user's would be
    if variant == 'sharp': return ''.join(['#'])
    if variant == 'flat': return ''.join(['b'])
    return G.pick(['', 'x', '##', 'bb', '#b', 'B', None, 1])

class Pc2Note(Contract):
    target = 'gsutil:pc2note'
    props = ['C24']
    params = [('pitch_class', 'int'), ('alt', 'V')]
    variants = [('sharp', {'alt': ('const', '#')}), ('flat', {'alt': ('const', 'b')}), ('other', {})]
    result = 'V'
    raises = ('Exception',)
    @staticmethod
    def gen(G, variant): return {'alt': alts(G, variant)}
    @staticmethod
    def on_raise(S, old, new, a, name):
        yield 'only another accidental is rejected', lambda: S.And(S.Not(S.eq(a.alt, '#')), S.Not(S.eq(a.alt, 'b')))
    @staticmethod
    def requires(S, old, a): return iter(())
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'another accidental is rejected', lambda: S.Or(S.eq(a.alt, '#'), S.eq(a.alt, 'b'))
        yield 'the name with sharps', lambda: S.Implies(S.eq(a.alt, '#'), lambda: S.eq(result, S.table(SHARPS, S.mod(a.pitch_class, 12))))
        yield 'the name with flats', lambda: S.Implies(S.eq(a.alt, 'b'), lambda: S.eq(result, S.table(FLATS, S.mod(a.pitch_class, 12))))

class Pc2Base40(Contract):
    target = 'gsutil:pc2base40'
    props = ['C24']
    params = [('pitch_class', 'int'), ('alt', 'V')]
    variants = Pc2Note.variants
    result = 'int'
    raises = ('Exception',)
    @staticmethod
    def gen(G, variant): return {'alt': alts(G, variant)}
    on_raise = staticmethod(Pc2Note.on_raise)
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'another accidental is rejected', lambda: S.Or(S.eq(a.alt, '#'), S.eq(a.alt, 'b'))
        yield 'the number with sharps', lambda: S.Implies(S.eq(a.alt, '#'), lambda: S.eq(result, S.table(SHARP40, S.mod(a.pitch_class, 12))))
        yield 'the number with flats', lambda: S.Implies(S.eq(a.alt, 'b'), lambda: S.eq(result, S.table(FLAT40, S.mod(a.pitch_class, 12))))

class SpellingsAgree(Contract):
    """the name is the one at the base-40 number"""
    target = 'drivers:spellings'
    props = ['C24']
    params = [('pitch_class', 'int'), ('alt', 'V')]
    variants = [('sharp', {'alt': ('const', '#')}), ('flat', {'alt': ('const', 'b')})]
    any_result = True
    @staticmethod
    def gen(G, variant): return {'alt': alts(G, variant or 'sharp')}
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'note name and base-40 number agree', lambda: S.eq(result[0], result[1])

PITCH40 = ["Cbb", "Cb", "C", "C#", "C##", "", "Dbb", "Db", "D", "D#", "D##", "", "Ebb", "Eb", "E", "E#", "E##", "Fbb", "Fb", "F", "F#", "F##", "",
           "Gbb", "Gb", "G", "G#", "G##", "", "Abb", "Ab", "A", "A#", "A##", "", "Bbb", "Bb", "B", "B#", "B##"]

class MakeChord(Contract):
    target = 'gsutil:makeChord'
    props = ['C24']
    params = [('root', 'int'), ('chord_structure', ('list', 'int'))]
    result = ('list', 'V')
    bounded = 'a list changing its element type'
    @staticmethod
    def gen(G, variant): return {'root': G.r.randint(-50, 90), 'chord_structure': [G.pick([6, 11, 12, 17, 23, 0, 35, G.r.randint(-40, 80)]) for _ in range(G.nlist())]}
    @staticmethod
    def ensures(S, old, new, a, result):
        l = old(a.chord_structure); n = S.len(l)
        yield 'one name per interval, and the root', lambda: S.eq(S.len(result), n + 1)
        yield 'each name is reached by adding up', lambda: S.forall(n + 1, lambda i: S.eq(result[i], S.table(PITCH40, S.mod(a.root + S.sum(i, lambda k: l[k]), 40))))

class PitchName(Contract):
    target = 'gsutil:pitch2name'
    props = ['C17']
    params = [('pitch', 'int'), ('pitchNames', ('list', 'str'))]
    result = 'V'
    any_result = True
    bounded = 'string building'
    @staticmethod
    def gen(G, variant): return {'pitch': G.r.randint(0, 127), 'pitchNames': list(SHARPS) if G.chance(0.8) else ['x', 'y', 'z']}
    @staticmethod
    def requires(S, old, a): yield 'a MIDI pitch', lambda: S.And(a.pitch >= 0, a.pitch <= 127, S.len(old(a.pitchNames)) > 0)
    @staticmethod
    def ensures(S, old, new, a, result):
        n = S.len(a.pitchNames)
        yield 'name and octave', result == a.pitchNames[a.pitch % n] + str(a.pitch // n - 1)

# ---------------------------------------------------------------- C29
FILES = ['a', 'b.mid', 'a.mid', 'x.txt', 'a.b.mid', 'mid', '.mid', 'song.midi', 'song.mid.bak', 'd/a.mid', '/p/q/a.mid', 'a.mid.mid', '']

class StripSuffix(Contract):
    target = 'gsutil:strip_suffix'
    props = ['C29']
    params = [('filename', 'str'), ('suffix', 'str')]
    variants = [('a suffix', {}), ('none', {'suffix': ('const', None)})]
    any_result = True
    bounded = 'string slices'
    @staticmethod
    def gen(G, variant):
        f = G.pick(FILES) if G.chance(0.5) else G.pick(FILES) + G.pick(['.mid', 'id', '.txt', 'x'])
        return {'filename': f, 'suffix': None if variant == 'none' else G.pick(['.mid', '', 'mid', 'id', '.txt', '.mid.mid', 'x', f, 'z' + f])}
    @staticmethod
    def ensures(S, old, new, a, result):
        f, s = a.filename, a.suffix
        ends = s is not None and len(s) <= len(f) and f[len(f) - len(s):] == s
        yield 'the suffix is taken off when the name ends with it', not ends or result + s == f
        yield 'the name is unchanged otherwise', ends or result == f

class MatchFiles(Contract):
    target = 'gsutil:match_files'
    props = ['C29']
    params = [('filename', 'str'), ('match_list', 'any'), ('suffix', 'any'), ('match_suffix', 'any')]
    any_result = True
    bounded = 'string patterns'
    @staticmethod
    def gen(G, variant):
        pool = ['a', 'a.mid', 'b.mid', 'a.txt', 'a.b.mid', 'd/a.mid', '/p/q/a.mid', 'xa.mid', 'a.mid.txt', 'd/xa', 'd/a', 'a/b', 'ab.txt', 'q/a.txt']
        return {'filename': G.pick(pool), 'match_list': [G.pick(pool) for _ in range(G.nlist())], 'suffix': G.pick([None, '.mid', '.txt', '']), 'match_suffix': G.pick([None, '.mid', '.txt', ''])}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        def strip(f, s): return f[:len(f) - len(s)] if s is not None and f.endswith(s) else f
        base = strip(a.filename, a.suffix).split('/')[-1]
        want = [m for m in raw(a.match_list) if strip(m, a.match_suffix).split('/')[-1] == base and (a.match_suffix is None or m.endswith(a.match_suffix))]
        yield 'exactly the files with the same base name and the suffix', raw(result) == want

class SearchFiles(Contract):
    target = 'drivers:search_files'
    props = ['C29']
    params = [('names', 'any'), ('query', 'any'), ('suffix', 'any')]
    any_result = True
    bounded = 'reads directories'
    @staticmethod
    def gen(G, variant):
        pool = ['a.mid', 'b.mid', 'c.txt', 'd.midi', 'xmid', 'e', 'sub/a.mid', 'sub/z.txt', 'other/b.mid', 'f.mid.txt', 'z.a.mid']
        names = sorted(set(G.pick(pool) for _ in range(G.nlist() + 1)))
        q = G.pick(['', '', 'file', 'list', 'missing'])
        query = {'': '', 'file': G.pick(names), 'missing': 'nowhere', 'list': [G.pick(names + ['']) for _ in range(G.r.randint(0, 4))]}[q]
        if q == 'list' and G.chance(0.3): query = query + [list(query)]
        return {'names': names, 'query': query, 'suffix': G.pick([None, '.mid', '.txt', 'mid', ['.mid', '.txt'], ['.mid', 'mid', '.mid'], [], ['.zzz'], ''])}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        names, q, suf, r = raw(a.names), raw(a.query), raw(a.suffix), raw(result)
        top = sorted(set(n.split('/')[0] for n in names))
        ok = lambda f: suf is None or (any(f.endswith(s) for s in suf) if isinstance(suf, list) else f.endswith(suf))
        def find(q):
            if isinstance(q, list): return [x for y in q for x in find(y)]
            if q == '': return [n for n in top if ok(n)]
            return [q] if ok(q) else []
        if q == 'nowhere': yield 'a path that is not there is refused', r == 'IOError'
        else: yield 'sorted, without duplicates, exactly the files with one of the suffixes', r == sorted(set(find(q)))

# ---------------------------------------------------------------- C27
DS = ('obj', 'gsdataset:Dataset', {'patterns': ('list', PAT)})
PFIELDS = ('startTime', 'duration', 'bpm', 'timeSignature', 'key', 'name')
def summary(p): return None if p is None else tuple(getattr(p, f) for f in PFIELDS) + tuple((e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in p.events)

class DatasetItem(Contract):
    target = 'gsdataset:Dataset.__getitem__'
    props = ['C27']
    params = [('self', DS), ('index', 'int')]
    result = PAT
    @staticmethod
    def gen(G, variant):
        from gsapi import gsdataset
        d = gsdataset.Dataset.__new__(gsdataset.Dataset); d.patterns = [G.pattern() for _ in range(G.r.randint(1, 4))]
        return {'self': d, 'index': G.r.randint(0, 3)}
    @staticmethod
    def requires(S, old, a): yield 'in range', lambda: S.And(a.index >= 0, a.index < S.len(old(a.self).patterns))
    @staticmethod
    def ensures(S, old, new, a, result):
        yield 'the pattern at that position', lambda: S.same(result, old(a.self).patterns[a.index])

class DatasetSlices(Contract):
    target = 'gsdataset:Dataset.getAllSliceOfDuration'
    props = ['C27']
    params = [('self', DS), ('desiredDuration', 'num'), ('viewpointName', ('const', None)), ('supressEmptyPattern', 'bool')]
    any_result = True
    bounded = 'uses splitting'
    @staticmethod
    def gen(G, variant):
        from gsapi import gsdataset
        d = gsdataset.Dataset.__new__(gsdataset.Dataset); d.patterns = [G.pattern() for _ in range(G.r.randint(0, 4))]
        if d.patterns and G.chance(0.2): d.patterns.append(d.patterns[0])
        return {'self': d, 'desiredDuration': G.pick([1, 2, 4, 0.5, 3])}
    @staticmethod
    def requires(S, old, a):
        yield 'a length', a.desiredDuration > 0
        yield 'events do not start before the pattern', all(e.startTime >= 0 and e.duration > 0 for p in old(a.self).patterns for e in p.events)
        yield 'bounded', all(p.duration >= 0 for p in old(a.self).patterns)
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        r = raw(result); want = []
        for p in raw(a.self).patterns: want += p.splitInEqualLengthPatterns(desiredLength=a.desiredDuration, supressEmptyPattern=a.supressEmptyPattern)
        yield 'the slices of every pattern, pattern after pattern', [summary(x) for x in r] == [summary(x) for x in want]

class DatasetImport(Contract):
    target = 'drivers:dataset_import'
    props = ['C27']
    params = [('files', 'any')]
    any_result = True
    bounded = 'reads files'
    weight = 1
    @staticmethod
    def gen(G, variant): return {'files': [[(G.pick([36, 38, 42]), G.r.randint(0, 4), 1) for _ in range(G.r.randint(0, 4))] for _ in range(G.r.randint(1, 5))]}
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        files, pats, found = raw(result)
        yield 'one pattern per file, in the order of the files', found == files
        n = len(raw(a.files))
        yield 'every file is read', sorted(found) == ['%d.mid' % i for i in range(n)]
        import collections
        yield 'with the notes of its file', all(set((p, s) for p, s, d in raw(a.files)[int(f.split('.')[0])]) == set(x) for f, x in zip(found, pats))

# ---------------------------------------------------------------- C26
class ViewpointOf(Contract):
    target = 'gspattern:Pattern.generateViewpoint'
    props = ['C26']
    params = [('self', PAT), ('name', 'str'), ('descriptor', 'any'), ('sliceType', 'any')]
    any_result = True
    may_change_dicts = True
    bounded = 'slices by splitting'
    weight = 2
    @staticmethod
    def gen(G, variant):
        from gsapi import gsdescriptors
        p = G.pattern()
        d = G.pick([gsdescriptors.Density(), gsdescriptors.NumberOfTags(), gsdescriptors.Density(includedTags=['a', 'b'])])
        n = G.pick(['density', 'chords', 'v'])
        st = G.pick([1, 2, 4, 3, 'perEvent', 'perEvent', 'all'])
        if n == 'chords' and G.chance(0.7): d = None
        return {'self': p, 'name': n, 'descriptor': d, 'sliceType': st}
    @staticmethod
    def requires(S, old, a):
        yield 'events start in the pattern and last', all(e.startTime >= 0 and e.duration > 0 for e in old(a.self).events)
        yield 'the pattern has a length', old(a.self).duration > 0
    @staticmethod
    def modifies(S, old, a):
        # slicing by event orders the events by start
        if a.sliceType == 'perEvent': yield (old(a.self).events,)
    @staticmethod
    def ensures(S, old, new, a, result):
        from rtspec import raw
        p = old(a.self); v = raw(result); ev = p.events; me = raw(a.self)
        yield 'stored under its name', me.viewpoints[a.name] is v and v.name == a.name
        yield 'the viewpoints there were are kept', all(k == a.name or me.viewpoints.get(k) is x for k, x in raw(p.viewpoints).items())
        yield 'the events of the pattern are the same', set(id(e) for e in me.events) == set(id(raw(e)) for e in ev) and len(me.events) == len(ev)
        st = a.sliceType if a.descriptor is not None else 4
        desc = raw(a.descriptor)
        if desc is None:
            from gsapi import gsdescriptors
            desc = gsdescriptors.Chord()
        ve = v.events
        yield 'every value is the descriptor of the slice it points to', all(desc.getDescriptorForPattern(x.originPattern) == x.tag for x in ve)
        yield 'every value starts and lasts as its slice', all(x.startTime == x.originPattern.startTime and x.duration == x.originPattern.duration for x in ve)
        sl = [x.originPattern for x in ve]
        if st == 'all': yield 'the whole pattern is the slice', [id(x) for x in sl] == ([id(me)] if len(ev) else [])
        elif st == 'perEvent':
            onsets = sorted(set(e.startTime for e in ev))
            yield 'one value per onset, in order', [x.startTime for x in ve] == onsets
            act = lambda t: set(id(raw(e)) for e in ev if e.startTime <= t and t < e.startTime + e.duration)
            yield 'a slice holds exactly the events active at the onset', all(set(id(e) for e in s.events) == act(s.startTime) and len(s.events) == len(act(s.startTime)) for s in sl)
            yield 'a slice lasts until its last event ends', all(abs(s.duration - max(e.startTime + e.duration - s.startTime for e in s.events)) < 1e-9 for s in sl)
        else:
            from gsapi import gspattern
            want = [x for x in me.splitInEqualLengthPatterns(st) if len(x.events)]
            yield 'the slices are those of splitting', [summary(x) for x in sl] == [summary(x) for x in want]
        yield 'the viewpoint has the metadata of the pattern', v.bpm == p.bpm and v.timeSignature == p.timeSignature and v.duration == p.duration and v.originPattern is me
