"""Random values of contract parameter kinds."""
from __future__ import division
import gsapi
from gsapi import gspattern
from fractions import Fraction

TAGS = ['a', 'b', 'c', 'kick', 'ab', ('a',), ('a', 'b'), ('b', 'c'), (), 'silence', ('kick', 'b'), 'Kick']

class Gen(object):
    def __init__(self, rnd, size, consts):
        self.r = rnd; self.size = size; self.consts = consts
        self.grid = rnd.choice([1, 1, 0.5, 0.25, 0.125])
        pool = list(TAGS)
        rnd.shuffle(pool)
        self.tags = pool[:rnd.choice([1, 2, 3, 5])]
        if consts['str'] and rnd.random() < 0.5: self.tags.append(rnd.choice(consts['str']))
        self.pitches = [rnd.randint(0, 127) for _ in range(rnd.choice([1, 2, 3]))]
        self.made = []
        self.times = []
    def chance(self, p): return self.r.random() < p
    def pick(self, xs): return self.r.choice(list(xs))
    def pool_tags(self): return self.tags + ['zz', ('a',)]
    def pool_reals(self): return sorted(set([t / 4 for t in range(-8, 45)] + self.times))
    def num(self, lo=-2, hi=10):
        x = self.r.random()
        if x < 0.1 and self.consts['num'] + self.consts['int']: return self.r.choice(self.consts['num'] + self.consts['int'])
        if x < 0.3 and self.times: return self.r.choice(self.times)
        v = self.r.randint(int(lo / self.grid), int(hi / self.grid)) * self.grid
        if x > 0.92: v = v + self.r.choice([0.0625, 0.375, 0.03125])
        if v == int(v) and self.chance(0.5): v = int(v)
        self.times.append(v)
        return v
    def dur(self, hi=4):
        x = self.r.random()
        v = self.r.randint(1, max(1, int(hi / self.grid))) * self.grid
        if x > 0.9: v = v + 0.0625
        if v == int(v) and self.chance(0.5): v = int(v)
        return v
    def int(self, lo=-3, hi=20):
        if self.chance(0.15) and self.consts['int']: return self.r.choice(self.consts['int'])
        if self.chance(0.1): return self.r.randint(-200, 200)
        return self.r.randint(lo, hi)
    def tag(self): return self.r.choice(self.tags)
    def bool(self): return self.chance(0.5)
    def pitch(self): return self.r.choice(self.pitches) if self.chance(0.9) else self.r.randint(0, 127)
    def event(self, lo=0, hi=10):
        if self.made and self.chance(0.15):
            e = self.r.choice(self.made)
            c = gspattern.Event(e.startTime, e.duration, e.pitch, e.velocity, e.tag)
            if self.chance(0.5):
                f = self.r.choice(['startTime', 'duration', 'pitch', 'velocity', 'tag'])
                setattr(c, f, {'startTime': self.num, 'duration': self.dur, 'pitch': self.pitch, 'velocity': lambda: self.r.randint(0, 127), 'tag': self.tag}[f]())
            self.made.append(c)
            return c
        st = self.num(lo, hi)
        d = self.dur()
        e = gspattern.Event(startTime=st, duration=d, pitch=self.pitch(), velocity=self.r.choice([0, 1, 64, 80, 127]), tag=self.tag())
        self.times.append(st + d)
        self.made.append(e)
        return e
    def nlist(self): return self.r.randint(0, max(0, self.size)) if self.size else 0
    def pattern(self, lo=0, events=None, n=None):
        p = gspattern.Pattern()
        if events is None: events = [self.event(lo) for _ in range(self.nlist() if n is None else n)]
        p.events = events
        ends = [e.startTime + e.duration for e in p.events]
        mode = self.r.random()
        if mode < 0.6: p.duration = max([0] + ends) + (self.dur() if self.chance(0.4) else 0)
        elif mode < 0.8: p.duration = self.num(0, 12)
        else: p.duration = self.r.choice([0, 4, 8, 16])
        p.bpm = self.r.choice([60, 90, 120, 140.5]); p.timeSignature = self.r.choice([(4, 4), (3, 4), (6, 8), (5, 4), (7, 8)])
        p.key = self.r.choice([None, 'C', 'Am']); p.name = self.r.choice(['p', 'q', 'x_1'])
        p.originFilePath = self.r.choice([None, '/tmp/x.mid']); p.startTime = self.r.choice([0, 0, 4, 2.5]); p.resolution = self.r.choice([960, 480, 96])
        return p
    def of(self, k):
        if k == 'num': return self.num()
        if k == 'int': return self.int()
        if k == 'bool': return self.bool()
        if k == 'V': return self.tag()
        if k == 'str': return self.r.choice(['a', 'b', 'kick', 'silence', 'x', ''] + self.consts['str'])
        if k == 'any': return None
        if isinstance(k, tuple):
            if k[0] == 'ref': return self.event() if k[1].endswith('Event') else self.pattern()
            if k[0] == 'opt': return None if self.chance(0.4) else self.of(('ref', k[1]))
            if k[0] == 'list':
                if k[1] == ('ref', 'gspattern.Event') : return [self.event() for _ in range(self.nlist())]
                return [self.of(k[1]) for _ in range(self.nlist())]
            if k[0] == 'const': return k[1]
            if k[0] == 'tuple': return tuple(self.of(x) for x in k[1])
            if k[0] == 'clist': return [self.of(x) for x in k[1]]
            if k[0] == 'dict': return dict((kk, self.of(x)) for kk, x in k[1].items())
            if k[0] == 'pred':
                some = [t for t in self.tags if self.chance(0.5)]
                f = lambda x: x in some
                f.desc = 'lambda tag: tag in %r' % (some,)
                return f
            if k[0] == 'obj':
                m, c = k[1].split(':')
                mod = __import__('gsapi.' + m, fromlist=['x'])
                cls = getattr(mod, c)
                o = cls.__new__(cls)
                for at, kk in k[2].items(): setattr(o, at, self.of(kk))
                return o
        raise TypeError('no generator for %r' % (k,))
