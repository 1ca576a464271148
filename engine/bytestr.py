"""Byte strings (Python 2 str used as bytes) with symbolic content, and iterators over them.

A byte string is a concatenation of segments: single bytes (int or Int term) and stretches whose bytes are the elements
of an integer array, of symbolic length.  An iterator is a byte string and an offset; the offset is part of the path
state (an object attribute), so loops havoc it like any attribute."""
import z3
from .values import *

class Seg(object):
    """bytes get(0) .. get(n-1), n symbolic"""
    def __init__(self, n, get, data=None, kind='int'): self.n = n; self.get = get; self.data = data; self.kind = kind

class ByteS(object):
    builtin_methods = True
    def __init__(self, segs):
        self.segs = []
        for s in segs:
            if isinstance(s, Seg): self.segs.append(s)
            else: self.segs.append(s)
    @property
    def b(self):
        if not self.known(): raise Unsupported('byte string of unknown length')
        return list(self.segs)
    def known(self): return not any(isinstance(s, Seg) for s in self.segs)
    def length(self):
        n = 0; t = None
        for s in self.segs:
            if isinstance(s, Seg): t = s.n if t is None else t + s.n
            else: n += 1
        return n if t is None else z3.simplify(t + n)
    def call_method(self, ip, m, args, kw, n):
        if m == 'join':
            items = ip.concrete_items(args[0])
            if items is None: raise Unsupported('join')
            out = []
            for k, x in enumerate(items):
                if k: out += self.segs
                out += to_bytes(x).segs
            return ByteS(out)
        raise Unsupported('bytes.' + m)

def to_bytes(x):
    if isinstance(x, ByteS): return x
    if isinstance(x, str): return ByteS([ord(c) for c in x])
    raise Unsupported('bytes of %r' % (x,))

def seq_of(segs):
    """(length, getter of the i-th byte) of a list of segments"""
    if not any(isinstance(s, Seg) for s in segs):
        return len(segs), None
    n = ByteS(segs).length()
    def get(i):
        i = z3num(i); at = z3.IntVal(0); cases = []
        for s in segs:
            d = z3.simplify(i - at)
            if isinstance(s, Seg): cases.append((i < at + s.n, s.get(d))); at = z3.simplify(at + s.n)
            else: cases.append((i < at + 1, z3num(s))); at = z3.simplify(at + 1)
        t = cases[-1][1]
        for c, v in cases[-2::-1]: t = z3.If(c, v, t)
        return t
    return n, get

class CharSeq(object):
    """the sequence of one-byte strings of an integer sequence"""
    def __init__(self, seg): self.seg = seg

class IterV(object):
    """iterator over a byte string; its position lives in ip.mobj[oid]['off']"""
    builtin_methods = True
    def __init__(self, s, oid): self.s = s; self.oid = oid
    def off(self, ip): return ip.mobj[self.oid]['off']
    def call_method(self, ip, m, args, kw, n):
        if m in ('next', '__next__') and not args: return self.next(ip, n)
        raise Unsupported('iterator.' + m)
    def advance(self, ip, k):
        off = self.off(ip)
        ip.mobj_set(self.oid, 'off', off + k if isinstance(off, int) and isinstance(k, int) else z3.simplify(z3num(off) + z3num(k)))
    def find(self, ip, decide=None): return IterV.find_at(ip, self.s, self.off(ip), decide)
    @staticmethod
    def find_at(ip, bs, off, decide=None):
        """(segment, index into it or None) at an offset; decided by case split"""
        decide = decide or ip.branch
        at = 0                       # offset where the current segment starts
        for s in bs.segs:
            d = off - at if isinstance(off, int) and isinstance(at, int) else z3.simplify(z3num(off) - z3num(at))
            if not isinstance(d, int) and z3.is_int_value(d): d = d.as_long()
            if isinstance(s, Seg):
                if decide(z3.And(z3num(d) >= 0, z3num(d) < z3num(s.n))): return s, d
                at = z3.simplify(z3num(at) + s.n)
            else:
                if (d == 0 if isinstance(d, int) else decide(d == 0)): return s, None
                at = at + 1 if isinstance(at, int) else z3.simplify(at + 1)
        return None, None
    def next(self, ip, n):
        line = getattr(n, 'lineno', 0)
        rec = getattr(ip, 'nextrec', None)
        if rec is not None:
            # one symbolic iteration of a comprehension stands for all of them
            rec.append(self)
            if len(rec) > 1: raise Unsupported('more than one next() per iteration')
            s, d = self.find(ip, ip.sure)
            if not isinstance(s, Seg): raise Unsupported('next() outside a stretch')
            return ByteS([s.get(z3.simplify(z3num(d) + ip.nextidx))])
        s, d = self.find(ip)
        if s is None: raise PyExc('StopIteration', line, 'iterator at its end')
        self.advance(ip, 1)
        return ByteS([s.get(z3num(d)) if isinstance(s, Seg) else s])
    def rest(self, ip):
        """what is left, as segments"""
        s, d = self.find(ip)
        if s is None: return []
        segs = self.s.segs
        k = [i for i, x in enumerate(segs) if x is s][0] if isinstance(s, Seg) else None
        if k is None:
            # count: concrete byte at the offset; its position is the number of segments before it
            off = self.off(ip); at = 0
            for i, x in enumerate(segs):
                d = z3.simplify(z3num(off) - z3num(at))
                if not isinstance(x, Seg) and z3.is_int_value(d) and d.as_long() == 0: k = i; break
                at = z3.simplify(z3num(at) + (x.n if isinstance(x, Seg) else 1))
            if k is None: raise Unsupported('rest of an iterator')
            return segs[k:]
        if isinstance(d, int) and d == 0: return segs[k:]
        return [Seg(z3.simplify(s.n - d), lambda i: s.get(z3.simplify(i + d)))] + segs[k + 1:]
