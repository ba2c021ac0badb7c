from vspec import ASSUME, ANY
import io
from bitcoin.bloom import CBloomFilter
from bitcoin.core import CMutableOutPoint
import netlib


def make(data, n, tweak):
    f = CBloomFilter.__new__(CBloomFilter)
    f.vData = bytearray(data)
    f.nHashFuncs = n
    f.nTweak = tweak
    f.nFlags = 0
    return f


def bits(size, n, tweak, e):
    """the bits an element has, as an empty filter shows them"""
    f = make(b'\x00' * size, n, tweak)
    f.insert(e)
    return bytes(f.vData)


def both(a, b):
    return bytes([x | y for x, y in zip(a, b)])


def inside(a, b):
    for x, y in zip(a, b):
        if x & y != x:
            return False
    return True


def full(data):
    return data == b'\xff'


def insert(data, n, tweak, e):
    """insertion adds the element's bits and nothing else"""
    f = make(data, n, tweak)
    f.insert(e)
    b = bits(len(data), n, tweak, e)
    return bytes(f.vData) == both(data, b), f.nHashFuncs, f.nTweak, f.contains(e)


def insert_ref(data, n, tweak, e):
    return True, n, tweak, True


def contains(data, n, tweak, e):
    """an element is absent exactly when a bit of it is clear"""
    f = make(data, n, tweak)
    r = True if f.contains(e) else False
    b = bits(len(data), n, tweak, e)
    return r == inside(b, data), bytes(f.vData)


def contains_ref(data, n, tweak, e):
    return True, data


def history(data, n, tweak, e, g):
    """an element stays when others come, and on the wire"""
    ASSUME(tweak <= 0xffffffff)
    f = make(data, n, tweak)
    f.insert(e)
    f.insert(g)
    f.insert(e)
    h = CBloomFilter.stream_deserialize(io.BytesIO(f.serialize()))
    return f.contains(e), f.contains(g), h.contains(e), h.contains(g)


def history_ref(data, n, tweak, e, g):
    ASSUME(tweak <= 0xffffffff)
    return True, True, True, True


def ok(o):
    ASSUME(len(o[0]) == 32 and 0 <= o[1] <= 0xffffffff)


def outpoint(data, n, tweak, o, first, mutable):
    """an outpoint and its bytes are one element"""
    ok(o)
    p = CMutableOutPoint(o[0], o[1]) if mutable else netlib.mk_outpoint(o)
    raw = p.serialize()
    f = make(data, n, tweak)
    f.insert(p if first else raw)
    r = make(data, n, tweak)
    r.insert(raw)
    q = make(data, n, tweak)
    return f.contains(raw if first else p), f.contains(p if first else raw), f.vData == r.vData, q.contains(p) == q.contains(raw)


def outpoint_ref(data, n, tweak, o, first, mutable):
    ok(o)
    return True, True, True, True



# ---- which bytes are looked at, for filters of any number of hash functions
class Cell:
    def __init__(self, log, at, answer):
        self.log = log
        self.at = at
        self.answer = answer

    def __or__(self, m):
        self.log.append(self.at)
        return self

    __ror__ = __or__

    def __and__(self, m):
        self.log.append(self.at)
        return self.answer

    __rand__ = __and__


class Bytes:
    def __init__(self, size):
        self.size = size
        self.log = []
        self.put = []

    def __len__(self):
        return self.size

    def __getitem__(self, i):
        return Cell(self.log, i, 1)

    def __setitem__(self, i, v):
        self.put.append(i)


def places(size, n, tweak, e):
    f = make(b'', n, tweak)
    try:
        a = f.vData = Bytes(size)
        f.insert(e)
        b = f.vData = Bytes(size)
        found = f.contains(e)
        g = make(b'', n, tweak)
        c = g.vData = Bytes(size)
        g.contains(e)
    except TypeError:
        ASSUME(False)                       # bytes used in a way this does not describe
    return len(a.put), len(b.log), found, [x for x, y in zip(a.put, b.log) if x != y], [x for x, y in zip(b.log, c.log) if x != y]


def places_ref(size, n, tweak, e):
    return n, n, True, [], []
