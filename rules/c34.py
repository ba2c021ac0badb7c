from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c16

METHOD = 'outcome tables of insertion and membership, over filters of given contents and elements whose hashes are arbitrary, compared with ' \
         'one another: the bits insertion sets in an empty filter are the ones both go by'
ASSUMPTIONS = ['the 32-bit hash is an uninterpreted function of the seed and the bytes of the element']
S = 'spec_c34.'
CFG = {'opaque': {'bitcoin.bloom.MurmurHash3': 'uint'}, 'vocabulary': ('bitcoin.bloom.MurmurHash3',), 'range_K': 60}
CONTENTS = (b'\x00', b'\x01', b'\xfe', b'\xff', b'\x00\x00', b'\xff\x00', b'\xff\xff', b'\x80\x01')
LARGE = (b'\x00\x00\x00', b'\xff\x00\x81')


def obligations(P):
    out = []
    need(P, 'bitcoin.bloom.CBloomFilter')
    site = 'bitcoin.bloom.CBloomFilter'
    e, g, t = sym('e', 'bytes'), sym('g', 'bytes'), sym('tweak', 'uint')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])

    def eq(what, fn, d, n, *more, meth):
        out.append(Equiv('%s, filter %s, %d hash functions' % (what, d.hex(), n), S + fn, S + fn + '_ref', inp(C(d), C(n), t, *more),
                         cfg=CFG, effects=False, site=site + '.' + meth))
    for d in CONTENTS + LARGE:
        for n in (0, 1, 2, 3):
            if (len(d) * 8) ** n > 600:
                continue
            eq('insertion', 'insert', d, n, e, meth='insert')
            eq('membership', 'contains', d, n, e, meth='contains')
            if n < 2:
                if len(d) < 3:
                    eq('history', 'history', d, n, e, g, meth='contains')
                for first in (True, False):
                    eq('outpoint %s' % ('inserted' if first else 'looked up'), 'outpoint', d, n, lambda: c16.outpoint('o'), C(first), C(False), meth='insert')
                    eq('mutable outpoint %s' % ('inserted' if first else 'looked up'), 'outpoint', d, n, lambda: c16.outpoint('o'), C(first), C(True), meth='insert')
    for n in (0, 1, 2, 3, 8, 20, 49, 50):
        for size in (2, 100, 36000):
            out.append(Equiv('places, filter of %d bytes, %d hash functions' % (size, n), S + 'places', S + 'places_ref', inp(C(size), C(n), t, e),
                             cfg=dict(CFG, no_pick=True), effects=False, site=site))
    return out
