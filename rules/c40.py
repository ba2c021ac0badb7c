from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *

METHOD = 'guarded-outcome tables of every operation on bit strings of up to 25 (in pairs up to 17) unknown bits, kept as sums of single bits, ' \
         'against the same operation on the tuple of the bits'
S = 'spec_c40.'
B = 'proofmarshal.bits.Bits.'

RAISES = {'index_out', 'wrong_index', 'index', 'from_any', 'other'}


def bits(name, n):
    return Tup([mk('bit', C(name), C(i), sort='int') for i in range(n)])


def pads(n):
    """what follows the bits: nothing, padding to a byte, a byte more"""
    fill = -n % 8
    return [fill] if fill else [0, 8]


def obligations(P):
    out = []
    need(P, 'proofmarshal.bits.Bits')
    full = lambda *v: (lambda run, P: list(v))

    def eq(name, fn, site, *vals, cfg={}):
        out.append(Equiv(name, S + fn, S + fn + '_ref', full(*vals), cfg=dict(cfg), effects=False, site=B + site, K=40, Kt=80, need_ret=fn not in RAISES and True))
    sizes = (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 25)
    two = (0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17)
    if P.thorough:
        sizes, two = range(0, 42), list(range(0, 18)) + [23, 24, 25]
    for n in sizes:
        a = bits('a', n)
        for m in sorted(set(pads(n) + [-n % 8 + 8])):
            p = bits('p', m)
            what = '%d bits and %d unused' % (n, m)
            eq('all of ' + what, 'whole', '__iter__', a, p)
            eq('inverse of ' + what, 'inverse', '__invert__', a, p)
            eq('any index out of ' + what, 'index_out', '__getitem__', a, p, sym('i', 'int'))
            for i in sorted({0, 1, n // 2, n - 2, n - 1, n, n + 1, -1, -2, -n, -n - 1, 7, 8, 9, -8, -9}):
                eq('index %d into %s' % (i, what), 'index', '__getitem__', a, p, C(i))
            ends = (None, 0, 1, 2, 7, 8, 9, -1, -8, n - 1, n, n + 1, -n - 1)
            for i in sorted(set(ends), key=str):
                for j in sorted(set(ends), key=str):
                    for k in (None, 1) if n > 9 or m > 8 else (None, 1, 2, -1, -2, 3):
                        eq('slice %s:%s:%s of %s' % (i, j, k, what), 'part', '__getitem__', a, p, C(i), C(j), C(k))
        if n <= 3:
            eq('text of %d bits' % n, 'text', '__repr__', a, bits('p', -n % 8))
        if n <= 9:
            eq('construction from %d bits' % n, 'constructed', '__new__', a)
    eq('construction from other values', 'constructed', '__new__', Tup([TRUE, FALSE, C(2), C(''), C('x'), NONE, C(-1), C(b''), C(b'\0')]))
    eq('construction from a list', 'constructed', '__new__', Tup([sym('v%d' % i, 'int') for i in range(3)]))
    eq('nothing', 'empty', '__new__')
    for n in (0, 8, 16, 24):
        eq('all of %d bytes' % (n // 8), 'full', 'from_bytes', bits('a', n))
    for what, b in (('bytes', sym('b', 'bytes')), ('no bytes', C(b'')), ('text', C('aa')), ('a number', C(3)), ('nothing', NONE), ('a tuple', Tup([C(1)]))):
        for name, n in (('any length', sym('n', 'int')), ('a true length', TRUE), ('a text length', C('1')), ('a bytes length', C(b'1'))):
            eq('%s and %s' % (what, name), 'from_any', 'from_bytes', b, n)
    for n in two:
        for m in two:
            a, b = bits('a', n), bits('b', m)
            for i, j in {(0, 0), (len(pads(n)) - 1, 0), (0, len(pads(m)) - 1)}:
                p, q = bits('p', pads(n)[i]), bits('q', pads(m)[j])
                what = '%d(+%d) and %d(+%d) bits' % (n, pads(n)[i], m, pads(m)[j])
                eq('equality of ' + what, 'compare', '__eq__', a, p, b, q)
                eq('order of ' + what, 'order', '__lt__', a, p, b, q)
                eq('concatenation of ' + what, 'joined', '__add__', a, p, b, q)
                eq('prefix test of ' + what, 'starts', 'startswith', a, p, b, q)
                eq('common prefix of ' + what, 'common', 'common_prefix', a, p, b, q)
    for n in (0, 1, 8, 9):
        a, p = bits('a', n), bits('p', -n % 8)
        for what, y in (('a tuple', Tup([C(1)])), ('nothing', NONE), ('a number', C(1)), ('bytes', sym('b', 'bytes')), ('text', C('1'))):
            for op, site in (('==', '__eq__'), ('!=', '__eq__'), ('+', '__add__'), ('<', '__lt__'), ('startswith', 'startswith'), ('common_prefix', 'common_prefix')):
                eq('%d bits %s %s' % (n, op, what), 'other', site, a, p, C(op), y)
        for what, i in (('nothing', NONE), ('text', C('0')), ('bytes', C(b'0')), ('a tuple', Tup([C(0)]))):
            eq('index of %s into %d bits' % (what, n), 'wrong_index', '__getitem__', a, p, i)
        for op in ('set', 'del', 'attr'):
            out.append(Equiv('%s on %d bits' % (op, n), S + 'changed', S + 'changed_ref', full(a, p, C(op)), cfg={}, effects=False, site=B + '__slots__',
                             need_ret=False))
    return out
