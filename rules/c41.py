from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *

METHOD = 'guarded-outcome tables of every operation on mountain ranges of up to 20 (thorough: 40) unknown values, against the same operation on ' \
         'the list of the values and the documented shape for that length'
S = 'spec_c41.'
M = 'proofmarshal.mmr.MerkleMountainRange'


def values(n, name='v'):
    return Tup([sym('%s%d' % (name, i), 'bytes') for i in range(n)])


def obligations(P):
    out = []
    need(P, M)

    def eq(name, fn, *vals, site=M, need_ret=True):
        out.append(Equiv(name, S + fn, S + fn + '_ref', lambda run, P: list(vals), cfg={'max_steps': 3000000}, effects=False, site=site, K=80, Kt=80, need_ret=need_ret))
    top, cut = (40, 16) if P.thorough else (20, 9)
    for n in list(range(top + 1)) + [31, 32, 33]:
        eq('%d values' % n, 'built', values(n))
        eq('every index into %d values' % n, 'indexed', values(n))
    eq('growth to %d values' % top, 'grown', values(top))
    for n in range(top + 1):
        for cuts in sorted({(), (n // 2,), (1,), (n - 1,), (n // 3, 2 * n // 3), (0, n), (1, 2, 3), tuple(range(0, n, 3))}):
            if all(0 <= c <= n for c in cuts):
                eq('%d values in pieces %s' % (n, cuts), 'extended', values(n), Tup([C(c) for c in cuts]))
    for n in range(cut + 1):
        eq('out of range of %d values' % n, 'out_of_range', values(n), sym('i', 'int'), need_ret=False)
        if n < (5 if P.thorough else 4):
            eq('any slice of %d values' % n, 'any_slice', values(n), sym('i', 'int'), sym('j', 'int'))
            eq('any slice of %d values from an index' % n, 'any_slice', values(n), sym('i', 'int'), NONE)
            eq('any slice of %d values to an index' % n, 'any_slice', values(n), NONE, sym('j', 'int'))
        for i in list(range(-n - 2, n + 3)) + [None]:
            eq('slices of %d values from %s' % (n, i), 'sliced', values(n), C(i))
    for n in (0, 1, 2, 3, 5):
        for what, i in (('nothing', NONE), ('text', C('0')), ('bytes', sym('b', 'bytes')), ('a tuple', Tup([C(0)]))):
            eq('index of %s into %d values' % (what, n), 'wrong', values(n), i, need_ret=False)
        for what, i in (('text', C('0')), ('bytes', sym('b', 'bytes')), ('a tuple', Tup([C(0)]))):
            eq('slice from %s of %d values' % (what, n), 'wrong_slice', values(n), i, NONE, NONE, need_ret=False)
            eq('slice to %s of %d values' % (what, n), 'wrong_slice', values(n), NONE, i, NONE, need_ret=False)
            eq('slice by %s of %d values' % (what, n), 'wrong_slice', values(n), NONE, NONE, i, need_ret=False)
        for i in (-1, 0, 1):
            for op in ('set', 'del'):
                if n:
                    eq('%s %d of %d values' % (op, i, n), 'assigned', values(n), C(i), C(op), need_ret=False)
    return out
