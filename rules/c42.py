import itertools
from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *

SPECS = ['spec_c40']
METHOD = 'guarded-outcome tables of every sequence of up to five insertions and removals with unknown keys and values, against a list of pairs and ' \
         'the documented shape for those pairs'
S = 'spec_c42.'
M = 'proofmarshal.merbinnertree.MerbinnerTree'


def bits(name, n):
    return Tup([mk('bit', C(name), C(i), sort='int') for i in range(n)])


def ops(kinds, w, name='k'):
    return Tup([Tup([C(op), bits('%s%d' % (name, i), w), sym('%s%d value' % (name, i), 'bytes')]) for i, op in enumerate(kinds)])


def known(kinds, keys):
    return Tup([Tup([C(op), Tup([C(int(b)) for b in k]), sym('k%d value' % i, 'bytes')]) for i, (op, k) in enumerate(zip(kinds, keys))])


def obligations(P):
    out = []
    need(P, M)
    cfg = {'max_steps': 3000000, 'injective': True}

    def eq(name, fn, *vals, site=M):
        out.append(Equiv(name, S + fn, S + fn + '_ref', lambda run, P: list(vals), cfg=cfg, effects=False, site=site, K=80, Kt=80))
    top = 6 if P.thorough else 5
    for n in range(0, top + 1):
        for kinds in itertools.product(('put', 'remove'), repeat=n):
            # removals at the start, or in a row, find nothing new
            if n > 2 and (kinds[0] == 'remove' or n > 4 and kinds[:2] != ('put', 'put') or n > 4 and not P.thorough and kinds.count('remove') != 1):
                continue
            for w in {0: (1,), 1: (1, 3, 9), 2: (1, 2, 3, 9), 3: (1, 2, 3), 4: (2,)}.get(n, (2,)) + ((3,) if P.thorough and n == 4 else ()):
                eq('%s with keys of %d bits' % (', '.join(kinds) or 'nothing', w), 'history', ops(kinds, w), site=M + '.remove' if 'remove' in kinds else M + '.put')
    # known keys: every set of keys of 3 bits, in several orders, and one removed
    space = [''.join(x) for x in itertools.product('01', repeat=3)]
    for r in range(0, 9):
        for n, keys in enumerate(itertools.combinations(space, r)):
            order = list(keys)[::-1] if n % 3 == 0 else list(keys)[n % 2::2] + list(keys)[1 - n % 2::2] if n % 3 == 1 else list(keys)
            eq('keys %s' % ' '.join(order), 'history', known(['put'] * r, order), site=M + '.put')
            if r > 2:
                eq('keys %s, and any of them removed' % ' '.join(order), 'history',
                   Tup(list(known(['put'] * r, order).items) + [Tup([C('remove'), bits('r', 3), sym('x', 'bytes')])]), site=M + '.remove')
    for n in range(0, 4):
        for w in (1, 2, 3, 5):
            if n == 3 and w > 3 or n > 1 << w:
                continue
            kinds = ['put'] * n
            eq('%d pairs with keys of %d bits: construction' % (n, w), 'construction', ops(kinds, w), site=M + '.__new__')
            eq('%d pairs with keys of %d bits: lookup' % (n, w), 'lookup', ops(kinds, w), bits('l', w), site=M + '.__getitem__')
            eq('%d pairs with keys of %d bits: another order' % (n, w), 'reordered', ops(kinds, w), site=M + '.put')
            if n < 3 and w < 4 or n == 3 and w == (3 if P.thorough else 2):
                eq('%d pairs with keys of %d bits: put and removed' % (n, w), 'undone', ops(kinds, w), bits('u', w), sym('uv', 'bytes'), site=M + '.remove')
            if n < 3 or w < 3:
                for op in ('put', 'remove', 'get'):
                    eq('%d pairs with keys of %d bits: left alone by %s' % (n, w, op), 'unchanged', ops(kinds, w), C(op), bits('u', w), sym('uv', 'bytes'), site=M)
    for n, w in ((0, 2), (1, 2), (1, 4), (2, 2), (2, 3), (3, 3)):
        for op in ('get', 'remove'):
            eq('%d keys of %d bits, of which the last does not count: %s' % (n, w, op), 'shared', ops(['put'] * n, w), C(op), bits('u', w),
               site=M + ('.remove' if op == 'remove' else '.__getitem__'))
    return out
