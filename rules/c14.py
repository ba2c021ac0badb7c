import itertools
from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *
from .c42 import bits, ops, known

SPECS = ['spec_c40', 'spec_c42']
METHOD = 'guarded-outcome tables of node construction, descent, lookup and the subset test on trees of up to three (thorough: four) unknown keys, ' \
         'against the longest common prefix, the next bit and the list of pairs'
S = 'spec_c14.'
M = 'proofmarshal.merbinnertree.MerbinnerTree'


def obligations(P):
    out = []
    need(P, M)
    cfg = {'max_steps': 3000000, 'injective': True}

    def eq(name, fn, *vals, site=M, need_ret=True):
        out.append(Equiv(name, S + fn, S + fn + '_ref', lambda run, P: list(vals), cfg=cfg, effects=False, site=site, K=80, Kt=80, need_ret=need_ret))
    T = P.thorough
    for n, m, w in [(1, 1, 1), (1, 1, 2), (1, 1, 3), (1, 1, 9), (1, 2, 2), (2, 1, 2), (1, 2, 3), (2, 1, 3), (2, 2, 2)] + ([(2, 2, 3), (1, 3, 3), (3, 1, 3)] if T else []):
        eq('a node over %d and %d keys of %d bits' % (n, m, w), 'node', ops(['put'] * n, w), ops(['put'] * m, w, 'l'), site=M + '.InnerNodeClass')
    for n in (1, 2):
        for what, x in (('nothing', NONE), ('bytes', sym('b', 'bytes')), ('a number', sym('i', 'int')), ('text', C('x')), ('a tuple', Tup([])),
                        ('another tree', C('other tree')), ("another tree's inner node", C('other inner node')), ('bits', C('bits')), ('the class', C('class'))):
            for where in ('first', 'second', 'both'):
                eq('%d keys: %s as %s child' % (n, what, where), 'refused', ops(['put'] * n, 2), x, C(where), site=M + '.InnerNodeClass', need_ret=False)
    for n, m in itertools.product(range(4), repeat=2):
        for w in (1, 2, 3):
            if n + m > (5 if T else 4) or max(n, m) > 1 << w or n + m == 4 and w > (3 if T else 2) or n + m == 5 and w > 2 or n > m:
                continue
            eq('%d keys within %d keys of %d bits' % (n, m, w), 'subset', ops(['put'] * n, w), ops(['put'] * m, w, 'l'), site=M + '.issubset')
    space = [''.join(x) for x in itertools.product('01', repeat=3)]
    sets = [s for r in range(0, 5) for s in itertools.combinations(space, r)]
    for i, a in enumerate(sets):
        for j, b in enumerate(sets):
            if (i * 31 + j) % (7 if T else 23) == 0 or set(a) < set(b) and (i + j) % (2 if T else 6) == 0:
                eq('%s within %s' % (' '.join(a) or 'nothing', ' '.join(b) or 'nothing'), 'subset', known(['put'] * len(a), a),
                   Tup([Tup([op, k, sym('k%d value' % space.index(b[n]), 'bytes')]) for n, (op, k) in enumerate((x.items[0], x.items[1]) for x in known(['put'] * len(b), b).items)]),
                   site=M + '.issubset')
    for n in (0, 1, 2):
        for what in ('other tree', 'other inner node', 'bits', 'text'):
            eq('%d keys within %s' % (n, what), 'foreign_subset', ops(['put'] * n, 2), C(what), site=M + '.issubset', need_ret=False)
    for n in range(0, 4):
        for w in (2, 3, 4):
            if n == 3 and w > (4 if T else 3):
                continue
            eq('%d keys of %d bits placed by two' % (n, w), 'short', ops(['put'] * n, w), bits('l', w), site=M + '.__getitem__')
    for n in range(0, 5 if T else 4):
        for w in (1, 2, 3, 9):
            if n >= 3 and w > 3 or n > 1 << w or n == 4 and w > 2:
                continue
            eq('path among %d keys of %d bits' % (n, w), 'path', ops(['put'] * n, w), bits('l', w), site=M + '.descend')
    return out
