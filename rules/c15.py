import itertools
from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *
from .c42 import bits, ops
from .c41 import values

SPECS = ['spec_c40', 'spec_c41', 'spec_c42']
METHOD = 'guarded-outcome tables of node construction, iteration, serialization and hashing over unknown values, keys, lengths and prefixes, ' \
         'against the children in order; digests are equal exactly when their messages are'
S = 'spec_c15.'
M = 'proofmarshal.mmr.MerkleMountainRange'
B = 'proofmarshal.merbinnertree.MerbinnerTree'


def obligations(P):
    out = []
    need(P, M)
    need(P, B)
    cfg = {'max_steps': 3000000, 'injective': True}

    def eq(name, fn, *vals, site=M):
        out.append(Equiv(name, S + fn, S + fn + '_ref', lambda run, P: list(vals), cfg=cfg, effects=False, site=site, K=80, Kt=80))
    T = P.thorough
    top = 9 if T else 6
    eq('leaf and empty node', 'leaf', sym('v', 'bytes'), site=M + '.LeafNodeClass')
    for n, m in itertools.product(range(top + 1), repeat=2):
        eq('a node over %d and %d values' % (n, m), 'joined', values(n), values(m, 'w'), site=M + '.InnerNodeClass')
        eq('a node over %d and %d values on the wire' % (n, m), 'on_wire', values(n), values(m, 'w'), site=M + '.InnerNodeClass')
        if n + m < (7 if T else 5):
            eq('%d and %d values: left and right' % (n, m), 'swapped', values(n), values(m, 'w'), site=M + '.InnerNodeClass')
            eq('%d and %d values: any length' % (n, m), 'lengths', values(n), values(m, 'w'), sym('n', 'int'), sym('m', 'int'), C(2 ** (63 if T and n + m < 2 else 42 if T or n + m == 0 else 21)), site=M + '.InnerNodeClass')
    for a, b, c, d in itertools.product(range(3 if T else 2), repeat=4):
        eq('%d and %d values, %d and %d values' % (a, b, c, d), 'children', values(a), values(b, 'w'), values(c, 'x'), values(d, 'y'), site=M + '.InnerNodeClass')
    for n in range(0, 4):
        for w in (1, 2, 3, 9):
            if n > 1 << w or n == 3 and w > 3:
                continue
            eq('%d keys of %d bits on the wire' % (n, w), 'tree_on_wire', ops(['put'] * n, w), site=B)
            if n > 1:
                eq('%d keys of %d bits: left and right' % (n, w), 'exchanged', ops(['put'] * n, w), site=B + '.InnerNodeClass')
                for p in range(w + 1 if w < 4 else 0):
                    if n < 3 or w < 3 or T:
                        eq('%d keys of %d bits: any prefix of %d bits' % (n, w, p), 'prefixes', ops(['put'] * n, w), bits('p', p), bits('q', p), site=B + '.InnerNodeClass')
                        eq('%d keys of %d bits: prefixes of %d and %d bits' % (n, w, p, p + 1), 'prefixes', ops(['put'] * n, w), bits('p', p), bits('q', p + 1), site=B + '.InnerNodeClass')
    for n, m in itertools.product(range(4), repeat=2):
        for w in (1, 2, 3):
            if n <= m and max(n, m) <= 1 << w and (n + m < 4 or n + m == 4 and w < (4 if T else 3) or T and n + m == 5 and w < 3):
                eq('%d and %d keys of %d bits' % (n, m, w), 'told_apart', ops(['put'] * n, w), ops(['put'] * m, w, 'l'), site=B)
    return out
