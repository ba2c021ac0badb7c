import itertools
from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c26

SPECS = ['spec_c26']
METHOD = 'outcome table of every opcode over symbolic stacks of every depth from empty to more than it needs: the missing-arguments error ' \
         'exactly when the reference says items are missing, an evaluation error or success otherwise, and no other exception'


def obligations(P):
    out = []
    need(P, c26.SE)
    cfg = c26.config(P)
    for op in range(0x4f, 0x100):
        for n in range(0, c26.depth(op) + 1):
            out.append(c26.table(P, 'opcode 0x%02x on %d items' % (op, n), 'arguments', [op], n, cfg))
    TO, FROM = c26.TO, c26.FROM
    for k in range(0, 4):
        for n in range(0, 4):
            for m in range(0, 4):
                ops = [TO] * k + [FROM] * m
                out.append(c26.table(P, '%d items, %d to the alternate stack and %d back' % (n, k, m), 'arguments', ops, n, cfg))
    for op in range(0x4f, 0x100):
        if op in (0xae, 0xaf):
            continue
        for pre in ([TO], [0x51, 0x63], [0x75]):
            for n in range(0, 4):
                out.append(c26.table(P, 'opcode 0x%02x after %s on %d items' % (op, c26.show(pre), n), 'arguments',
                                     pre + [op] + ([0x68] if 0x63 in pre else []), n, cfg))
    return out
