import itertools
from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c26

SPECS = ['spec_c26']
METHOD = 'outcome table of the evaluator over programs around every limit (script, item, opcode and stack size) and over all short ' \
         'programs of conditionals, with symbolic stacks, compared with a reference interpreter of the protocol'
IF, NOTIF, ELSE, ENDIF = 0x63, 0x64, 0x67, 0x68


def obligations(P):
    out = []
    need(P, c26.SE)
    cfg = c26.config(P)
    t = lambda name, ops, st: out.append(c26.table(P, name, 'run', ops, st, cfg))
    # control flow
    for n in range(1, 5):
        for ops in itertools.product((IF, NOTIF, ELSE, ENDIF, 0x74), repeat=n):
            t('conditionals ' + c26.show(ops), ops, 2)
    for ops in ([IF, ELSE, ELSE, 0x74, ENDIF], [IF, IF, 0x74, ENDIF, ENDIF], [IF, IF, ENDIF, 0x74, ENDIF, 0x75], [IF, 0x74, ELSE, 0x75, ENDIF, 0x76],
                [IF, NOTIF, 0x74, ELSE, 0x75, ENDIF, ELSE, 0x82, ENDIF], [IF, ELSE, IF, 0x74, ENDIF, ENDIF, 0x76], [NOTIF, IF, 0x74, ELSE, 0x76, ENDIF, ENDIF]):
        for n in (1, 2, 3, 4):
            t('conditionals %s on %d items' % (c26.show(ops), n), ops, n)
    for op in range(0x4f, 0x100):
        t('opcode 0x%02x in a branch' % op, [IF, op, ENDIF], 1 if op in (0xae, 0xaf) else 3)
        t('opcode 0x%02x in a branch that is not taken' % op, [0x51, NOTIF, op, ENDIF], 2)
        t('opcode 0x%02x in a branch of a branch that is not taken' % op, [0x51, IF, 0x51, NOTIF, op, ELSE, 0x74, ENDIF, ENDIF], 2)
    for op in (0x00, 0x01, 0x4b, 0x4c, 0x4d, 0x4e):
        d = C(b'\x09' * (op if op < 0x4c else 5))
        t('push 0x%02x in a branch' % op, [IF, (op, d), ELSE, 0x74, ENDIF], 2)
    # item size
    for op, sizes in ((0x4d, (519, 520, 521, 600)), (0x4e, (519, 520, 521, 65535))):
        for n in sizes:
            d = C(b'\x09' * n)
            t('push 0x%02x of %d bytes' % (op, n), [(op, d)], 1)
            t('push 0x%02x of %d bytes in a branch' % (op, n), [IF, (op, d), ENDIF], 1)
            t('push 0x%02x of %d bytes in a branch that is not taken' % (op, n), [0x51, NOTIF, (op, d), ENDIF], 1)
    # script size
    for extra in (0, 1, 2):
        ops = [(0x4d, C(b'\x07' * 497))] * 20 + [0x51] * extra
        t('script of %d bytes' % (10000 + extra), ops, 0)
    for n in (0, 1):
        out.append(Equiv('any script of more than 10000 bytes on %d items' % n, c26.S + 'long_script', c26.S + 'long_script_ref',
                         lambda run, P, n=n: [sym('data', 'bytes'), c26.stack(n), sym('tx', sort_of(P, 'CTransaction')), sym('idx', 'uint')],
                         cfg=cfg, effects=False, need_ret=False, site=c26.SE))
    # operation count
    for n in (200, 201, 202):
        for op in (0x61, 0xb9):
            t('%d of opcode 0x%02x' % (n, op), [op] * n, 1)
        t('%d operations and 100 pushes' % n, [0x61] * n + [0x51, 0x60, 0x4f, (1, C(b'\x07'))] * 25, 1)
        t('%d operations, most in a branch that is not taken' % n, [0x51, NOTIF] + [0xba] * (n - 2) + [ENDIF], 1)
        t('%d operations, most reserved words in a branch that is not taken' % n, [0x51, NOTIF] + [0x50] * 50 + [0x61] * (n - 2) + [ENDIF], 1)
        t('%d operations within a branch' % n, [0x51, IF] + [0x76, 0x75] * ((n - 2) // 2) + [0x61] * (n % 2) + [ENDIF], 1)
    one = C(b'\x01')
    for n, k in ((198, 3), (199, 3), (199, 4), (200, 4)):
        for multi in (0xae, 0xaf):
            t('opcode 0x%02x after %d operations on %d items' % (multi, n, k), [0x61] * n + [multi], k)
    # key and signature counts
    num = lambda n: C(b'' if not n else bytes([n]) if n > 0 else bytes([-n | 0x80]))
    key = C(b'\x02' * 33)
    for multi in (0xae, 0xaf):
        for n in (0, 1, 19, 20, 21, 22, 40, -1):
            t('opcode 0x%02x with %d keys' % (multi, n), [multi], Tup([C(b''), num(0)] + [key] * max(n, 0) + [num(n)]))
        for n, s in ((20, -1), (20, 21), (3, 4), (0, 1), (1, 2), (19, 20)):
            t('opcode 0x%02x with %d keys and %d signatures' % (multi, n, s), [multi], Tup([C(b'')] * (max(s, 0) + 1) + [num(s)] + [key] * n + [num(n)]))
        for n, ops in ((20, 180), (20, 181), (2, 198), (2, 199), (1, 199), (1, 200)):
            t('opcode 0x%02x with %d keys after %d operations' % (multi, n, ops), [0x61] * ops + [multi], Tup([C(b''), num(0)] + [key] * n + [num(n)]))
        for n, ops in ((20, 8), (20, 9), (20, 10)):
            t('%d times opcode 0x%02x with %d keys' % (ops, multi, n),
              ([(0, C(b''))] * 2 + [(33, key)] * n + [(1, num(n)), multi] + ([0x75] if multi == 0xae else [])) * ops, 1)
    # stack size
    full = lambda n: Tup([C(b'')] * n)
    for n in (998, 999, 1000, 1001):
        t('push on %d items' % n, [0x51], full(n))
        t('push of data on %d items' % n, [(1, one)], full(n))
        t('copy on %d items' % n, [0x76], full(n))
        t('three copies on %d items' % n, [0x6f], full(n))
        t('drop on %d items' % n, [0x75], full(n))
        t('two drops on %d items' % n, [0x6d], full(n))
        t('move to the alternate stack and push on %d items' % n, [0x6b, (1, one), 0x6b, 0x6b, 0x51], full(n))
        t('push of data after a move to the alternate stack on %d items' % n, [0x6b, (1, one), (1, one)], full(n))
        t('push and drop on %d items' % n, [0x51, 0x75], full(n))
        t('push of data and drop on %d items' % n, [(1, one), 0x75], full(n))
        t('push in a branch that is not taken on %d items' % n, [0x51, NOTIF, (1, one), ENDIF], full(n))
        t('condition on %d items' % n, [IF, 0x51, ELSE, 0x51, ENDIF], full(n))
    # operand size
    for op in (0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x94, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0x79, 0x7a, 0xae, 0xaf):
        for w in (4, 5):
            big = C(b'\x01' * w)
            t('opcode 0x%02x on three operands of %d bytes' % (op, w), [op], Tup([big] * 3))
            t('opcode 0x%02x with a last operand of %d bytes' % (op, w), [op], Tup([one, one, big]))
            t('opcode 0x%02x with a last but one operand of %d bytes' % (op, w), [op], Tup([one, big, one]))
            t('opcode 0x%02x with a first operand of %d bytes' % (op, w), [op], Tup([big, one, one]))
    return out
