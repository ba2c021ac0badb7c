import itertools
from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c16, c21, c22, c26, c27, c29

SPECS = ['spec_c26', 'spec_c27', 'spec_c29', 'spec_c20']
METHOD = 'exception flow: the classes of exception that leave script evaluation and verification, signature verification and the transaction, ' \
         'header and block checks, over the whole partition of their inputs by the abstract interpreter'
S = 'spec_c23.'
SE = 'bitcoin.core.scripteval.'
TAILS = (b'\x01', b'\x05\x01', b'\x4b', b'\x4c', b'\x4c\x01', b'\x4c\xff\x01', b'\x4d', b'\x4d\x01', b'\x4d\x01\x00', b'\x4d\xff\xff\x00', b'\x4e', b'\x4e\x01\x00\x00',
         b'\x4e\x01\x00\x00\x00', b'\x4e\xff\xff\xff\xff\x01')
NUMERIC = [o for o in range(0x8b, 0xa6)] + [0x79, 0x7a]
ODD = (b'', b'\x00', b'\x80', b'\x00\x80', b'\x01', b'\x81', b'\xff', b'\x00\x00\x00\x80', b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff', b'\x00' * 4, b'\x00' * 5, b'\x80' * 5, b'\xff' * 520)


def obligations(P):
    out = []
    need(P, SE + 'EvalScript')
    cfg = c26.config(P)
    plain = {k: v for k, v in cfg.items()}
    plain['opaque'] = {k: v for k, v in cfg['opaque'].items() if '_bignum' not in k}
    tx, idx = sym('tx', sort_of(P, 'CTransaction')), sym('idx', 'uint')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])

    def eq(name, fn, *vals, site, cfg=cfg, ref='some_ref'):
        out.append(Equiv(name, S + fn, S + ref, inp(*vals), cfg=cfg, effects=False, site=site))
    ev = SE + 'EvalScript'
    none = C(b'')
    # every opcode
    for op in range(0x4f, 0x100):
        for n in range(0, c26.depth(op) + 1):
            eq('opcode 0x%02x on %d items' % (op, n), 'evaluate', c26.prog(op), none, c26.stack(n), tx, idx, site=ev)
        for i, t in enumerate(TAILS):
            eq('opcode 0x%02x and a push cut off, %s' % (op, t.hex()), 'evaluate', c26.prog(op), C(t), c26.stack(2), tx, idx, site=ev)
        eq('opcode 0x%02x in a branch, cut off' % op, 'evaluate', c26.prog(0x63, op), C(b'\x4c'), c26.stack(3), tx, idx, site=ev)
    # signature checks over scripts which cannot be parsed to their end
    for op in (0xac, 0xad, 0xae, 0xaf):
        for st in range(0, 6):
            for i, t in enumerate(TAILS[:8] + (b'\xab\x4c', b'\xac\x02\x01')):
                eq('opcode 0x%02x on %d items in a script cut off, %s' % (op, st, t.hex()), 'evaluate', c26.prog(op), C(t), c26.stack(st), tx, idx, site=ev)
        keys = lambda k, m: Tup([C(b'')] + [sym('sig%d' % i, 'bytes') for i in range(m)] + [C(bytes([m]) if m else b'')] +
                                [sym('key%d' % i, 'bytes') for i in range(k)] + [C(bytes([k]) if k else b'')])
        if op >= 0xae:
            for k in range(0, 4):
                for m in range(0, k + 2):
                    for t in (b'', b'\x4c', b'\x02\x01', b'\xab\x4d'):
                        eq('%d of %d signatures, opcode 0x%02x, ending %s' % (m, k, op, t.hex() or 'well'), 'evaluate', c26.prog(op), C(t), keys(k, m), tx, idx,
                           site=ev, cfg=plain)
    # pushes of every size, cut off
    for name, t in c29.cuts():
        if name != 'whole':
            for ops in ((), (0x61,), (0x51, 0x63), (0x00, 0x63), (0x76, 0xac), (0x63,)):
                eq('%s after %s' % (name, c26.show(ops)), 'evaluate_cut', c26.prog(*ops), t, c26.stack(2), tx, idx, site=ev)
    for n in range(0, 3):
        for lo, hi in ((0, 256),) if n < 2 else [(i, i + 1) for i in range(0, 256)] if P.thorough else ():
            eq('any script of %d bytes from %02x to %02x' % (n, lo, hi - 1), 'evaluate_bytes', sym('data', 'bytes'), C(n), C(lo), C(hi), c26.stack(3), tx, idx, site=ev)
    eq('any script of more than 10000 bytes', 'evaluate_long', sym('data', 'bytes'), c26.stack(1), tx, idx, site=ev)
    # numbers as they are
    for op in NUMERIC:
        for n in (1, 2, 3):
            for size in range(0, 6 if n == (1 if op in range(0x8b, 0x93) else 3 if op == 0xa5 else 2) else 2):
                eq('opcode 0x%02x on %d numbers of %d bytes' % (op, n, size), 'evaluate_sized', c26.prog(op), none, c26.stack(n), Tup([C(size)] * n), tx, idx,
                   site=ev, cfg=plain)
    for op in NUMERIC + [0xae, 0xaf, 0x63, 0x64, 0x69, 0x73]:
        for a in ODD:
            for b in ODD if op not in (0xa5, 0xae, 0xaf) else ODD[:6]:
                st = [C(b''), C(a), C(b)] if op < 0xa5 else [C(a), C(b), C(a)]
                eq('opcode 0x%02x on %s and %s' % (op, a[:6].hex(), b[:6].hex()), 'evaluate', c26.prog(op), none, Tup(st), tx, idx, site=ev, cfg=plain)
    # conditionals
    for n in range(1, 4):
        for ops in itertools.product((0x63, 0x64, 0x67, 0x68, 0x51), repeat=n):
            eq('conditionals ' + c26.show(ops), 'evaluate', c26.prog(*ops), none, c26.stack(1), tx, idx, site=ev)
    # verification
    site = SE + 'VerifyScript'
    v = c27.evaluation(P)
    for names in ((), ('STRICTENC',), ('NOCACHE', 'EVEN_S')):
        eq('any two scripts with flags %s' % '+'.join(names), 'verify_any', sym('sig', 'bytes'), sym('pub', 'bytes'), tx, idx, Tup([C(n) for n in names]), site=site,
           cfg=v)
    h160 = (20, sym('hash', 'bytes'))
    hashed = [0xa9, (20, C(b'\x07' * 20)), 0x87]
    scripts = [[], [0x00], [0x51], [0x51, 0x51], [0x6a], [0xac], [0x76], [0x61], [0x00, 0x51], [(1, C(b'\x80'))], hashed, [0x51, 0x76, 0xa9]]
    for names in ((), ('P2SH',)):
        for a in scripts:
            for b in scripts:
                for t in ((b'', b''), (b'\x4c', b''), (b'', b'\x02')):
                    eq('script %s%s against %s%s, flags %s' % (c26.show(a), ' cut off' if t[0] else '', c26.show(b), ' cut off' if t[1] else '', '+'.join(names)),
                       'verify', c26.prog(*a), c26.prog(*b), Tup([C(x) for x in t]), tx, idx, Tup([C(n) for n in names]), site=site,
                       cfg=plain)
    site = SE + 'VerifySignature'
    ver = c27.verification(P)
    for mutable in (False, True):
        for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 2), (3, 1), (1, 3)):
            eq('spend of %d outputs by %d %sinputs' % (b, a, 'mutable ' if mutable else ''), 'spend', lambda b=b: c16.tx('f', 1, b),
               lambda a=a: c16.tx('t', a, 1), sym('idx', 'int'), C(mutable), site=site, cfg=ver)
    # transactions
    site = 'bitcoin.core.CheckTransaction'
    for m in (False, True):
        for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1)):
            eq('%stransaction of %d inputs and %d outputs' % ('mutable ' if m else '', a, b), 'transaction_any', lambda a=a, b=b: c16.tx('t', a, b), C(m),
               site=site, cfg={})
        for ops in ((), (0x51, 0x51), (0xac,), (0xff, 0xff)):
            for t in (b'', b'\x4c', b'\x4e\x01', b'\x05\x01'):
                eq('%stransaction of scripts %s ending %s' % ('mutable ' if m else '', c26.show(ops), t.hex() or 'well'), 'transaction', lambda: c16.tx('t', 1, 1),
                   c26.prog(*ops), C(t), C(m), site=site, cfg={})
    site = 'bitcoin.core.script.CScript.GetSigOpCount'
    for n in range(0, 3):
        eq('operations of any script of %d bytes' % n, 'count_bytes', sym('data', 'bytes'), C(n), site=site, cfg={})
    for op in range(0x4f, 0x100):
        for ops in ((op,), (op, 0xae), (op, 0xac), (0xae, op)):
            eq('operations of %s' % c26.show(ops), 'count', c26.prog(*ops), NONE, site=site, cfg={})
    for name, t in c29.cuts():
        for ops in ((), (0xae,), (0x51, 0xae), (0x61, 0xac)):
            eq('operations of %s, %s' % (c26.show(ops), name), 'count', c26.prog(*ops), t, site=site, cfg={})
    # blocks
    site = 'bitcoin.core.CheckBlock'
    c = c22.cfg(P)
    easy = {'opaque': {'bitcoin.core.CheckProofOfWork': 'none'}, 'may_raise': {'bitcoin.core.CheckProofOfWork': c['may_raise']['bitcoin.core.CheckProofOfWork']},
            'vocabulary': ('bitcoin.core.CheckProofOfWork',)}
    for s in ([], [(1, 1)], [(0, 1)], [(1, 0)], [(1, 1), (1, 1)], [(1, 1), (2, 1)]):
        for work in (True, False):
            for merkle in (True, False):
                eq('block of %s, work check %s, root check %s' % (s, work, merkle), 'block_any', lambda s=s: c16.block('b', s), C(work), C(merkle), site=site, cfg=c)
    for where in ('in', 'out'):
        for op in range(0x4f, 0x100):
            eq('block with opcode 0x%02x in an %sput' % (op, where), 'block', lambda: c16.block('b', [(1, 1)]), c26.prog(op, 0xae), NONE, C(where), site=site, cfg=easy)
        for name, t in c29.cuts(True):
            for ops in ((), (0x51,), (0xac,), (0xae,)):
                eq('block with %s in an %sput, %s' % (c26.show(ops), where, name), 'block', lambda: c16.block('b', [(1, 1)]), c26.prog(*ops), t, C(where), site=site,
                   cfg=easy)
    site = 'bitcoin.core.CheckBlockHeader'
    for chain in ('mainnet', 'testnet', 'regtest'):
        for e in range(256):
            if chain == 'mainnet' or e in (0, 1, 2, 3, 4, 29, 32, 33, 34, 128, 255):
                eq('header of exponent %d on %s' % (e, chain), 'header', C(chain), lambda: c16.header('b'), C(e), sym('m', 'int'), site=site, cfg={})
    return out
