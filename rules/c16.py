from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import Tup
from .common import *

METHOD = 'outcome tables of every encoder and decoder of the consensus structures over symbolic field values, compared ' \
         'with an explicit byte layout'
S = 'spec_c16.'


def outpoint(n):
    return Tup([sym(n + '.hash', 'bytes'), sym(n + '.n', 'int')])


def txin(n):
    return Tup([outpoint(n + '.prevout'), sym(n + '.scriptSig', 'bytes'), sym(n + '.nSequence', 'int')])


def txout(n):
    return Tup([sym(n + '.nValue', 'int'), sym(n + '.scriptPubKey', 'bytes')])


def tx(n, a, b):
    return Tup([sym(n + '.nVersion', 'int'), Tup([txin('%s.vin%d' % (n, k)) for k in range(a)]),
                Tup([txout('%s.vout%d' % (n, k)) for k in range(b)]), sym(n + '.nLockTime', 'int')])


def header(n):
    return Tup([sym(n + '.nVersion', 'int'), sym(n + '.hashPrevBlock', 'bytes'), sym(n + '.hashMerkleRoot', 'bytes'),
                sym(n + '.nTime', 'int'), sym(n + '.nBits', 'int'), sym(n + '.nNonce', 'int')])


def block(n, shapes):
    return Tup([header(n), Tup([tx('%s.tx%d' % (n, k), a, b) for k, (a, b) in enumerate(shapes)])])


SHAPES = [
    ('outpoint', 'OUTPOINT', lambda: outpoint('o')),
    ('input', 'TXIN', lambda: txin('i')),
    ('output', 'TXOUT', lambda: txout('o')),
    ('tx_0_0', 'TX', lambda: tx('t', 0, 0)), ('tx_1_0', 'TX', lambda: tx('t', 1, 0)), ('tx_0_1', 'TX', lambda: tx('t', 0, 1)),
    ('tx_1_1', 'TX', lambda: tx('t', 1, 1)), ('tx_2_1', 'TX', lambda: tx('t', 2, 1)), ('tx_1_2', 'TX', lambda: tx('t', 1, 2)),
    ('tx_2_3', 'TX', lambda: tx('t', 2, 3)), ('tx_3_2', 'TX', lambda: tx('t', 3, 2)),
    ('header', 'HEADER', lambda: header('b')),
    ('block_0', 'BLOCK', lambda: block('b', [])), ('block_1', 'BLOCK', lambda: block('b', [(1, 1)])),
    ('block_2', 'BLOCK', lambda: block('b', [(1, 1), (2, 1)])), ('block_3', 'BLOCK', lambda: block('b', [(1, 1), (1, 0), (0, 1)])),
]
CLS = {'OUTPOINT': 'COutPoint', 'TXIN': 'CTxIn', 'TXOUT': 'CTxOut', 'TX': 'CTransaction', 'HEADER': 'CBlockHeader', 'BLOCK': 'CBlock'}


def obligations(P):
    out = []
    need(P, 'netlib.TX')
    for name, kind, shape in SHAPES:
        k = need(P, 'netlib.' + kind)
        site = 'bitcoin.core.' + CLS[kind]
        cases = [('encode', 'encode', 'encode_ref'), ('decode', 'decode', 'decode_ref'), ('decode_class', 'decode_class', 'decode_class_ref'),
                 ('get_hash', 'get_hash', 'hash_ref'), ('decoded_hash', 'decoded_hash', 'decoded_hash_ref')]
        if kind in ('OUTPOINT', 'TXIN', 'TXOUT', 'TX'):
            cases += [('encode_mutable', 'encode_mutable', 'encode_ref'), ('encode_copy', 'encode_copy', 'encode_copy_ref'),
                      ('decode_mutable', 'decode_mutable', 'decode_mutable_ref'), ('mutable_hash', 'mutable_hash', 'mutable_hash_ref')]
        for n, c, s in cases:
            out.append(Equiv('%s %s' % (name, n), S + c, S + s, (lambda run, P, k=k, shape=shape: [k, shape()]), site=site))
        out.append(Equiv('%s stream' % name, S + 'stream', S + 'stream_ref',
                         (lambda run, P, k=k, shape=shape: [k, shape(), sym('before', 'bytes'), sym('after', 'bytes')]), site=site))
        if kind == 'BLOCK':
            out.append(Equiv('%s get_header' % name, S + 'header_of_block', S + 'header_of_block_ref',
                             (lambda run, P, shape=shape: [shape()]), site=site))
    for name, kind, shape in SHAPES:
        if name not in ('input', 'output', 'tx_1_0', 'tx_0_1', 'tx_1_1', 'block_1'):
            continue
        k = need(P, 'netlib.' + kind)
        for how in ('encode', 'decode') + (('hash',) if kind == 'TX' else ()):
            out.append(Equiv('%s %s, scripts of any length' % (name, how), S + 'long_' + how, S + 'long_' + how + '_ref',
                             (lambda run, P, k=k, shape=shape: [k, shape()]), effects=False, site='bitcoin.core.' + CLS[kind]))
    B = 'bitcoin.core.serialize.'
    out.append(Equiv('varint write', S + 'write_varint', S + 'write_varint_ref', args(('n', 'int')), site=B + 'VarIntSerializer'))
    out.append(Equiv('varint read', S + 'read_varint', S + 'read_varint_ref', args(('buf', 'bytes')), site=B + 'VarIntSerializer'))
    for c in ('BytesSerializer', 'VarStringSerializer'):
        k = need(P, B + c)
        out.append(Equiv(c + ' write', S + 'write_bytes', S + 'write_bytes_ref', (lambda run, P, k=k: [k, sym('b', 'bytes')]), site=B + c))
        out.append(Equiv(c + ' read', S + 'read_bytes', S + 'read_bytes_ref', (lambda run, P, k=k: [k, sym('buf', 'bytes')]), site=B + c))
    out.append(Equiv('hash vector read', S + 'read_hashes', S + 'read_hashes_ref', args(('buf', 'bytes')), site=B + 'uint256VectorSerializer'))
    out.append(Equiv('int vector read', S + 'read_ints', S + 'read_ints_ref', args(('buf', 'bytes')), site=B + 'intVectorSerialzer'))
    for n in range(4):
        out.append(Equiv('hash vector write %d' % n, S + 'write_hashes', S + 'write_hashes_ref',
                         (lambda run, P, n=n: [Tup([sym('h%d' % k, 'bytes') for k in range(n)])]), site=B + 'uint256VectorSerializer'))
        out.append(Equiv('int vector write %d' % n, S + 'write_ints', S + 'write_ints_ref',
                         (lambda run, P, n=n: [Tup([sym('v%d' % k, 'int') for k in range(n)])]), site=B + 'intVectorSerialzer'))
    return out
