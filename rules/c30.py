from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c29, c32

METHOD = 'outcome tables of the text, script and key constructors of addresses over arbitrary decoded bytes, versions, scripts and library ' \
         'answers on every chain, compared with a reference of prefixes, checksums and script forms'
ASSUMPTIONS = ['base58 itself is an uninterpreted pair of functions of text and bytes, decoding of which may fail; ' + c32.ASSUMPTIONS[0]]
S = 'spec_c30.'
B = 'bitcoin.base58.'
W = 'bitcoin.wallet.'
SPECS = ['ssllib', 'spec_c29']
CHAINS = ('mainnet', 'testnet', 'regtest')
prepare = c32.prepare

KEYHASH = [0x76, 0xa9, (1, 20), 0x88, 0xac]
PROGRAMS = [KEYHASH] + [[0x76, 0xa9, (f, 20), 0x88, 0xac] for f in (0x4c, 0x4d, 0x4e)]
PROGRAMS += [[0x76, 0xa9, (1, n), 0x88, 0xac] for n in (0, 19, 21)] + [[0x76, 0xa9, (1, 20), 0x88], [0x76, 0xa9, (1, 20), 0x88, 0xac, 0x61]]
PROGRAMS += [KEYHASH[:i] + [o] + KEYHASH[i + 1:] for i, o in ((0, 0x77), (1, 0xaa), (1, 0xa8), (3, 0x87), (4, 0xad), (4, 0xae))]
PROGRAMS += [[(1, 33), 0xac]] + [[(f, 33), 0xac] for f in (0x4c, 0x4d, 0x4e)] + [[(1, n), 0xac] for n in (0, 20, 32, 34, 64)] + \
    [[(1, 33), 0xad], [(1, 33), 0xae], [(1, 33)], [(1, 33), (1, 1)], [(0x4c, 80), 0xac]]
PROGRAMS += [[(1, 64), 0xac], [(1, 66), 0xac], [(1, 65), 0xad], [(1, 65)]]
PROGRAMS += [[0xa9, (f, 20), 0x87] for f in (1, 0x4c, 0x4d, 0x4e)] + [[0xa9, (1, 19), 0x87], [0xa9, (1, 21), 0x87], [0xa8, (1, 20), 0x87], [0xaa, (1, 20), 0x87],
                                                                       [0xa9, (1, 20), 0x88], [0xa9, (1, 20)], [0x61, 0xa9, (1, 20), 0x87]]
PROGRAMS += [[], [0x51], [0x6a, (1, 20)]]
# the length of a template, filled with other pushes and operations
PROGRAMS += [[0x76, 0xa9, (1, 19), 0x61, 0x88, 0xac], [0x76, 0xa9, (1, 19), (1, 1), 0xac], [0x76, 0xa9, 0x61, (1, 19), 0x88, 0xac],
             [0x76, 0xa9, (1, 9), (1, 10), 0x88, 0xac], [(1, 32), 0x61, 0xac], [0x61, (1, 32), 0xac], [(1, 16), (1, 16), 0xac], [(1, 33), 0x61],
             [0xa9, (1, 19), 0x61, 0x87], [0xa9, 0x61, (1, 19), 0x87], [(1, 64), 0x61, 0xac], [(1, 32), (1, 32), 0xac], [0xa9, (1, 9), (1, 10), 0x87]]
BARE = [(1, 65), 0xac]


def obligations(P):
    out = []
    need(P, W + 'CBitcoinAddress')
    cfg = {'opaque': {B + 'decode': 'bytes', B + 'encode': 'str'}, 'vocabulary': (B + 'decode', B + 'encode'),
           'may_raise': {B + 'decode': [need(P, B + 'InvalidBase58Error')]}}
    d, s, v, b = sym('d', 'bytes'), sym('s', 'str'), sym('version', 'int'), sym('b', 'bytes')

    def eq(name, fn, *vals, site, need_ret=True):
        out.append(Equiv(name, S + fn, S + fn + '_ref', lambda run, P: [x() if callable(x) else x for x in vals], cfg=cfg, effects=False, site=site,
                         need_ret=need_ret))
    for chain in CHAINS:
        c = C(chain)
        for cls, where in (('data', B + 'CBase58Data'), ('address', W + 'CBitcoinAddress'), ('hash of key', W + 'P2PKHBitcoinAddress'),
                           ('hash of script', W + 'P2SHBitcoinAddress')):
            eq('%s of text on %s' % (cls, chain), 'text', c, C(cls), s, site=where + '.__new__')
            eq('%s of data and version on %s' % (cls, chain), 'data', c, C(cls), d, v, site=where + '.from_bytes')
            if cls.startswith('hash'):
                eq('%s of data on %s' % (cls, chain), 'default', c, C(cls), d, site=where + '.from_bytes')
                eq('%s to a script and back on %s' % (cls, chain), 'there_and_back', c, C(cls), d, site=where + '.to_scriptPubKey')
                for other in CHAINS:
                    eq('script of a %s of %s on %s' % (cls, chain, other), 'moved', c, C(other), C(cls), d, site=where + '.to_scriptPubKey',
                       need_ret=chain == other)
        for inv in (True, False):
            for made in (True, False):
                eq('address of a public key%s%s on %s' % (' object' if made else '', ', good or not' if inv else '', chain), 'from_pubkey', c, b, C(inv), C(made),
                   site=W + 'P2PKHBitcoinAddress.from_pubkey')
        eq('address of a redeem script on ' + chain, 'redeem', c, b, site=W + 'P2SHBitcoinAddress.from_redeemScript')
        eq('secret of text on ' + chain, 'secret_text', c, s, site=W + 'CBitcoinSecret.__init__')
        for comp in (C(True), C(False), NONE):
            eq('secret of bytes%s on %s' % ({C(True): ', compressed', C(False): ', not compressed'}.get(comp, ''), chain), 'secret_bytes', c, d, comp,
               site=W + 'CBitcoinSecret.from_secret_bytes')
    for chain in CHAINS[:2]:
        c = C(chain)
        for p in PROGRAMS:
            ways = [('hash of key', loose, bare) for loose in (True, False) for bare in (True, False)] + [('address', True, True), ('hash of script', True, True)]
            for cls, loose, bare in ways if chain == 'mainnet' else ways[-2:] + ways[:1]:
                for t, what in ((NONE, ''), (lambda: c29.push(1, 5, sym('rest', 'bytes')), ', cut off'), (C(b'\x4d\x01'), ', cut off in a size')):
                    if what and (chain != 'mainnet' or p not in ([], KEYHASH, [(1, 33), 0xac], [0xa9, (1, 20), 0x87])):
                        continue
                    eq('%s of script %s%s%s%s on %s' % (cls, c29.show(p), what, ', pushes as they are' if not loose else '', ', no bare keys' if not bare else '', chain),
                       'from_script', c, C(cls), lambda p=p: c29.prog(p), t, C(loose), C(bare), site=W + CLASS[cls] + '.from_scriptPubKey', need_ret=False)
        eq('class of a bare uncompressed key on ' + chain, 'bare_kind', c, lambda: c29.prog(BARE), site=W + 'P2PKHBitcoinAddress.from_scriptPubKey')
    eq('bare uncompressed key', 'from_script', C('mainnet'), C('hash of key'), lambda: c29.prog(BARE), NONE, C(True), C(True),
       site=W + 'P2PKHBitcoinAddress.from_scriptPubKey')
    eq('bare uncompressed key, no bare keys', 'from_script', C('mainnet'), C('hash of key'), lambda: c29.prog(BARE), NONE, C(True), C(False),
       site=W + 'P2PKHBitcoinAddress.from_scriptPubKey', need_ret=False)
    return out


CLASS = {'address': 'CBitcoinAddress', 'hash of key': 'P2PKHBitcoinAddress', 'hash of script': 'P2SHBitcoinAddress'}
