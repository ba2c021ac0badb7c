from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c16

METHOD = 'outcome tables of the proof-of-work and header checks for every exponent, mantissa, hash and time, compared with a ' \
         'reference decision table'
S = 'spec_c21.'


def header(bits):
    h = c16.header('b')
    its = list(h.items)
    its[4] = C(bits)
    return Tup(its)


def obligations(P):
    out = []
    need(P, 'netlib.TX')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    m, h = sym('m', 'int'), sym('h', 'bytes')
    site = 'bitcoin.core.CheckProofOfWork'
    for chain in ('mainnet', 'regtest', 'testnet'):
        for s in (0, 1):
            for e in range(256) if chain == 'mainnet' and s == 0 else (0, 1, 2, 3, 4, 16, 28, 29, 30, 31, 32, 33, 34, 35, 127, 128, 255):
                out.append(Equiv('work on %s, exponent %d%s' % (chain, e, ', negative' if s else ''), S + 'work', S + 'work_ref',
                                 inp(C(chain), C(e), C(s), m, h), site=site, need_ret=False))
    for e in range(256):
        out.append(Equiv('target of exponent %d' % e, S + 'target', S + 'target_ref', inp(C(e), m), site='bitcoin.core.serialize.uint256_from_compact'))
    out.append(Equiv('hash as a number', S + 'number', S + 'number_ref', inp(h), site='bitcoin.core.serialize.uint256_from_str'))
    site = 'bitcoin.core.CheckBlockHeader'
    for chain, bits in (('mainnet', 0x1d00ffff), ('mainnet', 0x1d010000), ('mainnet', 0), ('testnet', 0x1d00ffff), ('regtest', 0x207fffff), ('mainnet', 0x207fffff),
                        ('mainnet', 0x1c800001)):
        for check in (True, False, 'default'):
            for when in (NONE, sym('cur_time', 'int')):
                out.append(Equiv('header of work %08x on %s, work check %s, time %s' % (bits, chain, check, 'now' if when is NONE else 'given'),
                                 S + 'header', S + 'header_ref', inp(C(chain), lambda bits=bits: header(bits), C(check), when), need_ret=False,
                                 effects=False, site=site))
    return out
