from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c16

METHOD = 'outcome table of the block check over symbolic blocks of every small shape (proof of work, transaction check and ' \
         'script operation counts opaque), compared with a reference decision table; operation counts over enumerated opcodes'
S = 'spec_c22.'
C_ = 'bitcoin.core.'


def cfg(P):
    return {'opaque': {C_ + 'CheckTransaction': 'none', C_ + 'CheckProofOfWork': 'none', C_ + 'GetLegacySigOpCount': 'uint'},
            'may_raise': {C_ + 'CheckTransaction': [need(P, C_ + 'CheckTransactionError')],
                          C_ + 'CheckProofOfWork': [need(P, C_ + 'CheckProofOfWorkError')]},
            'vocabulary': (C_ + 'CheckTransaction', C_ + 'CheckProofOfWork', C_ + 'GetLegacySigOpCount')}


def obligations(P):
    out = []
    need(P, 'netlib.TX')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    site = C_ + 'CheckBlock'
    c = cfg(P)
    for s in ([], [(1, 1)], [(2, 1)], [(1, 1), (1, 1)], [(1, 1), (2, 1)], [(0, 1), (1, 1)], [(1, 0), (1, 1), (1, 2)]):
        for work in (True, False):
            for merkle in (True, False):
                for when in (NONE, sym('now', 'int')):
                    out.append(Equiv('block of %d transactions %s, work check %s, root check %s, time %s' % (
                        len(s), s, work, merkle, 'now' if when is NONE else 'given'), S + 'check', S + 'check_ref',
                        inp(lambda s=s: c16.block('b', s), C(work), C(merkle), when, C(False)), cfg=c, effects=False, need_ret=bool(s) and s[0][0] == 1,
                        site=site))
        out.append(Equiv('block of %d transactions %s by default' % (len(s), s), S + 'check_by_default', S + 'check_by_default_ref',
                         inp(lambda s=s: c16.block('b', s)), cfg=c, effects=False, need_ret=bool(s) and s[0][0] == 1, site=site))
    for s in ([(1, 1)],):
        for merkle in (True, False):
            out.append(Equiv('block of %d transactions %s of any size, root check %s' % (len(s), s, merkle), S + 'check', S + 'check_ref',
                             inp(lambda s=s: c16.block('b', s), C(True), C(merkle), NONE, C(True)), cfg=c, effects=False, site=site))
    G = 'bitcoin.core.script.CScript.GetSigOpCount'
    for m in (False, True):
        for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 2), (1, 3)):
            out.append(Equiv('operations of a transaction of %d inputs and %d outputs%s' % (a, b, ', mutable' if m else ''), S + 'sigops', S + 'sigops_ref',
                             inp(lambda a=a, b=b: c16.tx('t', a, b), C(m)), cfg={'opaque': {G: 'uint'}, 'vocabulary': (G,)}, site=C_ + 'GetLegacySigOpCount'))
    for n in range(1, 9):
        out.append(Equiv('merkle root of %d transactions' % n, S + 'merkle', S + 'merkle_ref', inp(lambda n=n: c16.block('b', [(0, 0)] * n)),
                         site=C_ + 'CBlock.calc_merkle_root'))
    for n in range(1, 6):
        out.append(Equiv('merkle root of %d decoded transactions' % n, S + 'decoded_merkle', S + 'decoded_merkle_ref', inp(lambda n=n: c16.block('b', [(0, 0)] * n)),
                         site=C_ + 'CBlock.stream_deserialize'))
    return out
