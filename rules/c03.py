from engine.oblig import Equiv
from .common import args

METHOD = 'guarded-outcome table of the closing-transaction builder against the reference transaction'
S = 'proofchains.core.uniquebits.singleuseseal.BitcoinSingleUseSeal'
F = 'proofchains.uniquebits.singleuseseal.make_close_seal_tx_template'


def obligations(P):
    for m in ('default', 'op_return', 'p2sh', 'p2pkh'):
        yield Equiv('closing transaction, %s' % m, 'spec_c03.code_' + m, 'spec_c03.' + m,
                    args(('digest', 'bytes'), ('seals', ('list', S)), ('dust', 'uint')), K=2, Kt=4, exc='any', site=F)
    for m in ('p2sh', 'p2pkh'):
        yield Equiv('closing transaction, %s, default dust' % m, 'spec_c03.code_%s_nodust' % m, 'spec_c03.%s_nodust' % m,
                    args(('digest', 'bytes'), ('seals', ('list', S))), K=1, exc='any', site=F)
