from engine.oblig import Equiv
from .common import obj

METHOD = 'guarded-outcome table of the index check and of the accessor against the reference'
M = 'proofchains.core.bitcoin.'


def obligations(P):
    for c, n in (('TxInProof', 'txin'), ('TxOutProof', 'txout')):
        yield Equiv('%s.verify' % c, 'spec_c05.code_verify', 'spec_c05.verify_' + n, obj('proof', M + c), K=2, Kt=5,
                    exc='any', site=M + c + '.verify', cfg=INDEX)
        yield Equiv('%s.%s' % (c, n), 'spec_c05.code_' + n, 'spec_c05.' + n, obj('proof', M + c), K=2, Kt=5,
                    exc='any', site=M + '%s.%s' % (c, n), cfg=INDEX)


# an index that has not been through a checker may be any integer
INDEX = {'field_sorts': {('TxInProof', 'i'): 'int', ('TxOutProof', 'i'): 'int'}}
