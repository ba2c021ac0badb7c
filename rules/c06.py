from engine.oblig import Equiv
from .common import args

METHOD = 'guarded-outcome table of the hash and the txid accessor of transaction proofs against the reference'
M = 'proofchains.core.bitcoin.TxProof'
CFG = {'opaque': {'bitcoin.core.serialize.ImmutableSerializable.GetHash': 'bytes',
                  'bitcoin.core.serialize.Serializable.GetHash': 'bytes'},
       'invariants': {}}
TX = args(('tx', 'CTransaction'))


def obligations(P):
    for n in ('txhash', 'hash', 'again', 'pruned', 'pruned_after_hash', 'pruned_untouched', 'pruned_twice', 'roundtrip'):
        yield Equiv('TxProof, %s' % n, 'spec_c06.code_' + n, 'spec_c06.' + n, TX, exc='any', cfg=CFG, site=M)
    # a view that came over the wire holds only its data hash
    yield Equiv('TxProof, received pruned', 'spec_c06.code_received', 'spec_c06.received',
                args(('data_hash', 'bytes')), cfg=CFG, exc='any', keyed=True, site=M + '.txhash')
