from engine.oblig import Equiv
from .common import args

METHOD = 'guarded-outcome table of the digest checks against the reference acceptance condition'
M = 'proofchains.core.uniquebits.singleuseseal.'


def obligations(P):
    w = M + 'BitcoinSealWitness'
    yield Equiv('BitcoinSealWitness.verify_hash', w + '.verify_hash', 'spec_c02.verify_hash',
                args(('witness', w), ('digest', 'bytes')), K=2, Kt=4, exc='any')
    w = M + 'FakeSealWitness'
    yield Equiv('FakeSealWitness.verify_hash', w + '.verify_hash', 'spec_c02.fake_verify_hash',
                args(('witness', w), ('digest', 'bytes')), exc='any')
    yield Equiv('FakeSealWitness.from_hash', lambda run, P, a: run.call(run.getattr_(P.lookup(w), 'from_hash'), a, {}),
                'spec_c02.fake_from_hash', args(('digest', 'bytes')), exc='any', site=w + '.from_hash',
                value=lambda run, v: run.getattr_(run.getattr_(v, 'seal'), 'committed_hash'))
