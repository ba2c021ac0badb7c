from engine.oblig import Equiv
from .common import obj

METHOD = 'guarded-outcome table of the witness verification against the reference acceptance condition'
W = 'proofchains.core.uniquebits.singleuseseal.BitcoinSealWitness'


def obligations(P):
    yield Equiv('BitcoinSealWitness.verify', W + '.verify', 'spec_c01.verify', obj('witness', W), K=2, Kt=4, exc='any')
