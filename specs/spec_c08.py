import hashlib
from vspec import ASSUME
from proofmarshal.serialize import HashTag
from proofchains.core.uniquebits.singleuseseal import FakeSealWitness, FakeSingleUseSeal
from speclib import DMap, PMap


class Maker:
    def __init__(self):
        self.asked = []

    def __call__(self, seal, h):
        self.asked.append(h)
        return FakeSealWitness(seal=FakeSingleUseSeal(committed_hash=h))


def contents(seal):
    """the hashes closed over by leaves and inner nodes of two maps, one map
    after the other and once more"""
    mk = Maker()
    u = DMap.UnusedPrefix(prefix=seal.prefix, seal=seal.seal)
    p = PMap.UnusedPrefix(prefix=seal.prefix, seal=seal.seal)
    DMap.LeafPrefix.from_unused_prefix(u, seal.seal.hash, seal.seal.hash, mk)
    DMap.InnerPrefix.from_unused_prefix(u, u, u, mk)
    PMap.InnerPrefix.from_unused_prefix(p, p, p, mk)
    PMap.LeafPrefix.from_unused_prefix(p, seal.seal, seal.seal, mk)
    DMap.InnerPrefix.from_unused_prefix(u, u, u, mk)
    DMap.LeafPrefix.from_unused_prefix(u, seal.seal.hash, seal.seal.hash, mk)
    return mk.asked


def code_derive(a, b):
    ASSUME(len(a) == 16)
    ASSUME(len(b) == 16)
    x = bytes.__new__(HashTag, a)
    y = bytes.__new__(HashTag, b)
    r = x.derive(y)
    return bytes(r), r.__class__ is HashTag, len(r)


def derive(a, b):
    ASSUME(len(a) == 16)
    ASSUME(len(b) == 16)
    return hashlib.sha256(bytes.fromhex('8125d227981c4ca0afa7ab9911352c85') + a + b).digest()[:16], True, 16
