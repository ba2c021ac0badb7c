"""Concrete maps, trees and lists made from the library's class factories, and
a class with one field of every kind."""
from proofmarshal.proof import Proof, ProofUnion
from proofmarshal.serialize import (Digest, HashTag, UInt8, UInt16, UInt32, UInt64, VarBytes, FixedBytes, SerBool)
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofchains.core.bitcoin import CTransactionSerializer, COutPointSerializer
from proofchains.core.uniquebits.gumap import GuMap, make_GuMap_subclass
from proofchains.core.uniquebits.singleuseseal import BitcoinSingleUseSeal, BitcoinSealWitness, FakeSingleUseSeal


@make_GuMap_subclass
class DMap(GuMap):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee00')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = Digest
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness


@make_GuMap_subclass
class PMap(GuMap):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee01')
    KEY_SERIALIZER = BitcoinSingleUseSeal
    VALUE_SERIALIZER = BitcoinSingleUseSeal
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness


@make_MerbinnerTree_subclass
class DTree(MerbinnerTree):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee02')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = Digest

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


@make_MerbinnerTree_subclass
class PTree(MerbinnerTree):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee03')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = BitcoinSingleUseSeal

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


@make_mmr_subclass
class DList(MerkleMountainRange):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee04')
    VALUE_SERIALIZER = Digest


@make_mmr_subclass
class PList(MerkleMountainRange):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee05')
    VALUE_SERIALIZER = BitcoinSingleUseSeal


class Small(Proof):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee06')
    __slots__ = []
    SERIALIZED_ATTRS = [('a', Digest)]


class Small2(Proof):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee08')
    __slots__ = []
    SERIALIZED_ATTRS = [('a', Digest)]


# every kind of field, spread over a few classes

class SampleFixed(Proof):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee07')
    __slots__ = []
    SERIALIZED_ATTRS = [('flag', SerBool), ('u8', UInt8), ('small', Small), ('fixed', FixedBytes(20)),
                        ('digest', Digest), ('small2', Small)]


class SampleWide(Proof):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee09')
    __slots__ = []
    SERIALIZED_ATTRS = [('u32', UInt32), ('u16', UInt16)]


class SampleUnion(Proof):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee0a')
    __slots__ = []
    SERIALIZED_ATTRS = [('union', ProofUnion(FakeSingleUseSeal, Small)), ('outpoint', COutPointSerializer)]


class SampleVar(Proof):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee0b')
    __slots__ = []
    SERIALIZED_ATTRS = [('var', VarBytes(10, 1000)), ('digest', Digest)]


class Sample64(Proof):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee0c')
    __slots__ = []
    SERIALIZED_ATTRS = [('u64', UInt64), ('flag', SerBool)]


