import hashlib
import uuid
from proofmarshal.serialize import Digest, HashTag
from proofchains.core.uniquebits.gumap import GuMap, make_GuMap_subclass
from proofchains.core.uniquebits.singleuseseal import (BitcoinSingleUseSeal, BitcoinSealWitness, FakeSealWitness,
                                                      FakeSingleUseSeal)


@make_GuMap_subclass
class DMap(GuMap):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddeeff')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = Digest
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness


@make_GuMap_subclass
class DMap2(GuMap):
    HASHTAG = HashTag('0a112233-4455-6677-8899-aabbccddeeff')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = Digest
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness


@make_GuMap_subclass
class PMap(GuMap):
    HASHTAG = HashTag('0b112233-4455-6677-8899-aabbccddeeff')
    KEY_SERIALIZER = BitcoinSingleUseSeal
    VALUE_SERIALIZER = BitcoinSingleUseSeal
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness


TAG = {'DMap': '00112233445566778899aabbccddeeff', 'DMap2': '0a112233445566778899aabbccddeeff',
       'PMap': '0b112233445566778899aabbccddeeff'}
ROOT = '8125d227981c4ca0afa7ab9911352c85'
LEAF, LEAF_CONTENTS = '0c60f34491094930aec1432c5750fcba', '59c17f377e264aea8a5b7c0db66af35b'
INNER, INNER_CONTENTS = '6893cac7e83449cd8e9577707b0499b5', 'b925044d320e4c1f9ef820614d260676'


def derive(tag, subtag):
    return hashlib.sha256(bytes.fromhex(ROOT) + tag + subtag).digest()[:16]


def contents_hash(m, sub, contents, msg):
    tag = derive(bytes.fromhex(sub), bytes.fromhex(TAG[m]))
    return hashlib.sha256(derive(bytes.fromhex(contents), tag) + msg).digest()


def leaf_hash(m, key, value):
    if m == 'PMap':
        key, value = key.hash, value.hash
    return contents_hash(m, LEAF, LEAF_CONTENTS, key + value)


def inner_hash(m, left, right):
    return contents_hash(m, INNER, INNER_CONTENTS, left.seal.hash + right.seal.hash)


def code_verify(node):
    node.verify()


def verify_leaf_DMap(p):
    p.witness.verify_hash(leaf_hash('DMap', p.key, p.value))


def verify_leaf_DMap2(p):
    p.witness.verify_hash(leaf_hash('DMap2', p.key, p.value))


def verify_leaf_PMap(p):
    p.witness.verify_hash(leaf_hash('PMap', p.key, p.value))


def verify_inner_DMap(p):
    p.witness.verify_hash(inner_hash('DMap', p.left, p.right))


def verify_inner_DMap2(p):
    p.witness.verify_hash(inner_hash('DMap2', p.left, p.right))


def verify_inner_PMap(p):
    p.witness.verify_hash(inner_hash('PMap', p.left, p.right))


class Maker:
    def __init__(self):
        self.asked = []

    def __call__(self, seal, h):
        self.asked.append((seal, h))
        return FakeSealWitness(seal=FakeSingleUseSeal(committed_hash=h))


def close_leaf(m, unused, key, value):
    mk = Maker()
    r = m.LeafPrefix.from_unused_prefix(unused, key, value, mk)
    return mk.asked, r.key, r.value, r.witness.seal.committed_hash, r.__class__ is m.LeafPrefix


def want_leaf(name, unused, key, value):
    if name != 'PMap' and (len(key) != 32 or len(value) != 32):
        raise ValueError
    h = leaf_hash(name, key, value)
    return [(unused.seal, h)], key, value, h, True


def close_inner(m, unused, left, right):
    mk = Maker()
    r = m.InnerPrefix.from_unused_prefix(unused, left, right, mk)
    return mk.asked, r.prefix, r.left, r.right, r.witness.seal.committed_hash, r.__class__ is m.InnerPrefix


def want_inner(name, unused, left, right):
    h = inner_hash(name, left, right)
    return [(unused.seal, h)], unused.prefix, left, right, h, True


def close_children(m, left, right):
    r = m.InnerPrefix.from_children(left, right)
    return r.left, r.right, r.witness.seal.committed_hash, r.__class__ is m.InnerPrefix


def want_children(name, left, right):
    return left, right, inner_hash(name, left, right), True


def code_leaf_DMap(u, k, v):
    return close_leaf(DMap, u, k, v)


def code_leaf_DMap2(u, k, v):
    return close_leaf(DMap2, u, k, v)


def code_leaf_PMap(u, k, v):
    return close_leaf(PMap, u, k, v)


def leaf_DMap(u, k, v):
    return want_leaf('DMap', u, k, v)


def leaf_DMap2(u, k, v):
    return want_leaf('DMap2', u, k, v)


def leaf_PMap(u, k, v):
    return want_leaf('PMap', u, k, v)


def code_inner_DMap(u, k, v):
    return close_inner(DMap, u, k, v)


def code_inner_DMap2(u, k, v):
    return close_inner(DMap2, u, k, v)


def code_inner_PMap(u, k, v):
    return close_inner(PMap, u, k, v)


def inner_DMap(u, k, v):
    return want_inner('DMap', u, k, v)


def inner_DMap2(u, k, v):
    return want_inner('DMap2', u, k, v)


def inner_PMap(u, k, v):
    return want_inner('PMap', u, k, v)


def code_children_DMap(l, r):
    return close_children(DMap, l, r)


def code_children_DMap2(l, r):
    return close_children(DMap2, l, r)


def code_children_PMap(l, r):
    return close_children(PMap, l, r)


def children_DMap(l, r):
    return want_children('DMap', l, r)


def children_DMap2(l, r):
    return want_children('DMap2', l, r)


def children_PMap(l, r):
    return want_children('PMap', l, r)


def warm(u):
    """the maps have been in use before"""
    mk = Maker()
    for m in (DMap, DMap2, PMap):
        n = m.UnusedPrefix(prefix=u.prefix, seal=u.seal)
        m.InnerPrefix.from_unused_prefix(n, n, n, mk)
        if m is PMap:
            m.LeafPrefix.from_unused_prefix(n, u.seal, u.seal, mk)
        else:
            m.LeafPrefix.from_unused_prefix(n, u.seal.hash, u.seal.hash, mk)


def code_warm(u, node):
    warm(u)
    node.verify()


def warm_leaf_DMap(u, p):
    verify_leaf_DMap(p)


def warm_leaf_DMap2(u, p):
    verify_leaf_DMap2(p)


def warm_leaf_PMap(u, p):
    verify_leaf_PMap(p)


def warm_inner_DMap(u, p):
    verify_inner_DMap(p)


def warm_inner_DMap2(u, p):
    verify_inner_DMap2(p)


def warm_inner_PMap(u, p):
    verify_inner_PMap(p)
