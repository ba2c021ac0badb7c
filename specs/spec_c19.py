import io
from vspec import ASSUME, ANY
from bitcoin.core import (COutPoint, CTxIn, CTxOut, CTransaction, CBlockHeader, CBlock, CMutableOutPoint, CMutableTxIn,
                          CMutableTxOut, CMutableTransaction)
from bitcoin.core.script import CScript
import netlib


# ---- an immutable object refuses every assignment and deletion
def assign(kind, p, name, value):
    kind[0](p)
    o = kind[1](p)
    h = o.GetHash()
    try:
        setattr(o, name, value)
    except AttributeError:
        pass
    else:
        return 'assigned'
    return kind[2](o), o.serialize(), o.GetHash() == h


def delete(kind, p, name):
    kind[0](p)
    o = kind[1](p)
    h = o.GetHash()
    try:
        delattr(o, name)
    except AttributeError:
        pass
    else:
        return 'deleted'
    return kind[2](o), o.serialize(), o.GetHash() == h


def untouched(kind, p, *rest):
    return p, kind[0](p), True


def decoded_assign(kind, p, name, value):
    o = kind[3].deserialize(kind[0](p))
    h = o.GetHash()
    try:
        setattr(o, name, value)
    except AttributeError:
        pass
    else:
        return 'assigned'
    return kind[2](o), o.serialize(), o.GetHash() == h


# ---- hashes
def digest(kind, p):
    if kind is netlib.BLOCK:
        kind[0](p)
        return netlib.sha256d(netlib.header(p[0]))
    return netlib.sha256d(kind[0](p))


def asked_twice(kind, p, first):
    kind[0](p)
    o = kind[1](p)
    if first:
        hash(o)
    a = o.GetHash()
    h = hash(o)
    return a, h == hash(kind[1](p)), o.GetHash(), hash(o) == h


def asked_twice_ref(kind, p, first):
    d = digest(kind, p)
    return d, True, d, True


# ---- changing a mutable object
def change(kind, o, q):
    """in place, down to the last part"""
    if kind is netlib.OUTPOINT:
        o.hash, o.n = q
    elif kind is netlib.TXIN:
        change(netlib.OUTPOINT, o.prevout, q[0])
        o.scriptSig = CScript(q[1])
        o.nSequence = q[2]
    elif kind is netlib.TXOUT:
        o.nValue = q[0]
        o.scriptPubKey = CScript(q[1])
    else:
        o.nVersion = q[0]
        k = 0
        for t in q[1]:
            change(netlib.TXIN, o.vin[k], t)
            k += 1
        k = 0
        for t in q[2]:
            change(netlib.TXOUT, o.vout[k], t)
            k += 1
        o.nLockTime = q[3]


def changed(kind, p, q):
    kind[0](p)
    kind[0](q)
    o = kind[4](p)
    a, b = o.GetHash(), hash(o) == hash(kind[4](p))
    change(kind, o, q)
    return a, b, o.GetHash(), hash(o) == hash(kind[4](q)), o.serialize(), kind[2](o)


def changed_ref(kind, p, q):
    w, v = kind[0](p), kind[0](q)
    return netlib.sha256d(w), True, netlib.sha256d(v), True, v, q


def changed_copy(kind, p, q):
    """a mutable copy of a mutable object"""
    kind[0](p)
    kind[0](q)
    m = kind[4](p)
    m.GetHash()
    o = mutable_copy(kind, m)
    o.GetHash()
    hash(o)
    change(kind, o, q)
    return kind[2](m), m.GetHash(), kind[2](o), o.GetHash(), hash(o) == hash(kind[4](q)), o.__class__ is kind[5]


def changed_copy_ref(kind, p, q):
    w, v = kind[0](p), kind[0](q)
    return p, netlib.sha256d(w), q, netlib.sha256d(v), True, True


def mutable_copy(kind, o):
    if kind is netlib.OUTPOINT:
        return CMutableOutPoint.from_outpoint(o)
    if kind is netlib.TXIN:
        return CMutableTxIn.from_txin(o)
    if kind is netlib.TXOUT:
        return CMutableTxOut.from_txout(o)
    return CMutableTransaction.from_tx(o)


def immutable_copy(kind, o):
    if kind is netlib.OUTPOINT:
        return COutPoint.from_outpoint(o)
    if kind is netlib.TXIN:
        return CTxIn.from_txin(o)
    if kind is netlib.TXOUT:
        return CTxOut.from_txout(o)
    return CTransaction.from_tx(o)


def built(kind, m):
    """through the constructor, given the mutable parts"""
    if kind is netlib.OUTPOINT:
        return COutPoint(m.hash, m.n)
    if kind is netlib.TXIN:
        return CTxIn(m.prevout, m.scriptSig, m.nSequence)
    if kind is netlib.TXOUT:
        return CTxOut(m.nValue, m.scriptPubKey)
    return CTransaction(m.vin, m.vout, m.nLockTime, m.nVersion)


def built_from(m, how):
    """a transaction through the constructor, which takes any iterable of parts"""
    if how == 'tuples':
        return CTransaction(tuple(m.vin), tuple(m.vout), m.nLockTime, m.nVersion)
    return CTransaction(iter(m.vin), iter(m.vout), m.nLockTime, m.nVersion)


def shape(kind, o):
    """only immutable parts all the way down"""
    if kind is netlib.HEADER:
        return o.__class__ is CBlockHeader
    if kind is netlib.BLOCK:
        return (o.__class__ is CBlock and o.vtx.__class__ is tuple and o.vMerkleTree.__class__ is tuple and
                all([shape(netlib.TX, t) for t in o.vtx]))
    if kind is netlib.OUTPOINT:
        return o.__class__ is COutPoint
    if kind is netlib.TXIN:
        return o.__class__ is CTxIn and shape(netlib.OUTPOINT, o.prevout)
    if kind is netlib.TXOUT:
        return o.__class__ is CTxOut
    return (o.__class__ is CTransaction and o.vin.__class__ is tuple and o.vout.__class__ is tuple and
            all([shape(netlib.TXIN, t) for t in o.vin]) and all([shape(netlib.TXOUT, t) for t in o.vout]))


# ---- an immutable object made from a mutable one
def frozen(kind, p, q, how, early):
    kind[0](p)
    kind[0](q)
    m = kind[4](p)
    m.GetHash()
    if how == 'copy':
        o = immutable_copy(kind, m)
    elif how == 'constructor':
        o = built(kind, m)
    else:
        o = built_from(m, how)
    if early:
        o.GetHash()
        hash(o)
    change(kind, m, q)
    if kind is netlib.TX:
        m.vin.append(CMutableTxIn())
        m.vout.append(CMutableTxOut())
    return kind[2](o), o.serialize(), o.GetHash(), hash(o) == hash(kind[1](p)), shape(kind, o)


def frozen_ref(kind, p, q, how, early):
    w = kind[0](p)
    kind[0](q)
    return p, w, netlib.sha256d(w), True, True


# ---- a mutable object made from an immutable one
def thawed(kind, p, q, early):
    kind[0](p)
    kind[0](q)
    o = kind[1](p)
    if early:
        o.GetHash()
        hash(o)
    m = mutable_copy(kind, o)
    same = kind[2](m)
    a, b = m.GetHash(), hash(m) == hash(kind[4](p))
    change(kind, m, q)
    if kind is netlib.TX:
        m.vin.append(CMutableTxIn())
        m.vout.append(CMutableTxOut())
        return same, a, b, kind[2](o), o.GetHash(), hash(o) == hash(kind[1](p)), len(m.vin)
    return same, a, b, kind[2](o), o.GetHash(), hash(o) == hash(kind[1](p)), kind[2](m), m.GetHash()


def thawed_ref(kind, p, q, early):
    w, v = kind[0](p), kind[0](q)
    d = netlib.sha256d(w)
    if kind is netlib.TX:
        return p, d, True, p, d, True, len(p[1]) + 1
    return p, d, True, p, d, True, q, netlib.sha256d(v)


def same_again(kind, p):
    """copies of immutable objects"""
    kind[0](p)
    o = kind[1](p)
    c = immutable_copy(kind, o)
    return kind[2](c), c.GetHash(), shape(kind, c), kind[2](o)


def same_again_ref(kind, p):
    return p, netlib.sha256d(kind[0](p)), True, p


# ---- what a decoder makes
def decoded(kind, p):
    o = kind[3].deserialize(kind[0](p))
    return kind[2](o), shape(kind, o)


def decoded_ref(kind, p):
    kind[0](p)
    return p, True


def block_of_tuple(p, q):
    netlib.block(p)
    txs = [netlib.mm_tx(t) for t in p[1]]
    o = CBlock(*(p[0] + (tuple(txs),)))
    k = 0
    for t in q[1]:
        change(netlib.TX, txs[k], t)
        k += 1
    return netlib.f_block(o), o.serialize(), o.GetHash(), shape(netlib.BLOCK, o)


def block_of_tuple_ref(p, q):
    w = netlib.block(p)
    netlib.block(q)
    return p, w, netlib.sha256d(netlib.header(p[0])), True


# ---- lists handed to a constructor stay the caller's
def lists_stay(p, q):
    netlib.tx(p)
    netlib.tx(q)
    vin = [netlib.mk_txin(t) for t in p[1]]
    vout = [netlib.mk_txout(t) for t in p[2]]
    o = CTransaction(vin, vout, p[3], p[0])
    o.GetHash()
    vin.append(netlib.mk_txin(q[1][0]))
    vout.clear()
    return netlib.f_tx(o), o.serialize(), shape(netlib.TX, o)


def lists_stay_ref(p, q):
    netlib.tx(q)
    return p, netlib.tx(p), True


# ---- fresh parts for every new mutable object
def fresh_parts(q):
    netlib.txin(q)
    a, b = CMutableTxIn(), CMutableTxIn()
    change(netlib.TXIN, a, q)
    s, t = CMutableTransaction(), CMutableTransaction()
    s.vin.append(a)
    s.vout.append(CMutableTxOut())
    return netlib.f_txin(b), len(t.vin), len(t.vout), CMutableTransaction().vin == [], netlib.f_txin(CTxIn())


def fresh_parts_ref(q):
    netlib.txin(q)
    null = (b'\x00' * 32, 0xffffffff)
    return (null, b'', 0xffffffff), 0, 0, True, (null, b'', 0xffffffff)


# ---- blocks
def block_of_mutable(p, q, early):
    netlib.block(p)
    txs = [netlib.mm_tx(t) for t in p[1]]
    o = CBlock(*(p[0] + (txs,)))
    if early:
        o.GetHash()
        hash(o)
    k = 0
    for t in q[1]:
        change(netlib.TX, txs[k], t)
        k += 1
    txs.append(CMutableTransaction())
    return (netlib.f_block(o), o.serialize(), o.GetHash(), o.vtx.__class__ is tuple, all([shape(netlib.TX, t) for t in o.vtx]),
            o.vMerkleTree.__class__ is tuple)


def block_of_mutable_ref(p, q, early):
    w = netlib.block(p)
    netlib.block(q)
    return p, w, netlib.sha256d(netlib.header(p[0])), True, True, True


def fresh_transactions():
    """mutable transactions made by default share no lists"""
    a = CMutableTransaction()
    a.vin.append(1)
    a.vout.append(1)
    b = CMutableTransaction()
    return len(b.vin), len(b.vout)


def fresh_transactions_ref():
    return 0, 0
