import time
from vspec import ASSUME, ANY
import bitcoin
import bitcoin.core
from bitcoin.core import (CBlock, CheckBlock, CheckTransaction, CheckTransactionError, CheckProofOfWork, GetLegacySigOpCount, ValidationError)
from bitcoin.core.script import CScript
import netlib
from spec_c20 import full_varint, null


def tx(p, long):
    w = netlib.i(4, p[0]) + netlib.varint(len(p[1]))
    for t in p[1]:
        w += netlib.outpoint(t[0]) + (full_varint(len(t[1])) + t[1] if long else netlib.short(t[1])) + netlib.u(4, t[2])
    w += netlib.varint(len(p[2]))
    for t in p[2]:
        w += netlib.i(8, t[0]) + netlib.short(t[1])
    return w + netlib.u(4, p[3])


def block(p, long):
    w = netlib.header(p[0])
    w += netlib.varint(len(p[1]))
    for t in p[1]:
        w += tx(t, long)
    return w


def check(p, work, merkle, when, long):
    if long:
        for t in p[1]:
            for i in t[1]:
                ASSUME(len(i[1]) < 2 ** 31)
    block(p, long)
    return CheckBlock(netlib.mk_block(p), work, merkle, when)


def check_by_default(p):
    block(p, False)
    return CheckBlock(netlib.mk_block(p))


def check_by_default_ref(p):
    return check_ref(p, True, True, None, False)


def check_ref(p, work, merkle, when, long):
    w = block(p, long)
    bad = ValidationError()
    head, txs = p
    if head[3] > (time.time() if when is None else when) + 7200:
        raise bad
    if work:
        try:
            CheckProofOfWork(netlib.sha256d(netlib.header(head)), head[4])
        except ValidationError:
            raise bad
    if len(txs) == 0 or len(w) > 1000000:
        raise bad
    ids = [netlib.sha256d(tx(t, long)) for t in txs]
    ops = 0
    for k in range(len(txs)):
        if coinbase(txs[k]) != (k == 0):
            raise bad
        try:
            CheckTransaction(netlib.mk_tx(txs[k]))
        except ValidationError:
            raise bad
        for j in range(k):
            if ids[j] == ids[k]:
                raise bad
        ops += GetLegacySigOpCount(netlib.mk_tx(txs[k]))
    if ops > 20000:
        raise bad
    if merkle and head[2] != root(ids):
        raise bad
    return None


def coinbase(t):
    return len(t[1]) == 1 and null(t[1][0][0])


def root(ids):
    """pairs from the left; the last of an odd row is paired with itself"""
    while len(ids) > 1:
        row = []
        for k in range(0, len(ids), 2):
            a = ids[k]
            b = ids[k + 1] if k + 1 < len(ids) else a
            row.append(netlib.sha256d(a + b))
        ids = row
    return ids[0]


# ---- the pieces
def sigops(p, mutable):
    netlib.tx(p)
    return GetLegacySigOpCount(netlib.mm_tx(p) if mutable else netlib.mk_tx(p))


def sigops_ref(p, mutable):
    netlib.tx(p)
    n = 0
    for t in p[1]:
        n += CScript(t[1]).GetSigOpCount(False)
    for t in p[2]:
        n += CScript(t[1]).GetSigOpCount(False)
    return n


def merkle(p):
    netlib.block(p)
    b = netlib.mk_block(p)
    return b.calc_merkle_root(), b.vMerkleTree[-1]


def merkle_ref(p):
    netlib.block(p)
    r = root([netlib.sha256d(netlib.tx(t)) for t in p[1]])
    return r, r


def decoded_merkle(p):
    """a decoded block has the tree of its transactions, whatever its header says"""
    b = CBlock.deserialize(netlib.block(p))
    return b.calc_merkle_root(), b.vMerkleTree[-1]


decoded_merkle_ref = merkle_ref
