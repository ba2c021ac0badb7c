from vspec import ASSUME, SOME
from proofchains.core.bitcoin import TxProof


def txid(tx):
    h = tx.GetHash()
    ASSUME(len(h) == 32)
    return h


def code_txhash(tx):
    txid(tx)
    return TxProof(tx=tx).txhash


def txhash(tx):
    return txid(tx)


def code_hash(tx):
    txid(tx)
    h = TxProof(tx=tx).hash
    return len(h)


def hash(tx):
    txid(tx)
    return 32


# the accessor undoes the pad also after the hash has been cached
def code_again(tx):
    txid(tx)
    p = TxProof(tx=tx)
    a = p.hash
    b = p.txhash
    return b, p.txhash, a == p.hash


def again(tx):
    h = txid(tx)
    return h, h, True


def code_pruned(tx):
    txid(tx)
    return TxProof(tx=tx).prune().txhash


pruned = txhash


def code_pruned_after_hash(tx):
    txid(tx)
    p = TxProof(tx=tx)
    h = p.hash
    q = p.prune()
    return q.txhash, q.hash == h


def pruned_after_hash(tx):
    return txid(tx), True


# reading the txid of a pruned proof does not bring the transaction back
def code_pruned_untouched(tx):
    txid(tx)
    q = TxProof(tx=tx).prune()
    q.txhash
    return q.is_fully_pruned


def pruned_untouched(tx):
    txid(tx)
    return True


def code_pruned_twice(tx):
    txid(tx)
    return TxProof(tx=tx).prune().prune().txhash


pruned_twice = txhash


def code_roundtrip(tx):
    txid(tx)
    q = TxProof(tx=tx).prune()
    a = q.hash
    q.tx
    return q.txhash, q.hash == a


roundtrip = pruned_after_hash


def code_received(data_hash):
    ASSUME(len(data_hash) == 32)
    return TxProof.deserialize(b'\xff' + data_hash).txhash


def received(data_hash):
    ASSUME(len(data_hash) == 32)
    return SOME
