import hashlib


def h160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


def verify_hash(w, digest):
    if len(digest) != 32:
        raise AssertionError
    i = w.txoutproof.i
    vout = w.txoutproof.txproof.tx.vout
    if i < 0 or i >= len(vout):
        raise IndexError
    script = vout[i].scriptPubKey
    if script == b'\x6a\x20' + digest:
        return None
    h = h160(digest)
    if script == b'\xa9\x14' + h + b'\x87':
        return None
    if script == b'\x76\xa9\x14' + h + b'\x88\xac':
        return None
    raise AssertionError


def fake_verify_hash(w, digest):
    if w.seal.committed_hash != digest:
        raise AssertionError


def fake_from_hash(digest):
    if len(digest) != 32:
        raise ValueError
    return digest
