import hashlib
from vspec import ASSUME
from proofmarshal.proof import Proof
from proofmarshal.serialize import HashTag, SerializerTypeError, SerializerValueError
import speclib


def names(cls):
    return [n for n, s in cls.SERIALIZED_ATTRS]


def make(cls, vals):
    """an object of the class, if the field values are acceptable"""
    kw = {}
    for n, v in zip(names(cls), vals):
        kw[n] = v
    try:
        return Proof.__new__(cls, **kw)
    except (SerializerTypeError, SerializerValueError, ValueError, TypeError):
        ASSUME(False)


def code_data_hash(cls, vals, kinds, tag):
    return make(cls, vals).data_hash


def data_hash(cls, vals, kinds, tag):
    make(cls, vals)
    h = hashlib.sha256()
    for v, k, s in zip(vals, kinds, cls.SERIALIZED_ATTRS):
        if k:
            h.update(v.hash)
        else:
            h.update(s[1].serialize(v))
    return h.digest()


def code_hash(cls, vals, kinds, tag):
    p = make(cls, vals)
    a = p.hash
    return a, p.hash == a, p.get_hash() == a, cls.get_hash(p) == a


def hash_(cls, vals, kinds, tag):
    h = hashlib.sha256(tag + data_hash(cls, vals, kinds, tag)).digest()
    return h, True, True, True


# pruning, unpruning and reading the other hash first make no difference
def code_bookkeeping(cls, vals, kinds, tag):
    p = make(cls, vals)
    q = p.prune()
    n = names(cls)
    if n:
        getattr(q, n[0])
    r = make(cls, vals)
    d = r.data_hash
    return q.hash, q.data_hash, p.prune().hash, r.hash, d


def bookkeeping(cls, vals, kinds, tag):
    d = data_hash(cls, vals, kinds, tag)
    h = hashlib.sha256(tag + d).digest()
    return h, d, h, h, d


def code_eq(p, q):
    return p == q, p != q


def eq(p, q):
    r = p.hash == q.hash
    return r, not r


def code_eq_other(p, b, n):
    return p == b, p != b, p == n, p == None, p == 'x'


def eq_other(p, b, n):
    return False, True, False, False, False


def code_pyhash(p):
    return hash(p)


def pyhash(p):
    return hash(p.hash)


def code_tag(m):
    return HashTag('00112233-4455-6677-8899-aabbccddeeff')(m).digest()


def tag(m):
    return hashlib.sha256(bytes.fromhex('00112233445566778899aabbccddeeff') + m).digest()


def code_tag_empty(m):
    return HashTag('00112233-4455-6677-8899-aabbccddeeff')().digest()


def tag_empty(m):
    return hashlib.sha256(bytes.fromhex('00112233445566778899aabbccddeeff')).digest()


def code_serialized(p):
    return p.get_hash()


def serialized(p):
    return p.hash
