"""Operations of the library, run on objects made beforehand."""
from vspec import ASSUME
from proofmarshal.proof import Proof
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.serialize import BytesSerializationContext
from proofchains.core.uniquebits.singleuseseal import FakeSealWitness, FakeSingleUseSeal
from proofchains.core.bitcoin import TxProof
from speclib import DTree, DList, DMap


def make(cls, vals):
    kw = {}
    i = 0
    for n, s in cls.SERIALIZED_ATTRS:
        kw[n] = vals[i]
        i += 1
    try:
        return Proof.__new__(cls, **kw)
    except (ValueError, TypeError):
        ASSUME(False)


def code_set(p, name, v):
    setattr(p, name, v)


def code_del(p, name, v):
    delattr(p, name)


def code_frozen(p, name, v):
    raise TypeError


def made(cls, vals):
    p = make(cls, vals)
    try:
        p.hash
    except Exception:
        ASSUME(False)
    return p


def made_set(cls, vals, name, v):
    setattr(made(cls, vals), name, v)


def made_del(cls, vals, name, v):
    delattr(made(cls, vals), name)


def made_frozen(cls, vals, name, v):
    made(cls, vals)
    raise TypeError


# ---- set-up: what exists before the operation

def setup_obj(cls, vals):
    p = make(cls, vals)
    return [p, p]


def setup_view(cls, vals):
    p = make(cls, vals)
    return [p.prune(), p]


def setup_opened(cls, vals):
    p = make(cls, vals)
    q = p.prune()
    for n, s in cls.SERIALIZED_ATTRS:
        getattr(q, n)
    return [q, p]


def setup_hashed(cls, vals):
    p = make(cls, vals)
    p.hash
    p.data_hash
    return [p, p]


# ---- operations on any proof

def op_hash(o):
    o[0].hash
    o[0].get_hash()
    hash(o[0])


def op_data_hash(o):
    o[0].data_hash


def op_eq(o):
    o[0] == o[1]
    o[0] != o[1]
    o[0] == o[1].prune()
    o[0] == 5


def op_prune(o):
    q = o[0].prune()
    q.hash
    q.data_hash
    for n, s in o[0].SERIALIZED_ATTRS:
        getattr(q, n)
    q.serialize()
    q.prune().hash


def op_read(o):
    for n, s in o[0].SERIALIZED_ATTRS:
        getattr(o[0], n)
    o[0].is_pruned
    o[0].is_fully_pruned


def op_serialize(o):
    b = o[0].serialize()
    o[0].__class__.serialize(o[0])


def op_repr(o):
    repr(o[0])
    str(o[0])


def op_missing(o):
    o[0].no_such_attribute


def op_check(o):
    o[0].__class__.check_instance(o[0])


def op_copy(o):
    make(o[0].__class__, [getattr(o[0], n) for n, s in o[0].SERIALIZED_ATTRS]).hash


def op_verify(o):
    if o[0].__class__ is TxProof:
        o[0].verify(None)
    else:
        o[0].verify()


def op_verify_hash(o):
    o[0].verify_hash(bytes(32))


def op_txid(o):
    o[0].txhash


def op_txin(o):
    o[0].txin


def op_txout(o):
    o[0].txout


def op_seal(o):
    o[0].seal
    o[0].prefix


OPS = ['hash', 'data_hash', 'eq', 'prune', 'read', 'serialize', 'repr', 'missing', 'check', 'copy', 'verify',
       'verify_hash', 'txid', 'txin', 'txout', 'seal']


# ---- trees

K = [bytes([b]) + bytes(31) for b in (0x00, 0x80, 0xc0, 0xa0, 0x20)]


def setup_tree(vals):
    t = DTree.EmptyNodeClass()
    t = t.put(K[0], vals[0])
    t = t.put(K[1], vals[1])
    t = t.put(K[2], vals[2])
    small = DTree.EmptyNodeClass().put(K[1], vals[1])
    return [t, small, small.put(K[2], vals[2]), DTree.EmptyNodeClass(), t.prune()]


def tree_put_new(o, v):
    for t in o:
        t.put(K[3], v)
        t.put(K[4], v)


def tree_put_old(o, v):
    for t in o:
        t.put(K[0], v)
        t.put(K[2], v)


def tree_remove(o, v):
    for t in o:
        for k in K:
            try:
                t.remove(k)
            except KeyError:
                pass


def tree_get(o, v):
    for t in o:
        for k in K:
            try:
                t[k]
            except KeyError:
                pass


def tree_iter(o, v):
    for t in o:
        list(t.items())
        list(t.keys())
        list(t.values())
        list(t)
        len(t)


def tree_subset(o, v):
    for t in o[:-1]:
        for u in o[:-1]:
            t.issubset(u)


def tree_hash(o, v):
    for t in o:
        t.hash
        t.serialize()


TREE = ['put_new', 'put_old', 'remove', 'get', 'iter', 'subset', 'hash']


def setup_list(vals):
    e = DList.EmptyNodeClass()
    a = e.append(vals[0])
    b = a.append(vals[1])
    c = b.append(vals[2])
    d = c.extend(vals)
    return [e, a, b, c, d, d.prune()]


def list_append(o, v):
    for m in o:
        m.append(v)


def list_extend(o, v):
    for m in o:
        m.extend([v, v, v])


def list_index(o, v):
    for m in o:
        for i in (0, -1, 1, 2, 7):
            try:
                m[i]
            except IndexError:
                pass


def list_slice(o, v):
    for m in o:
        m[:]
        m[1:]
        m[:-1]
        m[1:3]
        m[2:2]


def list_iter(o, v):
    for m in o:
        list(m)
        list(reversed(m))
        len(m)
        repr(m)


def list_hash(o, v):
    for m in o:
        m.hash
        m.serialize()


def list_assign(o, v):
    for m in o:
        try:
            m[0] = v
        except TypeError:
            pass
        try:
            del m[0]
        except TypeError:
            pass


LIST = ['append', 'extend', 'index', 'slice', 'iter', 'hash', 'assign']


# ---- map prefixes

class Maker:
    def __call__(self, seal, h):
        return FakeSealWitness.from_hash(h)


def setup_map(vals):
    seal = FakeSingleUseSeal(committed_hash=vals[0])
    u = DMap.UnusedPrefix(prefix=Bits([1, 0, 1]), seal=seal)
    w = DMap.UnusedPrefix(prefix=Bits([1, 0, 0]), seal=seal)
    leaf = DMap.LeafPrefix.from_unused_prefix(u, vals[1], vals[2], Maker())
    inner = DMap.InnerPrefix.from_unused_prefix(u, u, w, Maker())
    return [u, w, leaf, inner]


def map_leaf(o, v):
    DMap.LeafPrefix.from_unused_prefix(o[0], v, v, Maker())


def map_inner(o, v):
    DMap.InnerPrefix.from_unused_prefix(o[0], o[1], o[2], Maker())
    DMap.InnerPrefix.from_children(o[0], o[1])


def map_verify(o, v):
    for n in o:
        n.verify()


def map_hash(o, v):
    for n in o:
        n.hash
        n.serialize()
        n.seal.hash


MAP = ['leaf', 'inner', 'verify', 'hash']


# ---- bit strings

def setup_bits(vals):
    return [Bits(), Bits([1]), Bits([1, 0, 1]), Bits([0, 1, 0, 1, 1, 0, 1, 1]), Bits([0, 1, 0, 1, 1, 0, 1, 1, 1]),
            Bits.from_bytes(b'\x5b\x80', 10), Bits.from_bytes(b'\x5b\x81')]


def bits_slice(o, v):
    for b in o:
        b[:]
        b[:2]
        b[0:0]
        b[1:]
        b[::2]
        b[::-1]


def bits_index(o, v):
    for b in o:
        for i in (0, -1, 5, 12):
            try:
                b[i]
            except IndexError:
                pass
        list(b)
        len(b)
        repr(b)


def bits_add(o, v):
    for a in o:
        for b in o:
            a + b


def bits_compare(o, v):
    for a in o:
        for b in o:
            a == b
            a < b
            a <= b
            a > b
            a != b
            a.startswith(b)
            a.common_prefix(b)


def bits_invert(o, v):
    for a in o:
        ~a


def bits_serialize(o, v):
    for a in o:
        BitsSerializer.deserialize(BitsSerializer.serialize(a))
        BitsSerializer.check_instance(a)


def bits_make(o, v):
    for a in o:
        Bits(a)
        Bits(list(a))
    Bits()
    Bits([])
    Bits([1, 1, 1])
    Bits.from_bytes(b'')
    Bits.from_bytes(b'', 0)


BITS = ['slice', 'index', 'add', 'compare', 'invert', 'serialize', 'make']
