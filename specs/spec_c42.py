from vspec import ASSUME, ANY
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.serialize import Digest, HashTag
from spec_c40 import packed


@make_MerbinnerTree_subclass
class BTree(MerbinnerTree):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee42')
    KEY_SERIALIZER = BitsSerializer
    VALUE_SERIALIZER = Digest

    @staticmethod
    def key2prefix(key):
        return key


def key(bits):
    return Bits.from_bytes(packed(bits), len(bits))


@make_MerbinnerTree_subclass
class PTree(MerbinnerTree):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee43')
    KEY_SERIALIZER = BitsSerializer
    VALUE_SERIALIZER = Digest

    @staticmethod
    def key2prefix(key):
        return key[:len(key) - 1]


def shape(x):
    if x.__class__ is BTree.EmptyNodeClass:
        return ()
    if x.__class__ is BTree.LeafNodeClass:
        return ('leaf', tuple(x.key), x.value)
    return ('inner', tuple(x.prefix), shape(x.left), shape(x.right))


def everything(t):
    return (shape(t), len(t), [tuple(k) for k in t], [tuple(k) for k in t.keys()], list(t.values()), [(tuple(k), v) for k, v in t.items()])


# ---- the same with a list of pairs
def common(items):
    """the length of the longest prefix all keys have"""
    n = 0
    while n < len(items[0][0]):
        for k, v in items:
            if k[n] != items[0][0][n]:
                return n
        n = n + 1
    return n


def shape_ref(items):
    if len(items) == 0:
        return ()
    if len(items) == 1:
        return ('leaf', items[0][0], items[0][1])
    n = common(items)
    left, right = sides(items, n)
    return ('inner', items[0][0][:n], shape_ref(left), shape_ref(right))


def sides(items, n):
    left, right = [], []
    for k, v in items:
        if k[n]:
            right.append((k, v))
        else:
            left.append((k, v))
    return left, right


def inorder(items):
    if len(items) < 2:
        return items
    left, right = sides(items, common(items))
    return inorder(left) + inorder(right)


def everything_ref(items):
    l = inorder(items)
    ks = [k for k, v in l]
    return (shape_ref(items), len(items), ks, ks, [v for k, v in l], l)


def with_pair(items, k, v):
    return [(a, b) for a, b in items if a != k] + [(k, v)]


# ---- histories
def pre(ops):
    for op, k, v in ops:
        ASSUME(len(v) == 32)


def history(ops):
    """the whole tree after every operation"""
    pre(ops)
    t = BTree()
    out = []
    for op, k, v in ops:
        if op == 'put':
            t = t.put(key(k), v)
            out.append('put')
        else:
            try:
                t = t.remove(key(k))
                out.append('removed')
            except KeyError:
                out.append('missing')
    return (out, everything(t))


def history_ref(ops):
    items = []
    out = []
    for op, k, v in ops:
        if op == 'put':
            items = with_pair(items, k, v)
            out.append('put')
        else:
            there = [x for x in items if x[0] == k]
            if there:
                items = [x for x in items if x[0] != k]
                out.append('removed')
            else:
                out.append('missing')
    return (out, everything_ref(items))


def made(ops):
    pre(ops)
    return BTree([(key(k), v) for op, k, v in ops])


def made_ref(ops):
    items = []
    for op, k, v in ops:
        items = with_pair(items, k, v)
    return items


def construction(ops):
    """from pairs, from an iterator over them, and from another tree"""
    a = made(ops)
    b = BTree(iter([(key(k), v) for op, k, v in ops]))
    c = BTree(a)
    return (everything(a), shape(b), shape(c), a == b, a == c)


def construction_ref(ops):
    items = made_ref(ops)
    s = shape_ref(items)
    return (everything_ref(items), s, s, True, True)


def reordered(ops):
    """pairs put in another order hash the same"""
    pre(ops)
    a, b = BTree(), BTree()
    for i in range(len(ops)):
        for j in range(i):
            ASSUME(ops[i][1] != ops[j][1])
    for op, k, v in ops:
        a = a.put(key(k), v)
    for op, k, v in ops[1:] + ops[:1]:
        b = b.put(key(k), v)
    c = BTree(reversed([(key(k), v) for op, k, v in ops]))
    return (a.hash == b.hash, a.hash == c.hash)


def reordered_ref(ops):
    return (True, True)


def unchanged(ops, op, k, v):
    """no operation changes a tree"""
    t = made(ops)
    before = everything(t)
    h = t.hash
    try:
        if op == 'put':
            ASSUME(len(v) == 32)
            t.put(key(k), v)
        elif op == 'remove':
            t.remove(key(k))
        else:
            t[key(k)]
    except KeyError:
        pass
    return everything(t) == before and t.hash == h


def unchanged_ref(ops, op, k, v):
    return True


def undone(ops, k, v):
    """a key put and removed again"""
    t = made(ops)
    for op, a, b in ops:
        ASSUME(a != k)
    ASSUME(len(v) == 32)
    return t.put(key(k), v).remove(key(k)).hash == t.hash


def undone_ref(ops, k, v):
    return True


# ---- lookup
def lookup(ops, k):
    t = made(ops)
    try:
        return ('value', t[key(k)])
    except KeyError:
        return 'missing'


def lookup_ref(ops, k):
    for a, b in made_ref(ops):
        if a == k:
            return ('value', b)
    return 'missing'


def shared(ops, op, k):
    """a key which is not there is missing, even if one with its prefix is there"""
    pre(ops)
    for i in range(len(ops)):
        for j in range(i):
            ASSUME(ops[i][1][:-1] != ops[j][1][:-1])
    t = PTree()
    for _, a, v in ops:
        t = t.put(key(a), v)
    try:
        if op == 'get':
            return t[key(k)]
        t = t.remove(key(k))
    except KeyError:
        return 'missing'
    return [(tuple(a), v) for a, v in t.items()]


def shared_ref(ops, op, k):
    pre(ops)
    for i in range(len(ops)):
        for j in range(i):
            ASSUME(ops[i][1][:-1] != ops[j][1][:-1])
    for _, a, v in ops:
        if a == k:
            if op == 'get':
                return v
            return inorder([x for x in [(b, w) for _, b, w in ops] if x[0] != k])
    return 'missing'
