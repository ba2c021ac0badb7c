from vspec import ASSUME, ANY
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.serialize import Digest, HashTag
from spec_c40 import packed
from spec_c42 import BTree, key, shape, shape_ref, everything, made, made_ref, pre, common, sides, with_pair


@make_MerbinnerTree_subclass
class OtherTree(MerbinnerTree):
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee43')
    KEY_SERIALIZER = BitsSerializer
    VALUE_SERIALIZER = Digest

    @staticmethod
    def key2prefix(key):
        return key


@make_MerbinnerTree_subclass
class ShortTree(MerbinnerTree):
    """placed by the first two bits of the key alone"""
    HASHTAG = HashTag('00112233-4455-6677-8899-aabbccddee44')
    KEY_SERIALIZER = BitsSerializer
    VALUE_SERIALIZER = Digest

    @staticmethod
    def key2prefix(key):
        return key[0:2]


def prefix(items):
    return items[0][0][:common(items)] if len(items) > 1 else items[0][0]


# ---- a node over two others
def node(a, b):
    x, y = made(a), made(b)
    p, q = tuple(x.prefix), tuple(y.prefix)
    ASSUME(p != q[:len(p)])
    ASSUME(q != p[:len(q)])
    t = BTree.InnerNodeClass(x, y)
    return (tuple(p), tuple(q), everything(t), t == BTree.InnerNodeClass(y, x))


def node_ref(a, b):
    x, y = made_ref(a), made_ref(b)
    p, q = prefix(x), prefix(y)
    ASSUME(p != q[:len(p)])
    ASSUME(q != p[:len(q)])
    n = 0
    while p[n] == q[n]:
        n = n + 1
    l, r = (x, y) if q[n] else (y, x)
    s = ('inner', p[:n], shape_ref(l), shape_ref(r))
    ks = [k for k, v in order(l) + order(r)]
    vs = [v for k, v in order(l) + order(r)]
    return (p, q, (s, len(ks), ks, ks, vs, order(l) + order(r)), True)


def order(items):
    if len(items) < 2:
        return items
    l, r = sides(items, common(items))
    return order(l) + order(r)


def refused(a, other, where):
    """children that are no nodes of the tree"""
    x = made(a)
    y = foreign(other)
    if where == 'first':
        BTree.InnerNodeClass(y, x)
    elif where == 'second':
        BTree.InnerNodeClass(x, y)
    else:
        BTree.InnerNodeClass(y, y)


def refused_ref(a, other, where):
    pre(a)
    raise TypeError


def foreign(other):
    if other == 'other tree':
        return OtherTree([(key((1, 0, 1)), b'\x01' * 32)])
    if other == 'other inner node':
        return OtherTree([(key((1, 0, 1)), b'\x01' * 32), (key((0, 0, 1)), b'\x02' * 32)])
    if other == 'bits':
        return key((1, 1, 1))
    if other == 'class':
        return BTree
    return other


# ---- the subset test
def subset(a, b):
    x, y = made(a), made(b)
    return (x.issubset(y), y.issubset(x), x.issubset(x))


def subset_ref(a, b):
    x, y = made_ref(a), made_ref(b)
    return (contained(x, y), contained(y, x), True)


def contained(x, y):
    for k, v in x:
        if not any([k == a and v == b for a, b in y]):
            return False
    return True


def foreign_subset(a, other):
    return made(a).issubset(foreign(other))


def foreign_subset_ref(a, other):
    pre(a)
    raise TypeError


# ---- keys that are placed by less than all of their bits
def short(ops, k):
    pre(ops)
    for i in range(len(ops)):
        for j in range(i):
            ASSUME(ops[i][1][:2] != ops[j][1][:2])
    t = ShortTree([(key(x), v) for op, x, v in ops])
    try:
        found = t[key(k)]
    except KeyError:
        found = 'missing'
    try:
        left = sorted_pairs(t.remove(key(k)))
    except KeyError:
        left = 'missing'
    return (found, left)


def sorted_pairs(t):
    return [(tuple(k), v) for k, v in t.items()]


def short_ref(ops, k):
    items = []
    for op, x, v in ops:
        items = items + [(x, v)]
    for i in range(len(ops)):
        for j in range(i):
            ASSUME(ops[i][1][:2] != ops[j][1][:2])
    for x, v in items:
        if x == k:
            return (v, order_short([p for p in items if p[0] != k]))
    return ('missing', 'missing')


def order_short(items):
    if len(items) < 2:
        return items
    n = 0
    while len(set([k[n] for k, v in items])) == 1:
        n = n + 1
    l, r = sides(items, n)
    return order_short(l) + order_short(r)


# ---- the path down the tree
def path(ops, k):
    t = made(ops)
    return [shape(x) for x in t.descend(key(k))]


def path_ref(ops, k):
    return walk(made_ref(ops), k)


def walk(items, k):
    """where the descent ends, and then what was passed by, the nearest first"""
    if len(items) < 2:
        return [shape_ref(items)]
    n = common(items)
    if k[:n] != items[0][0][:n]:
        return [shape_ref(items)]
    l, r = sides(items, n)
    if k[n]:
        return walk(r, k) + [shape_ref(l)]
    return walk(l, k) + [shape_ref(r)]
