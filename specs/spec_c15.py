from vspec import ASSUME, ANY
from proofmarshal.merbinnertree import MerbinnerTree
from proofmarshal.serialize import Digest
from speclib import DList
from spec_c41 import shape as mshape, shape_ref as mshape_ref
from spec_c40 import packed
from spec_c42 import BTree, key, shape, made, made_ref, pre, inorder, common


def mountain(values):
    for v in values:
        ASSUME(len(v) == 32)
    return DList(values)


# ---- mountain ranges
def joined(a, b):
    """a node over any two others"""
    x, y = mountain(a), mountain(b)
    t = DList.InnerNodeClass(x, y)
    return (len(t), t.length, len(t.left), len(t.right), list(t), list(reversed(t)), [t[i] for i in range(len(a) + len(b))],
            t.left is x, t.right is y, mshape(t))


def joined_ref(a, b):
    n = len(a) + len(b)
    l = list(a) + list(b)
    return (n, n, len(a), len(b), l, l[::-1], l, True, True, ('inner', mshape_ref(list(a)), mshape_ref(list(b)), n, n))


def leaf(v):
    ASSUME(len(v) == 32)
    x = DList.LeafNodeClass(v)
    e = DList.EmptyNodeClass()
    return (len(x), list(x), list(reversed(x)), x[0], x[-1], len(e), list(e), list(reversed(e)), DList([v]) == x, DList() == e, x == e)


def leaf_ref(v):
    return (1, [v], [v], v, v, 0, [], [], True, True, False)


def stream(kind, *parts):
    """what a node of that kind is on the wire"""
    return b'\x00' + bytes([kind]) + b''.join(parts)


def wire(t):
    """the wire form follows the order of the children"""
    if t.__class__ is DList.EmptyNodeClass:
        return stream(DList.UNION_CLASSES.index(DList.EmptyNodeClass))
    if t.__class__ is DList.LeafNodeClass:
        return stream(DList.UNION_CLASSES.index(DList.LeafNodeClass), t.value)
    return stream(DList.UNION_CLASSES.index(DList.InnerNodeClass), wire(t.left), wire(t.right), number(t.length))


def number(n):
    out = b''
    while n > 127:
        out = out + bytes([n % 128 + 128])
        n = n // 128
    return out + bytes([n])


def on_wire(a, b):
    x, y = mountain(a), mountain(b)
    t = DList.InnerNodeClass(x, y)
    return (t.serialize() == wire(t), DList.deserialize(t.serialize()) == t, mshape(DList.deserialize(t.serialize())))


def on_wire_ref(a, b):
    n = len(a) + len(b)
    for v in a:
        ASSUME(len(v) == 32)
    for v in b:
        ASSUME(len(v) == 32)
    return (True, True, ('inner', mshape_ref(list(a)), mshape_ref(list(b)), n, n))


def swapped(a, b):
    """which child is left is part of the hash"""
    x, y = mountain(a), mountain(b)
    return DList.InnerNodeClass(x, y).hash == DList.InnerNodeClass(y, x).hash


def swapped_ref(a, b):
    for v in list(a) + list(b):
        ASSUME(len(v) == 32)
    return list(a) == list(b)


def lengths(a, b, n, m, top):
    """the same children said to be of other lengths: the hash tells them apart"""
    ASSUME(0 <= n < top)
    ASSUME(0 <= m < top)
    x, y = mountain(a), mountain(b)
    kind = DList.UNION_CLASSES.index(DList.InnerNodeClass)
    s = DList.deserialize(stream(kind, wire(x), wire(y), number(n)))
    t = DList.deserialize(stream(kind, wire(x), wire(y), number(m)))
    return (len(s), len(t), s.length, t.length, s.hash == t.hash, s == t, s == DList.InnerNodeClass(x, y))


def lengths_ref(a, b, n, m, top):
    ASSUME(0 <= n < top)
    ASSUME(0 <= m < top)
    for v in list(a) + list(b):
        ASSUME(len(v) == 32)
    return (n, m, n, m, n == m, n == m, n == len(a) + len(b))


def children(a, b, c, d):
    """every child is part of the hash"""
    x, y, z, w = mountain(a), mountain(b), mountain(c), mountain(d)
    return DList.InnerNodeClass(x, y).hash == DList.InnerNodeClass(z, w).hash


def children_ref(a, b, c, d):
    for v in list(a) + list(b) + list(c) + list(d):
        ASSUME(len(v) == 32)
    return list(a) == list(c) and list(b) == list(d)


# ---- merbinner trees
def bits_wire(bits):
    return number(len(bits)) + packed(bits)


def twire(t):
    kind = BTree.UNION_CLASSES.index(t.__class__)
    if t.__class__ is BTree.EmptyNodeClass:
        return stream(kind)
    if t.__class__ is BTree.LeafNodeClass:
        return stream(kind, bits_wire(tuple(t.key)), t.value)
    return stream(kind, bits_wire(tuple(t.prefix)), twire(t.left), twire(t.right))


def tree_on_wire(ops):
    t = made(ops)
    u = BTree.deserialize(t.serialize())
    return (t.serialize() == twire(t), u == t, shape(u) == shape(t), len(u), [(tuple(k), v) for k, v in u.items()])


def tree_on_wire_ref(ops):
    items = made_ref(ops)
    return (True, True, True, len(items), inorder(items))


def prefixes(ops, p, q):
    """the same children under other prefixes: the hash tells them apart"""
    t = made(ops)
    ASSUME(t.__class__ is BTree.InnerNodeClass)
    kind = BTree.UNION_CLASSES.index(BTree.InnerNodeClass)
    a = BTree.deserialize(stream(kind, bits_wire(p), twire(t.left), twire(t.right)))
    b = BTree.deserialize(stream(kind, bits_wire(q), twire(t.left), twire(t.right)))
    return (tuple(a.prefix), tuple(b.prefix), a.hash == b.hash, a == b, a == t)


def prefixes_ref(ops, p, q):
    items = made_ref(ops)
    ASSUME(len(items) > 1)
    r = items[0][0][:common(items)]
    return (p, q, p == q, p == q, p == r)


def exchanged(ops):
    """which child is left is part of the hash"""
    t = made(ops)
    ASSUME(t.__class__ is BTree.InnerNodeClass)
    kind = BTree.UNION_CLASSES.index(BTree.InnerNodeClass)
    a = BTree.deserialize(stream(kind, bits_wire(tuple(t.prefix)), twire(t.right), twire(t.left)))
    return (a.hash == t.hash, a == t, [tuple(k) for k in a], list(a.values()))


def exchanged_ref(ops):
    items = made_ref(ops)
    ASSUME(len(items) > 1)
    n = common(items)
    l = inorder([(k, v) for k, v in items if not k[n]])
    r = inorder([(k, v) for k, v in items if k[n]])
    return (False, False, [k for k, v in r + l], [v for k, v in r + l])


def told_apart(a, b):
    """two trees have one hash when they hold the same"""
    x, y = made(a), made(b)
    return (x.hash == y.hash, x == y, hash(x) == hash(y) or x != y)


def told_apart_ref(a, b):
    x, y = made_ref(a), made_ref(b)
    same = len(x) == len(y) and contained(x, y)
    return (same, same, True)


def contained(x, y):
    for k, v in x:
        if not any([k == a and v == b for a, b in y]):
            return False
    return True
