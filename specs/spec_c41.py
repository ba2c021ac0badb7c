from vspec import ASSUME, ANY
from speclib import DList


def take(values, n):
    """n known values, made different by their place in memory only: nothing is known of them but their length"""
    for v in values:
        ASSUME(len(v) == 32)
    return list(values)


def shape(x):
    """the tree as it is built"""
    if x.__class__ is DList.EmptyNodeClass:
        return ()
    if x.__class__ is DList.LeafNodeClass:
        return ('leaf', x.value, len(x))
    return ('inner', shape(x.left), shape(x.right), x.length, len(x))


def split(n):
    """how many values the left side holds: all but the smallest perfect tree, or half of a perfect tree"""
    k = 1
    while k < n:
        if n & k:
            return n - k
        k = k * 2
    return n // 2


def shape_ref(l):
    if len(l) == 0:
        return ()
    if len(l) == 1:
        return ('leaf', l[0], 1)
    k = split(len(l))
    return ('inner', shape_ref(l[:k]), shape_ref(l[k:]), len(l), len(l))


# ---- the whole
def built(values):
    l = take(values, 0)
    m = DList(l)
    out = []
    for v in m:
        out.append(v)
    return (len(m), list(m), out, list(reversed(m)), shape(m), isinstance(m, DList))


def built_ref(values):
    l = list(values)
    return (len(l), l, l, l[::-1], shape_ref(l), True)


def grown(values):
    """one after another, looking at what was there before"""
    l = take(values, 0)
    m = DList()
    seen = [m]
    for v in l:
        m = m.append(v)
        seen.append(m)
    return [(shape(x), len(x)) for x in seen]


def grown_ref(values):
    l = list(values)
    return [(shape_ref(l[:n]), n) for n in range(len(l) + 1)]


def extended(values, cuts):
    """in pieces, of several kinds"""
    l = take(values, 0)
    m = DList()
    last = 0
    kinds = (tuple, list, iter, DList)
    n = 0
    for c in cuts + (len(l),):
        before = shape(m)
        r = m.extend(kinds[n % 4](l[last:c]))
        if shape(m) != before:
            return 'changed'
        m = r
        last = c
        n = n + 1
    return (shape(m), list(m), m.hash == DList(l).hash)


def extended_ref(values, cuts):
    l = list(values)
    return (shape_ref(l), l, True)


# ---- parts
def at(m, i):
    try:
        return m[i]
    except IndexError:
        return 'out of range'


def indexed(values):
    m = DList(take(values, 0))
    n = len(values)
    return [at(m, i) for i in range(-n - 3, n + 3)] + [at(m, 1 << 64), at(m, -(1 << 64))]


def indexed_ref(values):
    l = list(values)
    n = len(values)
    return [at(l, i) for i in range(-n - 3, n + 3)] + ['out of range', 'out of range']


def out_of_range(values, i):
    ASSUME(i < -len(values) or i >= len(values))
    return DList(take(values, 0))[i]


def out_of_range_ref(values, i):
    ASSUME(i < -len(values) or i >= len(values))
    raise IndexError('out of range')


def sliced(values, i):
    l = take(values, 0)
    m = DList(l)
    n = len(l)
    out = []
    for j in list(range(-n - 2, n + 3)) + [None]:
        s = m[i:j]
        t = m[i:j:1]
        out.append((list(s), len(s), shape(s), isinstance(s, DList), list(t)))
    return (out, shape(m))


def sliced_ref(values, i):
    l = list(values)
    n = len(l)
    out = []
    for j in list(range(-n - 2, n + 3)) + [None]:
        s = l[i:j]
        out.append((s, len(s), shape_ref(s), True, s))
    return (out, shape_ref(l))


def any_slice(values, i, j):
    m = DList(take(values, 0))
    s = m[i:j]
    return (list(s), shape(s))


def any_slice_ref(values, i, j):
    n = len(values)
    lo = 0 if i is None else i if i >= 0 else i + n
    hi = n if j is None else j if j >= 0 else j + n
    out = []
    for k in range(n):
        if k >= lo and k < hi:
            out.append(values[k])
    return (out, shape_ref(out))


def wrong(values, i):
    return DList(take(values, 0))[i]


def wrong_ref(values, i):
    raise TypeError('not an index')


def wrong_slice(values, i, j, k):
    return DList(take(values, 0))[i:j:k]


def wrong_slice_ref(values, i, j, k):
    raise TypeError('not an index')


def assigned(values, i, op):
    m = DList(take(values, 0))
    if op == 'set':
        m[i] = values[0]
    else:
        del m[i]


def assigned_ref(values, i, op):
    raise TypeError('immutable')
