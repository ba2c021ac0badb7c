from vspec import ASSUME
from proofmarshal.bits import Bits


def packed(bits):
    """the bits, first one highest, in bytes"""
    out = []
    for i in range(0, len(bits), 8):
        n = 0
        for j in range(8):
            if i + j < len(bits):
                n = n + bits[i + j] * (1 << (7 - j))
        out.append(n)
    return bytes(out)


def made(bits, pad):
    """a bit string with some unused bits after it"""
    return Bits.from_bytes(packed(bits + pad), len(bits))


def plain(x):
    if x.__class__ is Bits:
        return ('bits', len(x), tuple(x))
    return x


# ---- one operand
def whole(a, p):
    x = made(a, p)
    return (len(x), tuple(x), tuple(x), [b for b in x], bool(x), x == x, x != x)


def whole_ref(a, p):
    return (len(a), a, a, [b for b in a], len(a) > 0, True, False)


def index(a, p, i):
    x = made(a, p)
    return (x[i], tuple(x))


def index_ref(a, p, i):
    if i < -len(a) or i >= len(a):
        raise IndexError('out of range')
    return (a[i], a)


def index_out(a, p, i):
    ASSUME(i < -len(a) or i >= len(a))
    return made(a, p)[i]


def index_out_ref(a, p, i):
    ASSUME(i < -len(a) or i >= len(a))
    raise IndexError('out of range')


def wrong_index(a, p, i):
    return made(a, p)[i]


def wrong_index_ref(a, p, i):
    raise TypeError('not an index')


def part(a, p, i, j, k):
    x = made(a, p)
    r = x[i:j:k]
    return (plain(r), tuple(x), r == Bits(a[i:j:k]) if len(a) < 4 else True)


def part_ref(a, p, i, j, k):
    r = a[i:j:k]
    return (('bits', len(r), r), a, True)


def inverse(a, p):
    x = made(a, p)
    r = ~x
    return (plain(r), tuple(x), tuple(~r))


def inverse_ref(a, p):
    r = tuple([1 - b for b in a])
    return (('bits', len(r), r), a, a)


def text(a, p):
    return repr(made(a, p))


def text_ref(a, p):
    return 'Bits([' + ','.join(['1' if b else '0' for b in a]) + '])'


# ---- construction
def constructed(values):
    x = Bits(values)
    return (plain(x), Bits(x) is x)


def constructed_ref(values):
    r = tuple([1 if v else 0 for v in values])
    return (('bits', len(r), r), True)


def empty():
    return (plain(Bits()), plain(Bits(())), plain(Bits.from_bytes(b'')), plain(Bits.from_bytes(b'\xff', 0)), Bits() == Bits.from_bytes(b'\xff', 0))


def empty_ref():
    e = ('bits', 0, ())
    return (e, e, e, e, True)


def full(bits):
    return plain(Bits.from_bytes(packed(bits)))


def full_ref(bits):
    return ('bits', len(bits), bits)


def from_any(buf, length):
    return len(Bits.from_bytes(buf, length))


def from_any_ref(buf, length):
    if buf.__class__ is not bytes:
        raise TypeError('not bytes')
    if length.__class__ is not int:
        raise TypeError('not a length')
    if length < 0 or length > 8 * len(buf):
        raise ValueError('length out of range')
    return length


# ---- two operands
def compare(a, p, b, q):
    x, y = made(a, p), made(b, q)
    return (x == y, x != y, tuple(x), tuple(y))


def compare_ref(a, p, b, q):
    return (a == b, a != b, a, b)


def order(a, p, b, q):
    x, y = made(a, p), made(b, q)
    return (x < y, x <= y, x > y, x >= y)


def order_ref(a, p, b, q):
    return (a < b, a <= b, a > b, a >= b)


def joined(a, p, b, q):
    x, y = made(a, p), made(b, q)
    return (plain(x + y), tuple(x), tuple(y))


def joined_ref(a, p, b, q):
    return (('bits', len(a) + len(b), a + b), a, b)


def starts(a, p, b, q):
    x, y = made(a, p), made(b, q)
    return (x.startswith(y), tuple(x), tuple(y))


def starts_ref(a, p, b, q):
    return (a[:len(b)] == b, a, b)


def common(a, p, b, q):
    x, y = made(a, p), made(b, q)
    return (plain(x.common_prefix(y)), tuple(x), tuple(y))


def common_ref(a, p, b, q):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n = n + 1
    return (('bits', n, a[:n]), a, b)


# ---- other operands
def other(a, p, op, y):
    x = made(a, p)
    if op == '==':
        return x == y
    if op == '!=':
        return x != y
    if op == '+':
        return x + y
    if op == '<':
        return x < y
    if op == 'startswith':
        return x.startswith(y)
    return x.common_prefix(y)


def other_ref(a, p, op, y):
    if op == '==':
        return False
    if op == '!=':
        return True
    raise TypeError('not a bit string')


# ---- immutability
def changed(a, p, op):
    x = made(a, p)
    if op == 'set':
        x[0] = 1
    elif op == 'del':
        del x[0]
    else:
        x.extra = 1
    return x


def changed_ref(a, p, op):
    if op == 'attr':
        raise AttributeError('no such attribute')
    raise TypeError('immutable')
