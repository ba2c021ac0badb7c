from vspec import ASSUME, ANY, SOME
from bitcoin.core._bignum import bn2vch, vch2bn, bn2mpi, mpi2bn, bn2bin, bin2bn
from bitcoin import base58


# ---- script numbers
def magnitude(n, count):
    """the bytes of a magnitude, the lowest first"""
    out = []
    for i in range(count):
        out.append(n // 256 ** i % 256)
    return out


def number_ref(v):
    """the shortest little-endian form with the sign in the top bit of the last byte"""
    n = -v if v < 0 else v
    if n == 0:
        return b''
    count = 1
    while n >= 256 ** count // 2:
        count = count + 1
    b = magnitude(n, count)
    if v < 0:
        b[-1] = b[-1] + 128
    return bytes(b)


def encoded(v, lo, hi):
    ASSUME(lo <= v <= hi)
    r = bn2vch(v)
    return (r, isinstance(r, bytes))


def encoded_ref(v, lo, hi):
    ASSUME(lo <= v <= hi)
    return (number_ref(v), True)


def back(v, lo, hi):
    ASSUME(lo <= v <= hi)
    return (vch2bn(bn2vch(v)), mpi2bn(bn2mpi(v)))


def back_ref(v, lo, hi):
    ASSUME(lo <= v <= hi)
    return (v, v)


def value_ref(b):
    """the number some bytes stand for"""
    if len(b) == 0:
        return 0
    n = 0
    for i in range(len(b)):
        x = b[i]
        if i == len(b) - 1 and x >= 128:
            x = x - 128
        n = n + x * 256 ** i
    return -n if b[-1] >= 128 else n


def decoded(b, n):
    ASSUME(len(b) == n)
    return vch2bn(b)


def decoded_ref(b, n):
    ASSUME(len(b) == n)
    return value_ref(b)


def minimal(b, n):
    """of the forms of one number the encoder gives the shortest: the one without a padding byte"""
    ASSUME(len(b) == n)
    return bn2vch(vch2bn(b)) == b


def minimal_ref(b, n):
    ASSUME(len(b) == n)
    if n == 0:
        return True
    top = b[n - 1]
    if top != 0 and top != 128:
        return True
    return n > 1 and b[n - 2] >= 128


def size_ref(b):
    return len(b).to_bytes(4, 'big')


def mpi(v, lo, hi):
    ASSUME(lo <= v <= hi)
    return bytes(bn2mpi(v))


def mpi_ref(v, lo, hi):
    ASSUME(lo <= v <= hi)
    b = number_ref(v)
    return size_ref(b) + b[::-1]


def plain(v, lo, hi):
    ASSUME(lo <= v <= hi)
    b = bn2bin(v)
    return (bytes(b), bin2bn(b))


def plain_ref(v, lo, hi):
    ASSUME(lo <= v <= hi)
    count = 0
    while v >= 256 ** count:
        count = count + 1
    return (bytes(magnitude(v, count)[::-1]), v)


def framed(b, n):
    """a size and that many bytes"""
    ASSUME(len(b) == n)
    return mpi2bn(b)


def framed_ref(b, n):
    ASSUME(len(b) == n)
    if n < 4 or int.from_bytes(b[:4], 'big') != n - 4:
        return None
    return value_ref(b[4:][::-1])


# ---- base58
DIGITS = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def text_ref(b):
    """a digit 1 for every leading zero byte, then the number in base 58"""
    zeros = 0
    while zeros < len(b) and b[zeros] == 0:
        zeros = zeros + 1
    n = 0
    for i in range(len(b)):
        n = n * 256 + b[i]
    out = ''
    while n > 0:
        out = DIGITS[n % 58] + out
        n = n // 58
    return '1' * zeros + out


def text(b, n):
    ASSUME(len(b) == n)
    return base58.encode(b)


def text_of(b, n):
    ASSUME(len(b) == n)
    return text_ref(b)


def text_and_back(b, n):
    ASSUME(len(b) == n)
    return base58.decode(base58.encode(b))


def text_and_back_ref(b, n):
    ASSUME(len(b) == n)
    return b


def parsed_value(s):
    n = 0
    for c in s:
        if c not in DIGITS:
            raise base58.InvalidBase58Error
        n = n * 58 + DIGITS.index(c)
    return n


def parsed(s):
    return base58.decode(s)


def parsed_ref(s):
    """the shortest bytes of the number, and a zero byte for every leading digit 1"""
    n = parsed_value(s)
    zeros = 0
    while zeros < len(s) and s[zeros] == '1':
        zeros = zeros + 1
    count = 0
    while n >= 256 ** count:
        count = count + 1
    return b'\x00' * zeros + bytes(magnitude(n, count)[::-1])


def parsed_and_back(s):
    return base58.encode(base58.decode(s)) == s


def parsed_and_back_ref(s):
    parsed_value(s)
    return True
