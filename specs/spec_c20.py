from vspec import ASSUME, ANY
from bitcoin.core import CheckTransaction, CheckTransactionError, MoneyRange
import netlib

COIN = 100000000


def full_varint(n):
    """every length class"""
    if n < 253:
        return netlib.u(1, n)
    if n < 65536:
        return b'\xfd' + netlib.u(2, n)
    return b'\xfe' + netlib.u(4, n)


def long_tx(p):
    """the encoding, with scripts of any length a transaction can carry"""
    w = netlib.i(4, p[0]) + netlib.varint(len(p[1]))
    for t in p[1]:
        w += netlib.outpoint(t[0]) + full_varint(len(t[1])) + t[1] + netlib.u(4, t[2])
    w += netlib.varint(len(p[2]))
    for t in p[2]:
        w += netlib.i(8, t[0]) + full_varint(len(t[1])) + t[1]
    return w + netlib.u(4, p[3])


def check(p, mutable, long):
    if long:
        for t in p[1]:
            ASSUME(len(t[1]) < 2 ** 31)
        for t in p[2]:
            ASSUME(len(t[1]) < 2 ** 31)
        long_tx(p)
    else:
        netlib.tx(p)
    return CheckTransaction(netlib.mm_tx(p) if mutable else netlib.mk_tx(p))


def check_ref(p, mutable, long):
    w = long_tx(p) if long else netlib.tx(p)
    bad = CheckTransactionError()
    if len(p[1]) == 0 or len(p[2]) == 0:
        raise bad
    if len(w) > 1000000:
        raise bad
    total = 0
    for t in p[2]:
        if not 0 <= t[0] <= 21000000 * COIN:
            raise bad
        total += t[0]
        if total > 21000000 * COIN:
            raise bad
    k = 0
    for t in p[1]:
        for s in p[1][:k]:
            if s[0][0] == t[0][0] and s[0][1] == t[0][1]:
                raise bad
        k += 1
    if len(p[1]) == 1 and null(p[1][0][0]):
        if len(p[1][0][1]) < 2 or len(p[1][0][1]) > 100:
            raise bad
    else:
        for t in p[1]:
            if null(t[0]):
                raise bad
    return None


def null(o):
    return o[0] == b'\x00' * 32 and o[1] == 0xffffffff


def money_range(v):
    return MoneyRange(v)


def money_range_ref(v):
    return 0 <= v and v <= 21000000 * COIN


def is_coinbase(p, mutable):
    netlib.tx(p)
    return (netlib.mm_tx(p) if mutable else netlib.mk_tx(p)).is_coinbase()


def is_coinbase_ref(p, mutable):
    netlib.tx(p)
    return len(p[1]) == 1 and null(p[1][0][0])


def is_null(p, mutable):
    netlib.outpoint(p)
    return (netlib.mm_outpoint(p) if mutable else netlib.mk_outpoint(p)).is_null()


def is_null_ref(p, mutable):
    netlib.outpoint(p)
    return null(p)
