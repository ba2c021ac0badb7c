import hashlib
import time
from vspec import ASSUME, ANY
import bitcoin
import bitcoin.core
from bitcoin.core import (CheckProofOfWork, CheckProofOfWorkError, CheckBlockHeader, CheckBlockHeaderError)
from bitcoin.core.serialize import uint256_from_compact, uint256_from_str
import netlib

LIMIT = {'mainnet': 2 ** 224 - 1, 'testnet': 2 ** 224 - 1, 'regtest': 2 ** 255 - 1}


def work(chain, e, s, m, h):
    """nBits with exponent e, sign s and mantissa m"""
    ASSUME(0 <= m < 0x800000)
    ASSUME(len(h) == 32)
    bitcoin.SelectParams(chain)
    return CheckProofOfWork(h, e * 0x1000000 + s * 0x800000 + m)


def work_ref(chain, e, s, m, h):
    ASSUME(0 <= m < 0x800000)
    ASSUME(len(h) == 32)
    if s:
        raise CheckProofOfWorkError()
    t = compact(e, m)
    if t <= 0 or t > LIMIT[chain]:
        raise CheckProofOfWorkError()
    n = 0
    for k in range(32):
        n += h[k] << 8 * k
    if n > t:
        raise CheckProofOfWorkError()
    return None


def compact(e, m):
    if e >= 3:
        return m << 8 * (e - 3)
    if e == 2:
        return m // 256
    if e == 1:
        return m // 65536
    return 0


def target(e, m):
    ASSUME(0 <= m < 0x800000)
    return uint256_from_compact(e * 0x1000000 + m)


def target_ref(e, m):
    ASSUME(0 <= m < 0x800000)
    return compact(e, m)


def number(h):
    ASSUME(len(h) == 32)
    return uint256_from_str(h)


def number_ref(h):
    ASSUME(len(h) == 32)
    return int.from_bytes(h, 'little')


def now(p, check, cur_time):
    b = netlib.mk_header(p)
    netlib.header(p)
    if cur_time is None:
        return CheckBlockHeader(b, check)
    return CheckBlockHeader(b, check, cur_time)


def header(chain, p, check, cur_time):
    netlib.header(p)
    bitcoin.SelectParams(chain)
    b = netlib.mk_header(p)
    if check == 'default':
        if cur_time is None:
            return CheckBlockHeader(b)
        return CheckBlockHeader(b, cur_time=cur_time)
    return CheckBlockHeader(b, fCheckPoW=check, cur_time=cur_time)


def header_ref(chain, p, check, cur_time):
    w = netlib.header(p)
    now = time.time() if cur_time is None else cur_time
    bad = CheckBlockHeaderError()
    if p[3] > now + 7200:
        raise bad
    if check:
        h = netlib.sha256d(w)
        n = 0
        for k in range(32):
            n += h[k] << 8 * k
        t = compact(p[4] >> 24, p[4] & 0x7fffff)
        if p[4] & 0x800000 or t <= 0 or t > LIMIT[chain] or n > t:
            raise bad
    return None
