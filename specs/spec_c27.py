from vspec import ASSUME, ANY
import bitcoin.core.script
import bitcoin.core.scripteval
from bitcoin.core import ValidationError
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import EvalScript, VerifyScript, VerifySignature
import netlib
import scriptlib


def make_flags(names, where):
    m = bitcoin.core.scripteval if where else bitcoin.core.script
    return tuple(getattr(m, 'SCRIPT_VERIFY_' + n) for n in names)


def verify(sig, pub, tx, idx, names, where, kind):
    f = make_flags(names, where)
    return VerifyScript(CScript(sig), CScript(pub), tx, idx, set(f) if kind else f)


def verify_default(sig, pub, tx, idx):
    return VerifyScript(CScript(sig), CScript(pub), tx, idx)


def verify_default_ref(sig, pub, tx, idx):
    return verify_ref(sig, pub, tx, idx, (), True, False)


def pay_to_hash(b):
    return len(b) == 23 and b[0] == 0xa9 and b[1] == 20 and b[22] == 0x87


def verify_ref(sig, pub, tx, idx, names, where, kind):
    bad = ValidationError()
    st = []
    EvalScript(st, CScript(sig), tx, idx)
    left = list(st)
    EvalScript(st, CScript(pub), tx, idx)
    if len(st) == 0 or not scriptlib.truth(st[-1]):
        raise bad
    if 'P2SH' in names and pay_to_hash(pub):
        if not CScript(sig).is_push_only():
            raise bad
        # the script just evaluated hashes the top item, so there is one
        ASSUME(len(left) > 0)
        redeem = left[-1]
        rest = left[:-1]
        EvalScript(rest, CScript(redeem), tx, idx)
        if len(rest) == 0 or not scriptlib.truth(rest[-1]):
            raise bad
    return None


def spend(src, dst, idx, mutable):
    netlib.tx(src)
    netlib.tx(dst)
    return VerifySignature(netlib.mm_tx(src) if mutable else netlib.mk_tx(src), netlib.mm_tx(dst) if mutable else netlib.mk_tx(dst), idx)


def spend_ref(src, dst, idx, mutable):
    w = netlib.tx(src)
    netlib.tx(dst)
    bad = ValidationError()
    if idx < 0 or idx >= len(dst[1]):
        raise bad
    to = netlib.mm_tx(dst) if mutable else netlib.mk_tx(dst)
    for k in range(len(dst[1])):
        if idx == k:
            (h, n), sig, seq = dst[1][k]
            if n >= len(src[2]):
                raise bad
            for j in range(len(src[2])):
                if n == j:
                    if h != netlib.sha256d(w):
                        raise bad
                    VerifyScript(CScript(sig), CScript(src[2][j][1]), to, idx)
                    return None
