from vspec import ASSUME, ANY, SOME
import bitcoin
from bitcoin.core import (CheckBlock, CheckBlockHeader, CheckProofOfWork, CheckTransaction, GetLegacySigOpCount, ValidationError)
from bitcoin.core.script import CScript, RawSignatureHash
from bitcoin.core.scripteval import EvalScript, VerifyScript, VerifySignature
import netlib
import scriptlib
import spec_c29


def some_ref(*args):
    """a result or a validation error"""
    return SOME


# ---- scripts
def items(stack):
    """no item is larger than a transaction can be"""
    for x in stack:
        ASSUME(len(x) <= 1000000)


def evaluate(prog, tail, stack, tx, idx):
    items(stack)
    script = scriptlib.encode(prog) + tail
    try:
        EvalScript(list(stack), CScript(script), tx, idx)
    except ValidationError:
        return 'invalid'
    return 'valid'


def evaluate_cut(prog, tail, stack, tx, idx):
    """the tail is a push whose data are cut off"""
    return evaluate(prog, spec_c29.tail(tail), stack, tx, idx)


def sized(items, sizes):
    for i in range(len(items)):
        ASSUME(len(items[i]) == sizes[i])


def evaluate_sized(prog, tail, stack, sizes, tx, idx):
    """items of known sizes, and the real numbers in them"""
    sized(stack, sizes)
    return evaluate(prog, tail, stack, tx, idx)


def evaluate_bytes(data, n, lo, hi, stack, tx, idx):
    """a script of any n bytes, the first in this range"""
    items(stack)
    ASSUME(len(data) == n)
    ASSUME(n == 0 or lo <= data[0] < hi)
    try:
        EvalScript(list(stack), CScript(data), tx, idx)
    except ValidationError:
        return 'invalid'
    return 'valid'


def evaluate_long(data, stack, tx, idx):
    ASSUME(len(data) > 10000)
    try:
        EvalScript(list(stack), CScript(data), tx, idx)
    except ValidationError:
        return 'invalid'
    return 'valid'


def verify(sig, pub, tail, tx, idx, names):
    """scripts of any kind, one of them cut off"""
    flags = tuple(spec_c27_flag(n) for n in names)
    try:
        VerifyScript(CScript(scriptlib.encode(sig) + tail[0]), CScript(scriptlib.encode(pub) + tail[1]), tx, idx, flags)
    except ValidationError:
        return 'invalid'
    return 'valid'


def spec_c27_flag(name):
    import bitcoin.core.scripteval
    return getattr(bitcoin.core.scripteval, 'SCRIPT_VERIFY_' + name)


def verify_any(sig, pub, tx, idx, names):
    """any two scripts"""
    flags = tuple(spec_c27_flag(n) for n in names)
    try:
        VerifyScript(CScript(sig), CScript(pub), tx, idx, flags)
    except ValidationError:
        return 'invalid'
    return 'valid'


def spend(src, dst, idx, mutable):
    netlib.tx(src)
    netlib.tx(dst)
    mk = netlib.mm_tx if mutable else netlib.mk_tx
    try:
        VerifySignature(mk(src), mk(dst), idx)
    except ValidationError:
        return 'invalid'
    return 'valid'


# ---- transactions and blocks
def with_scripts(p, scripts):
    """the transaction with these scripts in all of its inputs and outputs"""
    version, ins, outs, locktime = p
    return (version, tuple((o, scripts[0], s) for o, x, s in ins), tuple((v, scripts[1]) for v, x in outs), locktime)


def transaction(p, prog, tail, mutable):
    script = scriptlib.encode(prog) + tail
    p = with_scripts(p, (script, script))
    netlib.tx(p)
    tx = (netlib.mm_tx if mutable else netlib.mk_tx)(p)
    try:
        CheckTransaction(tx)
    except ValidationError:
        return 'invalid'
    return 'valid'


def transaction_any(p, mutable):
    netlib.tx(p)
    tx = (netlib.mm_tx if mutable else netlib.mk_tx)(p)
    try:
        CheckTransaction(tx)
    except ValidationError:
        return 'invalid'
    return 'valid'


def count(prog, tail):
    """counting is part of checking a block"""
    script = CScript(scriptlib.encode(prog) + spec_c29.tail(tail))
    script.GetSigOpCount(False)
    script.GetSigOpCount(True)
    script.is_p2sh()
    script.is_unspendable()
    return 'valid'


def count_bytes(data, n):
    ASSUME(len(data) == n)
    CScript(data).GetSigOpCount(False)
    CScript(data).GetSigOpCount(True)
    return 'valid'


def block(p, prog, tail, where):
    """a block with this script in some input or output"""
    script = scriptlib.encode(prog) + spec_c29.tail(tail)
    head, txs = p
    txs = tuple(with_scripts(t, (script if where == 'in' else b'\x51\x51', script if where == 'out' else b'\x51')) for t in txs)
    p = (head, txs)
    netlib.block(p)
    try:
        CheckBlock(netlib.mk_block(p))
    except ValidationError:
        return 'invalid'
    return 'valid'


def block_any(p, work, merkle):
    netlib.block(p)
    try:
        CheckBlock(netlib.mk_block(p), work, merkle)
    except ValidationError:
        return 'invalid'
    return 'valid'


def header(chain, p, e, m):
    ASSUME(0 <= m <= 0xffffff)
    bitcoin.SelectParams(chain)
    h, prev, root, t, bits, nonce = p
    p = (h, prev, root, t, e * 0x1000000 + m, nonce)
    netlib.header(p)
    try:
        CheckBlockHeader(netlib.mk_header(p))
    except ValidationError:
        return 'invalid'
    return 'valid'
