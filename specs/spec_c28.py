from vspec import ASSUME, ANY
from bitcoin.core.script import CScript, FindAndDelete, RawSignatureHash, SignatureHash
from bitcoin.core import CMutableTransaction
import netlib
import scriptlib
from spec_c20 import full_varint

ONE = b'\x01' + b'\x00' * 31


def raw(p, script, idx, kind, mutable):
    netlib.tx(p)
    ASSUME(len(script) < 2 ** 31)
    t = netlib.mm_tx(p) if mutable else netlib.mk_tx(p)
    s = CScript(script)
    h, err = RawSignatureHash(s, t, idx, kind)
    return (h, err is None, netlib.f_tx(t), s)


def raw_ref(p, script, idx, kind, mutable):
    netlib.tx(p)
    ASSUME(len(script) < 2 ** 31)
    d = digest(p, script, idx, kind)
    return (ONE if d is None else d, d is not None, netlib.f_tx(netlib.mk_tx(p)), CScript(script))


def cooked(p, script, idx, kind):
    netlib.tx(p)
    ASSUME(len(script) < 2 ** 31)
    return SignatureHash(CScript(script), netlib.mk_tx(p), idx, kind)


def cooked_ref(p, script, idx, kind):
    netlib.tx(p)
    ASSUME(len(script) < 2 ** 31)
    d = digest(p, script, idx, kind)
    if d is None:
        raise ValueError('')
    return d


def digest(p, script, idx, kind):
    """what a signature of the given kind at the given input commits to; None
    when there is nothing to commit to"""
    version, ins, outs, locktime = p
    if idx >= len(ins):
        return None
    base = kind % 32
    if base == 3 and idx >= len(outs):
        return None
    w = b''
    n = 0
    for k in range(len(ins)):
        prevout, sig, seq = ins[k]
        if kind // 128 % 2 == 1 and k != idx:
            continue
        n = n + 1
        if k == idx:
            s = FindAndDelete(CScript(script), CScript(b'\xab'))
        else:
            s = b''
            if base == 2 or base == 3:
                seq = 0
        w += netlib.outpoint(prevout) + full_varint(len(s)) + s + netlib.u(4, seq)
    w = netlib.i(4, version) + bytes([n]) + w
    if base == 2:
        w += b'\x00'
    elif base == 3:
        w += bytes([idx + 1])
        for k in range(idx):
            w += b'\xff' * 8 + b'\x00'
        w += netlib.i(8, outs[idx][0]) + netlib.short(outs[idx][1])
    else:
        w += bytes([len(outs)])
        for o in outs:
            w += netlib.i(8, o[0]) + netlib.short(o[1])
    return netlib.sha256d(w + netlib.u(4, locktime) + netlib.u(4, kind))


# ---- deletion from a script
def find(prog, sig):
    return FindAndDelete(CScript(scriptlib.encode(prog)), CScript(sig))


def find_ref(prog, sig):
    """drops every occurrence of sig that starts at an operation"""
    w = scriptlib.encode(prog)
    at = 0
    starts = []
    for op, data in prog:
        starts.append(at)
        at += len(scriptlib.encode([(op, data)]))
    starts.append(at)
    out = b''
    for k in range(len(prog)):
        if w[starts[k]:starts[k] + len(sig)] != sig:
            out += w[starts[k]:starts[k + 1]]
    return CScript(out)


def find_any(prog, sig, n):
    ASSUME(len(sig) == n)
    return find(prog, sig)


def find_any_ref(prog, sig, n):
    ASSUME(len(sig) == n)
    return find_ref(prog, sig)
