from vspec import ASSUME, ANY
import bitcoin.core._bignum
from bitcoin.core.script import CScript, CScriptOp, CScriptInvalidError
import netlib
import scriptlib


# ---- encoding
def built(items):
    return bytes(CScript(items))


def built_from_iterator(items):
    return bytes(CScript(iter(items)))


def added(items):
    s = CScript()
    for x in items:
        s = s + x
    return (bytes(s), isinstance(s, CScript))


def added_ref(items):
    return (built_ref(items), True)


def pushed(d):
    return bytes(CScriptOp.encode_op_pushdata(d))


def pushed_ref(d):
    if len(d) > 0xffffffff:
        raise ValueError('')
    return scriptlib.push(len(d)) + d


def built_ref(items):
    out = b''
    for x in items:
        if isinstance(x, CScriptOp):
            out += bytes([int(x)])
        elif isinstance(x, int):
            if x == 0:
                out += b'\x00'
            elif 1 <= x <= 16:
                out += bytes([0x50 + x])
            elif x == -1:
                out += b'\x4f'
            else:
                v = bitcoin.core._bignum.bn2vch(x)
                ASSUME(len(v) < 2 ** 31)
                out += scriptlib.push(len(v)) + v
        else:
            x = bytes(x)
            if len(x) > 0xffffffff:
                raise ValueError('')
            out += scriptlib.push(len(x)) + x
    return out


def built_from_iterator_ref(items):
    return built_ref(items)


def opcode(n):
    return bytes(CScript([CScriptOp(n)])), bytes(CScript() + CScriptOp(n))


def opcode_ref(n):
    return bytes([n]), bytes([n])


def raw_bytes(b):
    return bytes(CScript(b)), bytes(CScript(bytearray(b))), bytes(CScript([bytearray(b)])) == bytes(CScript([b]))


def raw_bytes_ref(b):
    if len(b) > 0xffffffff:
        raise ValueError('')
    return b, b, True


# ---- parsing: programs with data of any length, cut off or not
# an item is (opcode, data, size, length bytes); data is None for an opcode that pushes nothing
def full(prog):
    out = b''
    for op, data, size, digits in prog:
        out += lead(op, size, digits)
        if data is not None:
            ASSUME(len(data) == size)
            out += data
    return out


def lead(op, size, digits):
    """the leading bytes of an opcode"""
    n = 0
    place = 1
    for x in digits:
        ASSUME(0 <= x and x < 256)
        n += x * place
        place *= 256
    if digits:
        ASSUME(n == size)
    elif size is not None:
        ASSUME(0 <= op and op < 0x4c)
    return bytes([op]) + bytes(digits)


def items(prog):
    """what the parser yields: opcode, data, position"""
    out = []
    at = 0
    for op, data, size, digits in prog:
        out.append((op, data, at))
        at += 1 + len(digits)
        if data is not None:
            at += size
    return out


def tail(t):
    """a push that is cut off: as an item, or as the bytes that are there"""
    if t is None:
        return b''
    if isinstance(t, bytes):
        return t
    op, data, size, digits = t
    w = lead(op, size, digits)
    ASSUME(len(data) < size)
    return w + data


def parse(prog, t):
    s = CScript(full(prog) + tail(t))
    out = []
    try:
        for op, data, at in s.raw_iter():
            out.append((op, data, at))
    except CScriptInvalidError:
        return out, 'cut'
    return out, 'whole'


def parse_ref(prog, t):
    full(prog)
    tail(t)
    return items(prog), 'whole' if t is None else 'cut'


def cooked(prog, t):
    s = CScript(full(prog) + tail(t))
    out = []
    try:
        for x in s:
            out.append(x)
    except CScriptInvalidError:
        return [(isinstance(x, bytes), isinstance(x, CScriptOp), x if isinstance(x, bytes) else int(x)) for x in out], 'cut'
    return [(isinstance(x, bytes), isinstance(x, CScriptOp), x if isinstance(x, bytes) else int(x)) for x in out], 'whole'


def cooked_ref(prog, t):
    full(prog)
    tail(t)
    out = []
    for op, data, at in items(prog):
        if data is not None:
            out.append((True, False, data))
        elif 0x51 <= op <= 0x60:
            out.append((False, False, op - 0x50))
        else:
            out.append((False, True, op))
    return out, 'whole' if t is None else 'cut'


def tests(prog, t):
    s = CScript(full(prog) + tail(t))
    return (True if s.is_push_only() else False, True if s.has_canonical_pushes() else False, True if s.is_valid() else False,
            True if s.is_unspendable() else False)


def tests_ref(prog, t):
    w = full(prog) + tail(t)
    cut = t is not None
    push, canonical = not cut, not cut
    for op, data, at in items(prog):
        if data is None:
            if op > 0x60:
                push = False
            continue
        n = len(data)
        if 0 < op < 0x4c and n == 1 and data[0] <= 16:
            canonical = False
        if op == 0x4c and n < 0x4c or op == 0x4d and n <= 0xff or op == 0x4e and n <= 0xffff:
            canonical = False
    return (push, canonical, not cut, len(w) > 0 and w[0] == 0x6a)


def counts(prog, t):
    s = CScript(full(prog) + tail(t))
    return s.GetSigOpCount(True), s.GetSigOpCount(False)


def counts_ref(prog, t):
    full(prog)
    tail(t)
    n = m = 0
    last = None
    for op, data, at in items(prog):
        if data is None:
            if op == 0xac or op == 0xad:
                n += 1
                m += 1
            elif op == 0xae or op == 0xaf:
                n += last - 0x50 if last is not None and 0x51 <= last <= 0x60 else 20
                m += 20
        last = op
    return n, m


def to_hash(b, kind):
    s = CScript(b)
    r = s.to_p2sh_scriptPubKey() if kind else s.to_p2sh_scriptPubKey(checksize=False)
    return bytes(r), True if r.is_p2sh() else False


def to_hash_ref(b, kind):
    if kind and len(b) > 520:
        raise ValueError('')
    return b'\xa9\x14' + scriptlib.ripemd160(scriptlib.sha256(b)) + b'\x87', True


def is_to_hash(b):
    return True if CScript(b).is_p2sh() else False


def is_to_hash_ref(b):
    return len(b) == 23 and b[0] == 0xa9 and b[1] == 20 and b[22] == 0x87
