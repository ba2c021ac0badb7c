"""The script language of the Bitcoin protocol (version 0.9 rules), as a
reference interpreter.  A program is a list of (opcode, data) with data None
for everything that is not a push."""
import hashlib
import bitcoin.core._bignum
from bitcoin.core.key import CECKey
from bitcoin.core.scripteval import EvalScriptError, MissingOpArgumentsError, ArgumentsInvalidError, MaxOpCountError, VerifyOpFailedError

DISABLED = (0x7e, 0x7f, 0x80, 0x81, 0x83, 0x84, 0x85, 0x86, 0x8d, 0x8e, 0x95, 0x96, 0x97, 0x98, 0x99, 0x65, 0x66)

NAMES = (
    ('OP_0', 0x00), ('OP_FALSE', 0x00), ('OP_PUSHDATA1', 0x4c), ('OP_PUSHDATA2', 0x4d), ('OP_PUSHDATA4', 0x4e),
    ('OP_1NEGATE', 0x4f), ('OP_RESERVED', 0x50), ('OP_1', 0x51), ('OP_TRUE', 0x51), ('OP_2', 0x52), ('OP_3', 0x53),
    ('OP_4', 0x54), ('OP_5', 0x55), ('OP_6', 0x56), ('OP_7', 0x57), ('OP_8', 0x58), ('OP_9', 0x59), ('OP_10', 0x5a),
    ('OP_11', 0x5b), ('OP_12', 0x5c), ('OP_13', 0x5d), ('OP_14', 0x5e), ('OP_15', 0x5f), ('OP_16', 0x60), ('OP_NOP', 0x61),
    ('OP_VER', 0x62), ('OP_IF', 0x63), ('OP_NOTIF', 0x64), ('OP_VERIF', 0x65), ('OP_VERNOTIF', 0x66), ('OP_ELSE', 0x67),
    ('OP_ENDIF', 0x68), ('OP_VERIFY', 0x69), ('OP_RETURN', 0x6a), ('OP_TOALTSTACK', 0x6b), ('OP_FROMALTSTACK', 0x6c),
    ('OP_2DROP', 0x6d), ('OP_2DUP', 0x6e), ('OP_3DUP', 0x6f), ('OP_2OVER', 0x70), ('OP_2ROT', 0x71), ('OP_2SWAP', 0x72),
    ('OP_IFDUP', 0x73), ('OP_DEPTH', 0x74), ('OP_DROP', 0x75), ('OP_DUP', 0x76), ('OP_NIP', 0x77), ('OP_OVER', 0x78),
    ('OP_PICK', 0x79), ('OP_ROLL', 0x7a), ('OP_ROT', 0x7b), ('OP_SWAP', 0x7c), ('OP_TUCK', 0x7d), ('OP_CAT', 0x7e),
    ('OP_SUBSTR', 0x7f), ('OP_LEFT', 0x80), ('OP_RIGHT', 0x81), ('OP_SIZE', 0x82), ('OP_INVERT', 0x83), ('OP_AND', 0x84),
    ('OP_OR', 0x85), ('OP_XOR', 0x86), ('OP_EQUAL', 0x87), ('OP_EQUALVERIFY', 0x88), ('OP_RESERVED1', 0x89),
    ('OP_RESERVED2', 0x8a), ('OP_1ADD', 0x8b), ('OP_1SUB', 0x8c), ('OP_2MUL', 0x8d), ('OP_2DIV', 0x8e), ('OP_NEGATE', 0x8f),
    ('OP_ABS', 0x90), ('OP_NOT', 0x91), ('OP_0NOTEQUAL', 0x92), ('OP_ADD', 0x93), ('OP_SUB', 0x94), ('OP_MUL', 0x95),
    ('OP_DIV', 0x96), ('OP_MOD', 0x97), ('OP_LSHIFT', 0x98), ('OP_RSHIFT', 0x99), ('OP_BOOLAND', 0x9a), ('OP_BOOLOR', 0x9b),
    ('OP_NUMEQUAL', 0x9c), ('OP_NUMEQUALVERIFY', 0x9d), ('OP_NUMNOTEQUAL', 0x9e), ('OP_LESSTHAN', 0x9f), ('OP_GREATERTHAN', 0xa0),
    ('OP_LESSTHANOREQUAL', 0xa1), ('OP_GREATERTHANOREQUAL', 0xa2), ('OP_MIN', 0xa3), ('OP_MAX', 0xa4), ('OP_WITHIN', 0xa5),
    ('OP_RIPEMD160', 0xa6), ('OP_SHA1', 0xa7), ('OP_SHA256', 0xa8), ('OP_HASH160', 0xa9), ('OP_HASH256', 0xaa),
    ('OP_CODESEPARATOR', 0xab), ('OP_CHECKSIG', 0xac), ('OP_CHECKSIGVERIFY', 0xad), ('OP_CHECKMULTISIG', 0xae),
    ('OP_CHECKMULTISIGVERIFY', 0xaf), ('OP_NOP1', 0xb0), ('OP_NOP2', 0xb1), ('OP_NOP3', 0xb2), ('OP_NOP4', 0xb3),
    ('OP_NOP5', 0xb4), ('OP_NOP6', 0xb5), ('OP_NOP7', 0xb6), ('OP_NOP8', 0xb7), ('OP_NOP9', 0xb8), ('OP_NOP10', 0xb9),
    ('OP_SMALLINTEGER', 0xfa), ('OP_PUBKEYS', 0xfb), ('OP_PUBKEYHASH', 0xfd), ('OP_PUBKEY', 0xfe), ('OP_INVALIDOPCODE', 0xff),
)


class Missing(Exception):
    pass


class Failed(Exception):
    pass


def number(v):
    return bitcoin.core._bignum.bn2vch(v)


def operand(s):
    v = bitcoin.core._bignum.vch2bn(s)
    if len(s) > 4:
        raise Failed()
    return v


def truth(s):
    n = len(s)
    i = 0
    while i < n:
        b = s[i]
        if b != 0:
            if i == n - 1 and b == 0x80:
                return False
            return True
        i = i + 1
    return False


def flag(b):
    return b'\x01' if b else b''


def sha256(b):
    return hashlib.sha256(b).digest()


def ripemd160(b):
    h = hashlib.new('ripemd160')
    h.update(b)
    return h.digest()


def need(st, n):
    if len(st) < n:
        raise Missing()


def push(n):
    """the canonical push of n bytes, as its leading bytes"""
    if n < 0x4c:
        return bytes([n])
    if n <= 0xff:
        return b'\x4c' + bytes([n])
    if n <= 0xffff:
        return b'\x4d' + n.to_bytes(2, 'little')
    if n > 0xffffffff:
        raise ValueError('')
    return b'\x4e' + n.to_bytes(4, 'little')


def encode(prog):
    out = b''
    for op, data in prog:
        if data is None:
            out += bytes([op])
        elif op < 0x4c:
            out += bytes([op]) + data
        elif op == 0x4c:
            out += bytes([op, len(data)]) + data
        elif op == 0x4d:
            out += bytes([op, len(data) % 256, len(data) // 256]) + data
        else:
            out += bytes([op, len(data) % 256, len(data) // 256, 0, 0]) + data
    return out


def evaluate(prog, stack, code, checksig):
    """runs prog on a copy of the stack; returns the final stack.

    code(start, sigs) is the script a signature commits to and
    checksig(sig, pubkey, code) whether a signature is good."""
    st = list(stack)
    alt = []
    cond = []
    count = 0
    start = 0
    at = 0
    for op, data in prog:
        if data is not None and len(data) > 520:
            raise Failed()
        if op > 0x60:
            count += 1
            if count > 201:
                raise Failed()
        if op in DISABLED:
            raise Failed()
        live = False not in cond
        if op <= 0x4e:
            if live:
                st.append(data)
        elif live or 0x63 <= op <= 0x68:
            if op == 0x4f:
                st.append(number(-1))
            elif 0x51 <= op <= 0x60:
                st.append(number(op - 0x50))
            elif op == 0x61 or 0xb0 <= op <= 0xb9:
                pass
            elif op == 0x63 or op == 0x64:
                v = False
                if live:
                    need(st, 1)
                    v = truth(st[-1])
                    if op == 0x64:
                        v = not v
                    st = st[:-1]
                cond = cond + [v]
            elif op == 0x67:
                if len(cond) == 0:
                    raise Failed()
                cond = cond[:-1] + [not cond[-1]]
            elif op == 0x68:
                if len(cond) == 0:
                    raise Failed()
                cond = cond[:-1]
            elif op == 0x69:
                need(st, 1)
                if not truth(st[-1]):
                    raise Failed()
                st = st[:-1]
            elif op == 0x6b:
                need(st, 1)
                alt = alt + [st[-1]]
                st = st[:-1]
            elif op == 0x6c:
                need(alt, 1)
                st = st + [alt[-1]]
                alt = alt[:-1]
            elif op == 0xab:
                start = at + 1
            elif op == 0xac or op == 0xad:
                need(st, 2)
                sig, key = st[-2], st[-1]
                good = checksig(sig, key, code(start, [sig]))
                if op == 0xad:
                    if not good:
                        raise Failed()
                    st = st[:-2]
                else:
                    st = st[:-2] + [flag(good)]
            elif op == 0xae or op == 0xaf:
                need(st, 1)
                keys = operand(st[-1])
                if keys < 0 or keys > 20:
                    raise Failed()
                count += keys
                if count > 201:
                    raise Failed()
                need(st, keys + 2)
                pubs = [st[-2 - i] for i in range(keys)]
                sigs = operand(st[-2 - keys])
                if sigs < 0 or sigs > keys:
                    raise Failed()
                need(st, keys + sigs + 3)
                signatures = [st[-3 - keys - i] for i in range(sigs)]
                script = code(start, signatures)
                good = True
                while good and len(signatures) > 0:
                    if checksig(signatures[0], pubs[0], script):
                        signatures = signatures[1:]
                    pubs = pubs[1:]
                    if len(signatures) > len(pubs):
                        good = False
                st = st[:-(keys + sigs + 3)]
                if op == 0xaf:
                    if not good:
                        raise Failed()
                else:
                    st = st + [flag(good)]
            else:
                st = simple(op, st)
        if len(st) + len(alt) > 1000:
            raise Failed()
        at = at + 1
    if len(cond) > 0:
        raise Failed()
    return st


def simple(op, st):
    """the stack after an opcode that reads and writes the main stack only"""
    if op == 0x6d:
        need(st, 2)
        return st[:-2]
    if op == 0x6e:
        need(st, 2)
        return st + [st[-2], st[-1]]
    if op == 0x6f:
        need(st, 3)
        return st + [st[-3], st[-2], st[-1]]
    if op == 0x70:
        need(st, 4)
        return st + [st[-4], st[-3]]
    if op == 0x71:
        need(st, 6)
        return st[:-6] + [st[-4], st[-3], st[-2], st[-1], st[-6], st[-5]]
    if op == 0x72:
        need(st, 4)
        return st[:-4] + [st[-2], st[-1], st[-4], st[-3]]
    if op == 0x73:
        need(st, 1)
        return st + [st[-1]] if truth(st[-1]) else st
    if op == 0x74:
        return st + [number(len(st))]
    if op == 0x75:
        need(st, 1)
        return st[:-1]
    if op == 0x76:
        need(st, 1)
        return st + [st[-1]]
    if op == 0x77:
        need(st, 2)
        return st[:-2] + [st[-1]]
    if op == 0x78:
        need(st, 2)
        return st + [st[-2]]
    if op == 0x79 or op == 0x7a:
        need(st, 2)
        n = operand(st[-1])
        st = st[:-1]
        if n < 0 or n >= len(st):
            raise Failed()
        for i in range(len(st)):
            if n == i:
                v = st[-i - 1]
                if op == 0x79:
                    return st + [v]
                return [x for j, x in enumerate(st) if j != len(st) - 1 - i] + [v]
    if op == 0x7b:
        need(st, 3)
        return st[:-3] + [st[-2], st[-1], st[-3]]
    if op == 0x7c:
        need(st, 2)
        return st[:-2] + [st[-1], st[-2]]
    if op == 0x7d:
        need(st, 2)
        return st[:-2] + [st[-1], st[-2], st[-1]]
    if op == 0x82:
        need(st, 1)
        return st + [number(len(st[-1]))]
    if op == 0x87:
        need(st, 2)
        return st[:-2] + [flag(st[-2] == st[-1])]
    if op == 0x88:
        need(st, 2)
        if st[-2] != st[-1]:
            raise Failed()
        return st[:-2]
    if op in (0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92):
        need(st, 1)
        a = operand(st[-1])
        if op == 0x8b:
            r = a + 1
        elif op == 0x8c:
            r = a - 1
        elif op == 0x8f:
            r = 0 - a
        elif op == 0x90:
            r = a if a >= 0 else 0 - a
        elif op == 0x91:
            r = 1 if a == 0 else 0
        else:
            r = 0 if a == 0 else 1
        return st[:-1] + [number(r)]
    if op in (0x93, 0x94) or 0x9a <= op <= 0xa4:
        need(st, 2)
        b = operand(st[-1])
        a = operand(st[-2])
        st = st[:-2]
        if op == 0x93:
            r = a + b
        elif op == 0x94:
            r = a - b
        elif op == 0x9a:
            r = 0 if a == 0 or b == 0 else 1
        elif op == 0x9b:
            r = 0 if a == 0 and b == 0 else 1
        elif op == 0x9c:
            r = 1 if a == b else 0
        elif op == 0x9d:
            if a != b:
                raise Failed()
            return st
        elif op == 0x9e:
            r = 0 if a == b else 1
        elif op == 0x9f:
            r = 1 if a < b else 0
        elif op == 0xa0:
            r = 1 if a > b else 0
        elif op == 0xa1:
            r = 1 if a <= b else 0
        elif op == 0xa2:
            r = 1 if a >= b else 0
        elif op == 0xa3:
            r = a if a < b else b
        else:
            r = a if a > b else b
        return st + [number(r)]
    if op == 0xa5:
        need(st, 3)
        hi = operand(st[-1])
        lo = operand(st[-2])
        x = operand(st[-3])
        return st[:-3] + [flag(lo <= x and x < hi)]
    if op == 0xa6:
        need(st, 1)
        return st[:-1] + [ripemd160(st[-1])]
    if op == 0xa7:
        need(st, 1)
        return st[:-1] + [hashlib.sha1(st[-1]).digest()]
    if op == 0xa8:
        need(st, 1)
        return st[:-1] + [sha256(st[-1])]
    if op == 0xa9:
        need(st, 1)
        return st[:-1] + [ripemd160(sha256(st[-1]))]
    if op == 0xaa:
        need(st, 1)
        return st[:-1] + [sha256(sha256(st[-1]))]
    raise Failed()
