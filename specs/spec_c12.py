import io
from vspec import ASSUME, ANY
from bitcoin.core import CTransaction, COutPoint
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.proof import Proof, ProofUnion, VarProof
from proofmarshal.serialize import (DeserializationError, StreamSerializationContext, StreamDeserializationContext,
                                    BytesSerializationContext, BytesDeserializationContext, SerBool, FixedBytes, VarBytes,
                                    Digest, UInt8, UInt16, UInt32, UInt64)
import speclib


BITS = Bits.from_bytes(b'\xa5\xc3', 11)


class Recorder:
    """the primitives an encoder writes"""
    def __init__(self):
        self.tokens = []

    def write_bool(self, v):
        self.tokens.append(('bool', v))

    def write_varuint(self, v):
        self.tokens.append(('varuint', v))

    def write_bytes(self, v):
        self.tokens.append(('bytes', v))

    def write_obj(self, v, serialization_class=None):
        if serialization_class is None:
            serialization_class = v.__class__
        serialization_class.ctx_serialize(v, self)


class Disagree(Exception):
    pass


class Replay:
    """hands an encoder's primitives to a decoder, in order"""
    def __init__(self, tokens):
        self.tokens = tokens
        self.pos = 0

    def skip(self):
        # an empty string leaves nothing on the wire
        while self.pos < len(self.tokens) and self.tokens[self.pos][0] == 'bytes' and len(self.tokens[self.pos][1]) == 0:
            self.pos += 1

    def done(self):
        self.skip()
        return self.pos == len(self.tokens)

    def take(self, kind):
        self.skip()
        if self.pos >= len(self.tokens):
            raise Disagree('reads more than was written')
        k, v = self.tokens[self.pos]
        self.pos += 1
        if k != kind:
            raise Disagree('reads a %s where a %s was written' % (kind, k))
        return v

    def read_bool(self):
        return self.take('bool')

    def read_varuint(self, max_int=None):
        return self.take('varuint')

    def read_bytes(self, expected_length=None):
        if expected_length is None:
            expected_length = self.read_varuint()
        out = b''
        while len(out) < expected_length:
            # neighbouring strings are one on the wire
            v = self.take('bytes')
            r = expected_length - len(out)
            if len(v) > r:
                self.pos -= 1
                self.tokens[self.pos] = ('bytes', v[r:])
                v = v[:r]
            out = out + v
        return out

    def read_obj(self, serialization_class):
        return serialization_class.ctx_deserialize(self)


def build(x):
    """(class, pruned?, values) descriptions to objects"""
    if x.__class__ is tuple and len(x) == 3 and x[0] == 'leaf':
        return x[2]
    if x.__class__ is tuple and len(x) == 3:
        cls, pruned, vals = x
        kw = {}
        i = 0
        for n, s in cls.SERIALIZED_ATTRS:
            kw[n] = build(vals[i])
            i += 1
        p = Proof.__new__(cls, **kw)
        return p.prune() if pruned else p
    return x


def dump(p):
    if isinstance(p, Proof):
        if p.is_fully_pruned:
            return (p.__class__.__name__, 'pruned', p.data_hash)
        return (p.__class__.__name__, p.is_pruned, tuple([dump(getattr(p, n)) for n, s in p.SERIALIZED_ATTRS]))
    if p.__class__ is Bits:
        return ('bits', len(p), tuple(p))
    return p


def known(x):
    """what build(x) has to look like"""
    if x.__class__ is tuple and len(x) == 3 and x[0] == 'leaf':
        return dump(x[2])
    if x.__class__ is tuple and len(x) == 3:
        cls, pruned, vals = x
        if pruned:
            return (cls.__name__, 'pruned', build((cls, False, vals)).data_hash)
        return (cls.__name__, anypruned(x), tuple([known(v) for v in vals]))
    return x


def anypruned(x):
    cls, pruned, vals = x
    r = pruned
    i = 0
    for n, s in cls.SERIALIZED_ATTRS:
        v = vals[i]
        if v.__class__ is tuple and v[0] != 'leaf' and isinstance(s, type) and issubclass(s, Proof) and anypruned(v):
            r = True
        i += 1
    return r


def make(x):
    try:
        return build(x)
    except (ValueError, TypeError):
        ASSUME(False)


# ---- the two directions, over the primitives

def code_trip(ser, x):
    v = make(x)
    w = Recorder()
    ser.ctx_serialize(v, w)
    r = Replay(w.tokens)
    q = ser.ctx_deserialize(r)
    return (dump(q), r.done())


def trip(ser, x):
    make(x)
    return (known(x), True)


def code_value(ser, v):
    try:
        ser.check_instance(v)
    except (ValueError, TypeError):
        ASSUME(False)
    w = Recorder()
    ser.ctx_serialize(v, w)
    r = Replay(w.tokens)
    q = ser.ctx_deserialize(r)
    return (q, r.done())


def value(ser, v):
    try:
        ser.check_instance(v)
    except (ValueError, TypeError):
        ASSUME(False)
    return (v, True)


# ---- bounds of the decoders

def code_bounds(ser, n, data):
    tokens = [('varuint', n), ('bytes', data)]
    try:
        return ser.ctx_deserialize(Replay(tokens))
    except DeserializationError:
        return 'refused'


def bounds_uint(ser, n, data):
    hi = {UInt8: 255, UInt16: 65535, UInt32: 4294967295, UInt64: 18446744073709551615}[ser]
    return n if n <= hi else 'refused'


def bounds_var(ser, n, data):
    lo, hi = {V10: (0, 10), V310: (3, 10), V1: (0, 1)}[ser]
    if n < lo or n > hi:
        return 'refused'
    if len(data) < n:
        raise Disagree
    return data[:n]


V10, V310, V1 = VarBytes(10), VarBytes(3, 10), VarBytes(1)
F0, F1, F20 = FixedBytes(0), FixedBytes(1), FixedBytes(20)


def code_fixed(ser, data):
    try:
        return ser.ctx_deserialize(Replay([('bytes', data)]))
    except DeserializationError:
        return 'refused'


def fixed(ser, data):
    n = {F0: 0, F1: 1, F20: 20, Digest: 32}[ser]
    if len(data) < n:
        raise Disagree
    return data[:n]


def code_union(ser, n, h):
    try:
        r = ser.ctx_deserialize(Replay([('varuint', n), ('bool', True), ('bytes', h)]))
    except DeserializationError:
        return 'refused'
    return (r.__class__, r.data_hash)


def union(ser, n, h):
    if n < 0 or n >= len(ser.UNION_CLASSES):
        return 'refused'
    for i in range(len(ser.UNION_CLASSES)):
        if n == i:
            if len(h) < 32:
                raise Disagree
            return (ser.UNION_CLASSES[i], h[:32])


def code_variant(ser, n, x):
    toks = Recorder()
    for v in x:
        toks.write_bytes(v)
    try:
        r = ser.ctx_deserialize(Replay([('bool', False), ('varuint', n)] + toks.tokens))
    except DeserializationError:
        return 'refused'
    return r.__class__


def variant(ser, n, x):
    if n < 0 or n >= len(ser.UNION_CLASSES):
        return 'refused'
    return ANY


# ---- bit strings

def code_bits(n, data):
    try:
        b = BitsSerializer.ctx_deserialize(Replay([('varuint', n), ('bytes', data)]))
    except DeserializationError:
        return 'refused'
    return (b.__class__, len(b), tuple(b))


def bits(n, data):
    m = (n + 7) // 8
    if len(data) < m:
        raise Disagree
    out = []
    for i in range(n):
        out.append(data[i // 8] // (128, 64, 32, 16, 8, 4, 2, 1)[i % 8] % 2)
    if n % 8:
        if data[m - 1] % (128, 64, 32, 16, 8, 4, 2)[n % 8 - 1] != 0:
            return 'refused'
    return (Bits, n, tuple(out))


def code_bits_trip(n, data, skip):
    b = Bits.from_bytes(data, n + skip)
    w = Recorder()
    BitsSerializer.ctx_serialize(b[skip:] if skip else b, w)
    r = Replay(w.tokens)
    c = BitsSerializer.ctx_deserialize(r)
    return (len(c), tuple(c), r.done())


def bits_trip(n, data, skip):
    if len(data) * 8 < n + skip:
        raise ValueError
    out = []
    for i in range(skip, n + skip):
        out.append(data[i // 8] // (128, 64, 32, 16, 8, 4, 2, 1)[i % 8] % 2)
    return (n, tuple(out), True)


# ---- the primitives on the wire

def written(kind, v):
    w = BytesSerializationContext()
    if kind == 'bool':
        w.write_bool(v)
    elif kind == 'varuint':
        w.write_varuint(v)
    elif kind == 'bytes':
        w.write_bytes(v)
    return w.getbytes()


def code_bool_write(v):
    return written('bool', v)


def bool_write(v):
    if v.__class__ is not bool:
        raise TypeError
    return b'\xff' if v else b'\x00'


def code_bool_read(data):
    c = BytesDeserializationContext(data)
    try:
        r = c.read_bool()
    except DeserializationError:
        return 'refused'
    return (r, c.fd.read())


def bool_read(data):
    if len(data) < 1:
        return 'refused'
    if data[0] == 255:
        return (True, data[1:])
    if data[0] == 0:
        return (False, data[1:])
    return 'refused'


def code_varuint_write(v):
    return written('varuint', v)


def varuint_write(v):
    ASSUME(0 <= v < 128 ** 10)
    out = b''
    for i in range(10):
        if v < 128 ** (i + 1):
            return out + bytes([v // 128 ** i])
        out = out + bytes([v // 128 ** i % 128 + 128])


def code_varuint_read(data):
    c = BytesDeserializationContext(data)
    try:
        r = c.read_varuint()
    except DeserializationError:
        return 'refused'
    return (r, c.fd.read())


def varuint_read(data):
    v = 0
    for i in range(11):
        if len(data) <= i:
            return 'refused'
        v = v + data[i] % 128 * 128 ** i
        if data[i] < 128:
            return (v, data[i + 1:])
    ASSUME(False)


def code_varuint_byte(k, low, b):
    ASSUME(0 <= b < 256)
    return code_varuint_read(bytes([low + 128]) * k + bytes([b, 1]))


def varuint_byte(k, low, b):
    ASSUME(0 <= b < 256)
    return varuint_read(bytes([low + 128]) * k + bytes([b, 1]))


def code_bytes_write(v):
    return written('bytes', v)


def bytes_write(v):
    return v


def code_bytes_read(data, n):
    c = BytesDeserializationContext(data)
    try:
        r = c.read_bytes(n)
    except DeserializationError:
        return 'refused'
    return (r, c.fd.read())


def bytes_read(data, n):
    if len(data) < n:
        return 'refused'
    return (data[:n], data[n:])


def code_varbytes_read(data):
    c = BytesDeserializationContext(data)
    try:
        r = c.read_bytes(None)
    except DeserializationError:
        return 'refused'
    return (r, c.fd.read())


def varbytes_read(data):
    if len(data) < 1:
        return 'refused'
    ASSUME(data[0] < 128)
    if len(data) < 1 + data[0]:
        return 'refused'
    return (data[1:1 + data[0]], data[1 + data[0]:])


def code_obj(ser, a, b):
    """objects written one after another come back one after another"""
    try:
        ser.check_instance(a)
    except (ValueError, TypeError):
        ASSUME(False)
    w = BytesSerializationContext()
    w.write_obj(a, ser)
    w.write_bytes(b)
    r = BytesDeserializationContext(w.getbytes())
    x = r.read_obj(ser)
    return (x, r.read_bytes(len(b)))


def obj(ser, a, b):
    return (a, b)


def code_entry(ser, v):
    try:
        ser.check_instance(v)
    except (ValueError, TypeError):
        ASSUME(False)
    s = ser.serialize(v)
    return ser.deserialize(s)


def entry(ser, v):
    try:
        ser.check_instance(v)
    except (ValueError, TypeError):
        ASSUME(False)
    return v


def code_proof_entry(x):
    v = make(x)
    s = v.serialize()
    return dump(v.__class__.deserialize(s))


def proof_entry(x):
    make(x)
    return known(x)


def code_proof_obj(x):
    """without naming a class, the object's own is used"""
    v = make(x)
    w = BytesSerializationContext()
    w.write_obj(v)
    r = BytesDeserializationContext(w.getbytes())
    q = r.read_obj(v.__class__)
    return (dump(q), r.fd.read())


def proof_obj(x):
    make(x)
    return (known(x), b'')
