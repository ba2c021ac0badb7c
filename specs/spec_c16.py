import io
from vspec import ASSUME, ANY
from bitcoin.core.serialize import (VarIntSerializer, BytesSerializer, VarStringSerializer, VectorSerializer,
                                    uint256VectorSerializer, intVectorSerialzer, SerializationError,
                                    SerializationTruncationError, DeserializationExtraDataError)
import netlib


def encode(kind, p):
    kind[0](p)                       # the field values are encodable
    return kind[1](p).serialize()


def encode_ref(kind, p):
    return kind[0](p)


def encode_mutable(kind, p):
    kind[0](p)
    return kind[4](p).serialize()


def encode_copy(kind, p):
    """a mutable copy, and an immutable one of that"""
    kind[0](p)
    m = kind[5]
    c = kind[3]
    o = kind[1](p)
    if kind is netlib.OUTPOINT:
        m = m.from_outpoint(o)
        c = c.from_outpoint(m)
    elif kind is netlib.TXIN:
        m = m.from_txin(o)
        c = c.from_txin(m)
    elif kind is netlib.TXOUT:
        m = m.from_txout(o)
        c = c.from_txout(m)
    else:
        m = m.from_tx(o)
        c = c.from_tx(m)
    return m.serialize(), c.serialize()


def encode_copy_ref(kind, p):
    w = kind[0](p)
    return w, w


def decode(kind, p):
    return kind[2](kind[3].deserialize(kind[0](p)))


def decode_mutable(kind, p):
    o = kind[5].deserialize(kind[0](p))
    return kind[2](o), o.__class__ is kind[5]


def decode_mutable_ref(kind, p):
    kind[0](p)
    return p, True


def decode_class(kind, p):
    return kind[3].deserialize(kind[0](p)).__class__ is kind[3]


def decode_class_ref(kind, p):
    kind[0](p)
    return True


def decode_ref(kind, p):
    kind[0](p)
    return p


def stream(kind, p, before, after):
    """two structures in one stream: each takes exactly its own bytes"""
    w = kind[0](p)
    f = io.BytesIO(before + w + after)
    f.read(len(before))
    o = kind[3].stream_deserialize(f)
    return kind[2](o), f.read()


def stream_ref(kind, p, before, after):
    kind[0](p)
    return p, after


def get_hash(kind, p):
    kind[0](p)
    o = kind[1](p)
    return o.GetHash(), o.GetHash()


def hash_ref(kind, p):
    w = kind[0](p)
    if kind is netlib.BLOCK:
        w = netlib.header(p[0])
    h = netlib.sha256d(w)
    return h, h


def mutable_hash(kind, p):
    kind[0](p)
    return kind[4](p).GetHash()


def mutable_hash_ref(kind, p):
    return netlib.sha256d(kind[0](p))


def decoded_hash(kind, p):
    return kind[3].deserialize(kind[0](p)).GetHash()


def decoded_hash_ref(kind, p):
    return hash_ref(kind, p)[0]


def header_of_block(p):
    netlib.block(p)
    b = netlib.mk_block(p)
    h = b.get_header()
    return netlib.f_header(h), h.serialize()


def header_of_block_ref(p):
    netlib.block(p)
    return p[0], netlib.header(p[0])


# ------------------------------------------------------------ variable length

class Reader:
    def __init__(self, buf):
        self.buf = buf
        self.pos = 0

    def take(self, n):
        if n > 0x02000000:
            raise SerializationError()
        if len(self.buf) - self.pos < n:
            raise SerializationTruncationError()
        r = self.buf[self.pos:self.pos + n]
        self.pos += n
        return r

    def varint(self):
        a = self.take(1)[0]
        if a < 0xfd:
            return a
        if a == 0xfd:
            return int.from_bytes(self.take(2), 'little')
        if a == 0xfe:
            return int.from_bytes(self.take(4), 'little')
        return int.from_bytes(self.take(8), 'little')


def write_varint(n):
    ASSUME(n <= 0xffffffffffffffff)
    f = io.BytesIO()
    VarIntSerializer.stream_serialize(n, f)
    return f.getvalue(), VarIntSerializer.serialize(n)


def write_varint_ref(n):
    if n < 0:
        raise ValueError()
    w = netlib.varint(n)
    return w, w


def read_varint(buf):
    f = io.BytesIO(buf)
    return VarIntSerializer.stream_deserialize(f), f.read(), VarIntSerializer.deserialize(buf)


def read_varint_ref(buf):
    r = Reader(buf)
    v = r.varint()
    return v, buf[r.pos:], v


def write_bytes(ser, b):
    f = io.BytesIO()
    ser.stream_serialize(b, f)
    return f.getvalue()


def write_bytes_ref(ser, b):
    return netlib.varint(len(b)) + b


def read_bytes(ser, buf):
    f = io.BytesIO(buf)
    return ser.stream_deserialize(f), f.read()


def read_bytes_ref(ser, buf):
    r = Reader(buf)
    n = r.varint()
    b = r.take(n)
    return b, buf[r.pos:]


def read_hashes(buf):
    f = io.BytesIO(buf)
    return tuple(uint256VectorSerializer.stream_deserialize(f)), f.read()


def read_hashes_ref(buf):
    r = Reader(buf)
    n = r.varint()
    out = []
    for k in range(n):
        out.append(r.take(32))
    return tuple(out), buf[r.pos:]


def read_ints(buf):
    f = io.BytesIO(buf)
    return tuple(intVectorSerialzer.stream_deserialize(f)), f.read()


def read_ints_ref(buf):
    r = Reader(buf)
    n = r.varint()
    out = []
    for k in range(n):
        out.append(int.from_bytes(r.take(4), 'little', signed=True))
    return tuple(out), buf[r.pos:]


def write_hashes(hs):
    for x in hs:
        netlib.h32(x)
    f = io.BytesIO()
    uint256VectorSerializer.stream_serialize(hs, f)
    return f.getvalue()


def write_hashes_ref(hs):
    return netlib.vec([netlib.h32(x) for x in hs])


def write_ints(vs):
    netlib.vec([netlib.i(4, x) for x in vs])
    f = io.BytesIO()
    intVectorSerialzer.stream_serialize(vs, f)
    return f.getvalue()


def write_ints_ref(vs):
    return netlib.vec([netlib.i(4, x) for x in vs])


# ---- strings of every length that can be received
def long_encode(kind, p):
    netlib.STATE['long'] = True
    return encode(kind, p)


def long_encode_ref(kind, p):
    netlib.STATE['long'] = True
    return kind[0](p)


def long_decode(kind, p):
    netlib.STATE['long'] = True
    return kind[2](kind[3].deserialize(kind[0](p)))


def long_decode_ref(kind, p):
    netlib.STATE['long'] = True
    kind[0](p)
    return p


def long_hash(kind, p):
    netlib.STATE['long'] = True
    kind[0](p)
    return kind[1](p).GetHash()


def long_hash_ref(kind, p):
    netlib.STATE['long'] = True
    return netlib.sha256d(kind[0](p))
