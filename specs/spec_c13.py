import io
from vspec import ASSUME, ANY
from bitcoin.core import CTransaction, COutPoint
from bitcoin.core.serialize import (ser_read, MAX_SIZE, SerializationError, SerializationTruncationError, DeserializationExtraDataError,
                                    VarIntSerializer, BytesSerializer, VarStringSerializer, VectorSerializer,
                                    uint256VectorSerializer, intVectorSerialzer)
from bitcoin.net import CAddress
import bitcoin.messages
from proofmarshal.serialize import (StreamDeserializationContext, BytesDeserializationContext, TruncationError,
                                    DeserializationError, FixedBytes, VarBytes, Digest, UInt64, SerBool)
from proofmarshal.bits import BitsSerializer, Bits
import netlib
from spec_c16 import Reader


class Stream:
    """a stream that gives at most the bytes it has and counts what it gave"""
    def __init__(self, buf):
        self.buf = buf
        self.pos = 0

    def read(self, n=None):
        if n is None:
            r = self.buf[self.pos:]
        else:
            ASSUME(n >= 0)
            r = self.buf[self.pos:self.pos + n]
        self.pos += len(r)
        return r


def checked_read(buf, n):
    s = Stream(buf)
    try:
        r = ser_read(s, n)
    except SerializationTruncationError:
        return 'truncated'
    except SerializationError:
        return 'refused', s.pos
    return r, s.pos


def checked_read_ref(buf, n):
    ASSUME(n >= 0)
    if n > 0x02000000:
        return 'refused', 0
    if len(buf) < n:
        return 'truncated'
    return buf[:n], n


# the library's own contexts
def context_read(buf, n):
    s = Stream(buf)
    try:
        r = StreamDeserializationContext(s).read_bytes(n)
    except TruncationError:
        return 'truncated'
    return r


def context_read_ref(buf, n):
    ASSUME(n >= 0)
    if len(buf) < n:
        return 'truncated'
    return buf[:n]


def context_bool(buf):
    return StreamDeserializationContext(io.BytesIO(buf)).read_bool()


def context_bool_ref(buf):
    if len(buf) < 1:
        raise TruncationError()
    ASSUME(buf[0] == 0 or buf[0] == 255)
    return buf[0] == 255


def context_varuint(buf):
    return StreamDeserializationContext(io.BytesIO(buf)).read_varuint()


def context_varuint_ref(buf):
    n = 0
    k = 0
    while True:
        if k >= len(buf):
            raise TruncationError()
        n += (buf[k] % 128) * 128 ** k
        if buf[k] < 128:
            return n
        k += 1


def cut_value(ser, value, k):
    """a proper prefix of an encoding"""
    try:
        ser.check_instance(value)
    except (TypeError, ValueError):
        ASSUME(False)
    w = ser.serialize(value)
    ASSUME(0 <= k < len(w))
    return ser.deserialize(w[:k])


def cut_value_ref(ser, value, k):
    try:
        ser.check_instance(value)
    except (TypeError, ValueError):
        ASSUME(False)
    w = ser.serialize(value)
    ASSUME(0 <= k < len(w))
    raise TruncationError()


def cut_fixed(value, k):
    return cut_value(FixedBytes(16), value, k)


def cut_fixed_ref(value, k):
    return cut_value_ref(FixedBytes(16), value, k)


def cut_variable(value, k):
    return cut_value(VarBytes(2, 8), value, k)


def cut_variable_ref(value, k):
    return cut_value_ref(VarBytes(2, 8), value, k)


def cut_bits(k):
    w = BitsSerializer.serialize(Bits.from_bytes(b'\xa5\xc3', 11))
    ASSUME(0 <= k < len(w))
    return BitsSerializer.deserialize(w[:k])


def cut_bits_ref(k):
    ASSUME(0 <= k < 3)
    raise TruncationError()


# Bitcoin structures: a proper prefix, and more than the encoding
def cut(kind, p, k):
    w = kind[0](p)
    ASSUME(0 <= k < len(w))
    return kind[3].deserialize(w[:k])


def cut_ref(kind, p, k):
    w = kind[0](p)
    ASSUME(0 <= k < len(w))
    raise SerializationTruncationError()


def cut_padding_allowed(kind, p, k):
    w = kind[0](p)
    ASSUME(0 <= k < len(w))
    return kind[3].deserialize(w[:k], allow_padding=True)


def cut_stream(kind, p, k, before):
    w = kind[0](p)
    ASSUME(0 <= k < len(w))
    f = io.BytesIO(before + w[:k])
    f.read(len(before))
    return kind[3].stream_deserialize(f)


def cut_stream_ref(kind, p, k, before):
    cut_ref(kind, p, k)


def cut_payload(kind, p, k):
    w = kind[0](p)
    ASSUME(0 <= k < len(w))
    return kind[3].msg_deser(io.BytesIO(w[:k]))


def cut_notime(p, k):
    w = netlib.addr_body(p)
    ASSUME(0 <= k < len(w))
    return CAddress.stream_deserialize(io.BytesIO(w[:k]), True)


def cut_notime_ref(p, k):
    w = netlib.addr_body(p)
    ASSUME(0 <= k < len(w))
    raise SerializationTruncationError()


def pad(kind, p, extra):
    w = kind[0](p)
    try:
        return 'accepted', kind[2](kind[3].deserialize(w + extra))
    except DeserializationExtraDataError as e:
        return e.padding, kind[2](e.obj)


def pad_ref(kind, p, extra):
    kind[0](p)
    if len(extra):
        return extra, p
    return 'accepted', p


def pad_allowed(kind, p, extra):
    return kind[2](kind[3].deserialize(kind[0](p) + extra, True)), kind[2](kind[3].deserialize(kind[0](p) + extra, allow_padding=True))


def pad_allowed_ref(kind, p, extra):
    kind[0](p)
    return p, p


# lengths a decoder takes from the input
def announced(ser, buf):
    try:
        r = ser.stream_deserialize(io.BytesIO(buf))
    except SerializationTruncationError:
        return 'truncated'
    except SerializationError:
        return 'refused'
    return 'accepted', r


def announced_ref(ser, buf):
    r = Reader(buf)
    try:
        n = r.varint()
        return 'accepted', r.take(n)
    except SerializationTruncationError:
        return 'truncated'
    except SerializationError:
        return 'refused'


def announced_vector(ser, buf):
    try:
        if ser is VectorSerializer:
            r = ser.stream_deserialize(COutPoint, io.BytesIO(buf))
        else:
            r = ser.stream_deserialize(io.BytesIO(buf))
    except SerializationTruncationError:
        return 'truncated'
    except SerializationError:
        return 'refused'
    return 'accepted', len(r)


def announced_vector_ref(ser, buf):
    size = 36 if ser is VectorSerializer else 32 if ser is uint256VectorSerializer else 4
    r = Reader(buf)
    try:
        n = r.varint()
        for k in range(n):
            r.take(size)
        return 'accepted', n
    except SerializationTruncationError:
        return 'truncated'
    except SerializationError:
        return 'refused'


# a transaction or outpoint inside a proof
def inner(ser, cls, w, extra):
    """the length in front says how much there is; the structure has to fill it"""
    return ser.deserialize(extra)
