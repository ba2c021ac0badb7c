import io
import struct
from vspec import ASSUME, ANY
from bitcoin.net import CAddress
from bitcoin.bloom import CBloomFilter
import bitcoin.messages
from bitcoin.core.serialize import VectorSerializer
import netlib


def encode(kind, p):
    kind[0](p)
    return kind[1](p).serialize()


def decode(kind, p):
    o = kind[3].deserialize(kind[0](p))
    return kind[2](o), o.__class__ is kind[3]


def decode_ref(kind, p):
    kind[0](p)
    return p, True


def wire_ref(kind, p):
    return kind[0](p)


def stream(kind, p, before, after):
    f = io.BytesIO(before + kind[0](p) + after)
    f.read(len(before))
    o = kind[3].stream_deserialize(f)
    return kind[2](o), f.read()


def stream_ref(kind, p, before, after):
    kind[0](p)
    return p, after


# the address without its time stamp
def encode_notime(p):
    netlib.addr_body(p)
    f = io.BytesIO()
    netlib.mk_addr(p).stream_serialize(f, True)
    return f.getvalue()


def encode_notime_ref(p):
    return netlib.addr_body(p)


def decode_notime(p, after):
    f = io.BytesIO(netlib.addr_body(p) + after)
    return netlib.f_addr(CAddress.stream_deserialize(f, True))[1:], f.read()


def decode_notime_ref(p, after):
    netlib.addr_body(p)
    return p[1:], after


# vectors of structures
def encode_vector(kind, ps):
    for p in ps:
        kind[0](p)
    f = io.BytesIO()
    VectorSerializer.stream_serialize(kind[3], [kind[1](p) for p in ps], f)
    return f.getvalue()


def encode_vector_ref(kind, ps):
    return netlib.vec([kind[0](p) for p in ps])


def decode_vector(kind, ps, after):
    f = io.BytesIO(netlib.vec([kind[0](p) for p in ps]) + after)
    r = VectorSerializer.stream_deserialize(kind[3], f)
    return tuple([kind[2](o) for o in r]), f.read()


def decode_vector_ref(kind, ps, after):
    for p in ps:
        kind[0](p)
    return tuple(ps), after


# peer messages: the payload
def msg_ser(kind, p):
    kind[0](p)
    f = io.BytesIO()
    kind[1](p).msg_ser(f)
    return f.getvalue()


def msg_deser(kind, p):
    o = kind[3].msg_deser(io.BytesIO(kind[0](p)))
    return fields(kind, o), o.__class__ is kind[3]


def fields(kind, o):
    return kind[2](o)


def msg_deser_ref(kind, p):
    kind[0](p)
    if kind is netlib.VERSION:
        p = netlib.r_version(p)
    return p, True


def msg_round(kind, p):
    """through the envelope and the command table"""
    kind[0](p)
    m = bitcoin.messages.MsgSerializable.from_bytes(kind[1](p).to_bytes())
    return fields(kind, m), m.__class__ is kind[3]


def default(kind):
    m = kind[3]()
    if kind is netlib.VERSION:
        m.nTime, m.nNonce = 5, 7        # the clock and a random number
    f = io.BytesIO()
    m.msg_ser(f)
    g = io.BytesIO()
    kind[3].msg_deser(io.BytesIO(f.getvalue())).msg_ser(g)
    return f.getvalue() == g.getvalue()


def default_ref(kind):
    return True


# older versions of the version message end earlier
def old_version(p, what):
    return _version_fields(bitcoin.messages.msg_version.msg_deser(io.BytesIO(old_wire(p, what))))


def _version_fields(m):
    return (m.nVersion, m.nServices, m.nTime, netlib.f_addr(m.addrTo)[1:],
            None if m.addrFrom is None else netlib.f_addr(m.addrFrom)[1:], m.nNonce, m.strSubVer, m.nStartingHeight)


def old_wire(p, what):
    v, services, time, to, from_, nonce, sub, height = p
    w = netlib.i(4, v) + netlib.u(8, services) + netlib.i(8, time) + netlib.addr_body(to)
    if what == 'first':
        ASSUME(v < 106)
        return w
    w += netlib.addr_body(from_) + netlib.u(8, nonce) + netlib.short(sub)
    if what == 'second':
        ASSUME(106 <= v < 209)
        return w
    ASSUME(v == 10300)
    return w + netlib.i(4, height)


def old_version_ref(p, what):
    old_wire(p, what)
    v, services, time, to, from_, nonce, sub, height = p
    if what == 'first':
        return v, services, time, to[1:], None, None, None, None
    if what == 'second':
        return v, services, time, to[1:], from_[1:], nonce, sub, None
    return 300, services, time, to[1:], from_[1:], nonce, sub, height


# bloom filters
def mk_bloom(p):
    f = CBloomFilter.__new__(CBloomFilter)
    f.vData, f.nHashFuncs, f.nTweak, f.nFlags = bytearray(p[0]), p[1], p[2], p[3]
    return f


def bloom(p):
    return netlib.short(p[0]) + netlib.u(4, p[1]) + netlib.u(4, p[2]) + netlib.u(1, p[3])


def encode_bloom(p):
    bloom(p)
    return mk_bloom(p).serialize()


def encode_bloom_ref(p):
    return bloom(p)


def decode_bloom(p):
    f = CBloomFilter.deserialize(bloom(p))
    return bytes(f.vData), f.nHashFuncs, f.nTweak, f.nFlags, f.__class__ is CBloomFilter


def decode_bloom_ref(p):
    bloom(p)
    return p[0], p[1], p[2], p[3], True


# ---- strings of every length that can be received
def long_encode(kind, p):
    netlib.STATE['long'] = True
    return encode(kind, p)


def long_encode_ref(kind, p):
    netlib.STATE['long'] = True
    return kind[0](p)


def long_decode(kind, p):
    netlib.STATE['long'] = True
    return decode(kind, p)


def long_decode_ref(kind, p):
    netlib.STATE['long'] = True
    return decode_ref(kind, p)


def long_msg_ser(kind, p):
    netlib.STATE['long'] = True
    return msg_ser(kind, p)


def long_msg_ser_ref(kind, p):
    netlib.STATE['long'] = True
    return kind[0](p)


def long_msg_deser(kind, p):
    netlib.STATE['long'] = True
    return msg_deser(kind, p)


def long_msg_deser_ref(kind, p):
    netlib.STATE['long'] = True
    return msg_deser_ref(kind, p)


def long_bloom(p):
    netlib.STATE['long'] = True
    return encode_bloom(p), decode_bloom(p)


def long_bloom_ref(p):
    netlib.STATE['long'] = True
    return encode_bloom_ref(p), decode_bloom_ref(p)


# ---- objects made by default have their own lists
def fresh(cls, names):
    a = cls()
    for n in names:
        getattr(a, n).append(1)
    b = cls()
    return [len(getattr(b, n)) for n in names]


def fresh_ref(cls, names):
    return [0 for n in names]


def fresh_locator(cls):
    cls().locator.vHave.append(1)
    return len(cls().locator.vHave)


def fresh_locator_ref(cls):
    return 0
