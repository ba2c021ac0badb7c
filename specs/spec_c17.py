import hashlib
import io
import struct
from vspec import ASSUME, ANY
import bitcoin
import bitcoin.messages
from bitcoin.messages import MsgSerializable
from bitcoin.core.serialize import SerializationError, SerializationTruncationError
from spec_c13 import Stream
import netlib

MAGIC = {'mainnet': b'\xf9\xbe\xb4\xd9', 'testnet': b'\x0b\x11\x09\x07', 'regtest': b'\xfa\xbf\xb5\xda'}


def params_of(chain):
    if chain == 'mainnet':
        return bitcoin.MainParams()
    if chain == 'testnet':
        return bitcoin.TestNetParams()
    return bitcoin.RegTestParams()


class Probe(MsgSerializable):
    """a message with any payload"""
    command = b'probe'

    def __init__(self, payload):
        MsgSerializable.__init__(self)
        self.payload = payload

    def msg_ser(self, f):
        f.write(self.payload)


class LongProbe(Probe):
    command = b'twelve-bytes'


class Params:
    """a network with any magic"""
    def __init__(self, magic):
        self.MESSAGE_START = magic


def checksum(payload):
    return hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4]


def envelope(magic, command, payload):
    return magic + command + b'\x00' * (12 - len(command)) + struct.pack('<I', len(payload)) + checksum(payload) + payload


def send(cls, payload, magic):
    ASSUME(len(payload) <= 0x02000000)
    return cls(payload).to_bytes(Params(magic))


def send_ref(cls, payload, magic):
    ASSUME(len(payload) <= 0x02000000)
    return envelope(magic, cls.command, payload)


def send_chain(chain, payload):
    ASSUME(len(payload) <= 0x02000000)
    return Probe(payload).to_bytes(params_of(chain))


def send_chain_ref(chain, payload):
    ASSUME(len(payload) <= 0x02000000)
    return envelope(MAGIC[chain], b'probe', payload)


def send_default(payload):
    ASSUME(len(payload) <= 0x02000000)
    f = io.BytesIO()
    Probe(payload).stream_serialize(f)
    return Probe(payload).to_bytes(), f.getvalue()


def send_default_ref(payload):
    ASSUME(len(payload) <= 0x02000000)
    w = envelope(MAGIC['mainnet'], b'probe', payload)
    return w, w


# a real message: the envelope is what the payload encoder wrote
def send_kind(kind, command, p):
    kind[0](p)
    return kind[1](p).to_bytes()


def send_kind_ref(kind, command, p):
    w = kind[0](p)
    ASSUME(len(w) <= 0x02000000)
    return envelope(MAGIC['mainnet'], command, w)


# receiving
def receive(chain, command, magic, length, check, rest):
    ASSUME(len(magic) == 4)
    ASSUME(len(length) == 4)
    ASSUME(len(check) == 4)
    s = Stream(magic + command + length + check + rest)
    try:
        r = MsgSerializable.stream_deserialize(s, params_of(chain))
    except SerializationTruncationError:
        return 'truncated'
    except SerializationError:
        return 'refused', s.pos
    except ValueError:
        return 'invalid', s.pos
    return 'decoded', r, s.pos


def receive_ref(chain, command, magic, length, check, rest):
    ASSUME(len(magic) == 4)
    ASSUME(len(length) == 4)
    ASSUME(len(check) == 4)
    if magic != MAGIC[chain]:
        return 'invalid', 24
    n = struct.unpack('<i', length)[0]
    if n < 0:
        return 'invalid', 24
    if n > 0x02000000:
        return 'refused', 24
    if len(rest) < n:
        return 'truncated'
    payload = rest[:n]
    if check != checksum(payload):
        return 'invalid', 24 + n
    return 'decoded', dispatch(command.split(b'\x00')[0], payload), 24 + n


def receive_bytes(command, magic, length, check, rest):
    """the same through from_bytes"""
    ASSUME(len(magic) == 4)
    ASSUME(len(length) == 4)
    ASSUME(len(check) == 4)
    try:
        r = MsgSerializable.from_bytes(magic + command + length + check + rest)
    except SerializationTruncationError:
        return 'truncated'
    except SerializationError:
        return 'refused'
    except ValueError:
        return 'invalid'
    return 'decoded', r


def receive_bytes_ref(command, magic, length, check, rest):
    r = receive_ref('mainnet', command, magic, length, check, rest)
    if r == 'truncated':
        return r
    if r[0] == 'decoded':
        return r[:2]
    return r[0]


def dispatch(command, payload):
    f = io.BytesIO(payload)
    if command == b'version':
        return bitcoin.messages.msg_version.msg_deser(f)
    if command == b'verack':
        return bitcoin.messages.msg_verack.msg_deser(f)
    if command == b'addr':
        return bitcoin.messages.msg_addr.msg_deser(f)
    if command == b'alert':
        return bitcoin.messages.msg_alert.msg_deser(f)
    if command == b'inv':
        return bitcoin.messages.msg_inv.msg_deser(f)
    if command == b'getdata':
        return bitcoin.messages.msg_getdata.msg_deser(f)
    if command == b'getblocks':
        return bitcoin.messages.msg_getblocks.msg_deser(f)
    if command == b'getheaders':
        return bitcoin.messages.msg_getheaders.msg_deser(f)
    if command == b'headers':
        return bitcoin.messages.msg_headers.msg_deser(f)
    if command == b'tx':
        return bitcoin.messages.msg_tx.msg_deser(f)
    if command == b'block':
        return bitcoin.messages.msg_block.msg_deser(f)
    if command == b'getaddr':
        return bitcoin.messages.msg_getaddr.msg_deser(f)
    if command == b'ping':
        return bitcoin.messages.msg_ping.msg_deser(f)
    if command == b'pong':
        return bitcoin.messages.msg_pong.msg_deser(f)
    if command == b'mempool':
        return bitcoin.messages.msg_mempool.msg_deser(f)
    return None


def short_header(buf):
    s = Stream(buf)
    return MsgSerializable.stream_deserialize(s)


def short_header_ref(buf):
    ASSUME(len(buf) < 24)
    raise SerializationTruncationError()
