from engine.oblig import Equiv, Table, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c16, c18

METHOD = 'outcome tables of every decoder on every proper prefix and every extension of a symbolic encoding, and of the ' \
         'reading primitives over arbitrary streams'
S = 'spec_c13.'


def obligations(P):
    out = []
    need(P, 'netlib.TX')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    B = 'bitcoin.core.serialize.'
    out.append(Equiv('ser_read', S + 'checked_read', S + 'checked_read_ref', args(('buf', 'bytes'), ('n', 'int')), effects=False, site=B + 'ser_read'))
    C_ = 'proofmarshal.serialize.StreamDeserializationContext'
    out.append(Equiv('context read_bytes', S + 'context_read', S + 'context_read_ref', args(('buf', 'bytes'), ('n', 'int')), effects=False, site=C_))
    out.append(Equiv('context read_bool', S + 'context_bool', S + 'context_bool_ref', args(('buf', 'bytes')), effects=False, site=C_))
    out.append(Equiv('context read_varuint', S + 'context_varuint', S + 'context_varuint_ref', args(('buf', 'bytes')), K=4, effects=False, site=C_))
    k = sym('k', 'int')
    extra = sym('extra', 'bytes')
    kinds = [('bitcoin.core.' + c16.CLS[kind], n, need(P, 'netlib.' + kind), shape) for n, kind, shape in c16.SHAPES]
    kinds += [('bitcoin.net.' + cls, n, need(P, 'netlib.' + kind), shape) for n, kind, cls, shape in c18.STRUCTS]
    for site, n, kind, shape in kinds:
        out.append(Equiv(n + ' cut', S + 'cut', S + 'cut_ref', inp(kind, shape, k), effects=False, need_ret=False, site=site))
        out.append(Equiv(n + ' cut, padding allowed', S + 'cut_padding_allowed', S + 'cut_ref', inp(kind, shape, k), effects=False, need_ret=False, site=site))
        out.append(Equiv(n + ' cut stream', S + 'cut_stream', S + 'cut_stream_ref', inp(kind, shape, k, sym('before', 'bytes')), effects=False, need_ret=False, site=site))
        out.append(Equiv(n + ' extended', S + 'pad', S + 'pad_ref', inp(kind, shape, extra), effects=False, site=site))
        out.append(Equiv(n + ' extended, padding allowed', S + 'pad_allowed', S + 'pad_allowed_ref', inp(kind, shape, extra), effects=False, site=site))
    for n, kind, shape in c18.MESSAGES:
        if n in ('verack', 'getaddr', 'mempool'):
            continue                     # an empty payload has no proper prefix
        out.append(Equiv(n + ' payload cut', S + 'cut_payload', S + 'cut_ref', inp(need(P, 'netlib.' + kind), shape, k), effects=False, need_ret=False,
                         site='bitcoin.messages.msg_' + n.split('_')[0]))
    out.append(Equiv('address without time cut', S + 'cut_notime', S + 'cut_notime_ref', inp(lambda: c18.addr('a'), k), effects=False, need_ret=False, site='bitcoin.net.CAddress'))
    for c in ('BytesSerializer', 'VarStringSerializer'):
        out.append(Equiv(c + ' announced length', S + 'announced', S + 'announced_ref', inp(need(P, B + c), sym('buf', 'bytes')), effects=False, site=B + c))
    for c in ('uint256VectorSerializer', 'intVectorSerialzer', 'VectorSerializer'):
        out.append(Equiv(c + ' announced length', S + 'announced_vector', S + 'announced_vector_ref', inp(need(P, B + c), sym('buf', 'bytes')), effects=False, site=B + c))
    for c, sort in (('SerBool', 'bool'), ('UInt8', 'int'), ('UInt16', 'int'), ('UInt32', 'int'), ('UInt64', 'int'), ('Digest', 'bytes')):
        out.append(Equiv('proof %s cut' % c, S + 'cut_value', S + 'cut_value_ref', inp(need(P, 'proofmarshal.serialize.' + c), sym('value', sort), k),
                         K=9, effects=False, need_ret=False, site='proofmarshal.serialize.' + c))
    for c in ('fixed', 'variable'):
        out.append(Equiv('proof %s bytes cut' % c, S + 'cut_%s' % c, S + 'cut_%s_ref' % c, inp(sym('value', 'bytes'), k), K=3,
                         effects=False, need_ret=False, site='proofmarshal.serialize'))
    out.append(Equiv('proof bits cut', S + 'cut_bits', S + 'cut_bits_ref', inp(k), effects=False, need_ret=False, site='proofmarshal.bits.BitsSerializer'))
    return out
