from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c18

METHOD = 'outcome table of the message decoder over an arbitrary header and payload (with the payload decoders opaque), and of ' \
         'the encoder over an arbitrary payload, compared with the protocol envelope'
S = 'spec_c17.'
M = 'bitcoin.messages.'


def show(cmd):
    return cmd.replace('\0', '<NUL>') or 'an empty command'


def obligations(P):
    out = []
    need(P, 'netlib.VERSION')
    need(P, S + 'receive')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    pay, magic = sym('payload', 'bytes'), sym('magic', 'bytes')
    site = M + 'MsgSerializable.to_bytes'
    for c in ('Probe', 'LongProbe'):
        out.append(Equiv('send %s' % c, S + 'send', S + 'send_ref', inp(need(P, S + c), pay, magic), site=site))
    for chain in ('mainnet', 'testnet', 'regtest'):
        out.append(Equiv('send on ' + chain, S + 'send_chain', S + 'send_chain_ref', inp(C(chain), pay), site=site))
    out.append(Equiv('send by default', S + 'send_default', S + 'send_default_ref', inp(pay), site=site))
    for name, kind, shape in c18.MESSAGES:
        out.append(Equiv('send ' + name, S + 'send_kind', S + 'send_kind_ref', inp(need(P, 'netlib.' + kind), C(name.split('_')[0].encode()), shape),
                         effects=False, site=M + 'msg_' + name.split('_')[0]))
    opaque = {}
    for c in c18.message_classes(P):
        q = c.qualname + '.msg_deser'
        if P.lookup(q) is not None:
            opaque[q] = {'sort': c}
    cfg = {'opaque': opaque, 'vocabulary': tuple(opaque)}
    site = M + 'MsgSerializable.stream_deserialize'
    rest = [magic, sym('length', 'bytes'), sym('check', 'bytes'), sym('rest', 'bytes')]
    commands = sorted(c18.COMMANDS) + ['', 'unknown', 'versio', 'versions', 'twelve-bytes', 'Ping', 'ver\0sion', 'tx\0block', '\0ping', 'pong\0' + 'x' * 7]
    for cmd in commands:
        w = C(cmd.encode().ljust(12, b'\0'))
        for chain in ('mainnet', 'testnet', 'regtest'):
            out.append(Equiv('receive %s on %s' % (show(cmd), chain), S + 'receive', S + 'receive_ref', inp(C(chain), w, *rest),
                             cfg=cfg, effects=False, site=site))
        out.append(Equiv('receive %s from bytes' % show(cmd), S + 'receive_bytes', S + 'receive_bytes_ref', inp(w, *rest),
                         cfg=cfg, effects=False, site=M + 'MsgSerializable.from_bytes'))
    out.append(Equiv('receive part of a header', S + 'short_header', S + 'short_header_ref', args(('buf', 'bytes')), need_ret=False,
                     cfg=cfg, effects=False, site=site))
    return out
