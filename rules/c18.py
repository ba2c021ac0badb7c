from engine.oblig import Equiv, Table, sym
from engine.terms import *
from engine.objects import *
from .common import *
from .c16 import header, block, tx, outpoint

METHOD = 'table of the message classes and the command registry of the loaded program; outcome tables of every encoder and ' \
         'decoder over symbolic field values, compared with an explicit byte layout'
S = 'spec_c18.'


def addr(n):
    return Tup([sym(n + '.nTime', 'int'), sym(n + '.nServices', 'int'), sym(n + '.pchReserved', 'bytes'), sym(n + '.ip', 'bytes'),
                sym(n + '.port', 'int')])


def inv(n):
    return Tup([sym(n + '.type', 'int'), sym(n + '.hash', 'bytes')])


def locator(n, k):
    return Tup([sym(n + '.nVersion', 'int'), Tup([sym('%s.have%d' % (n, j), 'bytes') for j in range(k)])])


def unsigned_alert(n, a, b):
    i = lambda f: sym('%s.%s' % (n, f), 'int')
    s = lambda f: sym('%s.%s' % (n, f), 'bytes')
    return Tup([i('nVersion'), i('nRelayUntil'), i('nExpiration'), i('nID'), i('nCancel'), Tup([i('setCancel%d' % j) for j in range(a)]),
                i('nMinVer'), i('nMaxVer'), Tup([s('setSubVer%d' % j) for j in range(b)]), i('nPriority'), s('strComment'),
                s('strStatusBar'), s('strReserved')])


def alert(n):
    return Tup([sym(n + '.vchMsg', 'bytes'), sym(n + '.vchSig', 'bytes')])


def version(n):
    i = lambda f: sym('%s.%s' % (n, f), 'int')
    return Tup([i('nVersion'), i('nServices'), i('nTime'), addr(n + '.addrTo'), addr(n + '.addrFrom'), i('nNonce'),
                sym(n + '.strSubVer', 'bytes'), i('nStartingHeight')])


STRUCTS = [
    ('address', 'ADDRESS', 'CAddress', lambda: addr('a')), ('inv', 'INV', 'CInv', lambda: inv('v')),
    ('locator_0', 'LOCATOR', 'CBlockLocator', lambda: locator('l', 0)), ('locator_1', 'LOCATOR', 'CBlockLocator', lambda: locator('l', 1)),
    ('locator_3', 'LOCATOR', 'CBlockLocator', lambda: locator('l', 3)),
    ('unsigned_alert_0', 'UNSIGNED_ALERT', 'CUnsignedAlert', lambda: unsigned_alert('u', 0, 0)),
    ('unsigned_alert_2_1', 'UNSIGNED_ALERT', 'CUnsignedAlert', lambda: unsigned_alert('u', 2, 1)),
    ('unsigned_alert_1_2', 'UNSIGNED_ALERT', 'CUnsignedAlert', lambda: unsigned_alert('u', 1, 2)),
    ('alert', 'ALERT', 'CAlert', lambda: alert('a')),
]
FRESH = [('bitcoin.net.CBlockLocator', ['vHave']), ('bitcoin.net.CUnsignedAlert', ['setCancel', 'setSubVer']), ('bitcoin.messages.msg_addr', ['addrs']),
         ('bitcoin.messages.msg_inv', ['inv']), ('bitcoin.messages.msg_getdata', ['inv']), ('bitcoin.messages.msg_headers', ['headers'])]
EMPTY_ = lambda: Tup([])
MESSAGES = [
    ('version', 'VERSION', lambda: version('m')), ('verack', 'VERACK', EMPTY_),
    ('addr_0', 'ADDR', EMPTY_), ('addr_2', 'ADDR', lambda: Tup([addr('a0'), addr('a1')])),
    ('alert', 'MALERT', lambda: alert('m')), ('inv_0', 'MINV', EMPTY_), ('inv_2', 'MINV', lambda: Tup([inv('v0'), inv('v1')])),
    ('getdata_0', 'GETDATA', EMPTY_), ('getdata_2', 'GETDATA', lambda: Tup([inv('v0'), inv('v1')])),
    ('getblocks_0', 'GETBLOCKS', lambda: Tup([locator('l', 0), sym('stop', 'bytes')])),
    ('getblocks_2', 'GETBLOCKS', lambda: Tup([locator('l', 2), sym('stop', 'bytes')])),
    ('getheaders_0', 'GETHEADERS', lambda: Tup([locator('l', 0), sym('stop', 'bytes')])),
    ('getheaders_2', 'GETHEADERS', lambda: Tup([locator('l', 2), sym('stop', 'bytes')])),
    ('headers_0', 'HEADERS', EMPTY_), ('headers_2', 'HEADERS', lambda: Tup([block('b0', []), block('b1', [])])),
    ('tx', 'MTX', lambda: tx('t', 1, 2)), ('block', 'MBLOCK', lambda: block('b', [(1, 1), (2, 1)])),
    ('getaddr', 'GETADDR', EMPTY_), ('ping', 'PING', lambda: Tup([sym('nonce', 'int')])), ('pong', 'PONG', lambda: Tup([sym('nonce', 'int')])),
    ('mempool', 'MEMPOOL', EMPTY_),
]
KINDS = ['VERSION', 'VERACK', 'ADDR', 'MALERT', 'MINV', 'GETDATA', 'GETBLOCKS', 'GETHEADERS', 'HEADERS', 'MTX', 'MBLOCK', 'GETADDR',
         'PING', 'PONG', 'MEMPOOL']
COMMANDS = {'version', 'verack', 'addr', 'alert', 'inv', 'getdata', 'getblocks', 'getheaders', 'headers', 'tx', 'block', 'getaddr',
            'ping', 'pong', 'mempool'}


def message_classes(P):
    return [c for c in subclasses(need(P, 'bitcoin.messages.MsgSerializable')) if not c.subs and not c.qualname.startswith('spec_')]


def registry(P, report):
    table = need(P, 'bitcoin.messages.messagemap')
    entries = [(k, v) for k, v in P.base[table.id].items]
    by = {}
    for c in message_classes(P):
        cmd = ns(P, c, 'command')
        if not (is_c(cmd) and isinstance(cmd.args[0], bytes)):
            report(c.qualname, False, 'has no command of its own')
            continue
        cmd = cmd.args[0]
        by.setdefault(cmd, []).append(c)
        report(c.qualname, 1 <= len(cmd) <= 12 and b'\0' not in cmd, 'command %r does not fit into the 12 bytes of the header' % cmd)
        got = [v for k, v in entries if is_c(k) and k.args[0] == cmd]
        report(c.qualname, len(got) == 1 and got[0] is c, 'command %r is dispatched to %s' % (
            cmd, ', '.join(getattr(v, 'qualname', str(v)) for v in got) or 'nothing'))
    for cmd, cs in by.items():
        report(cs[0].qualname, len(cs) == 1, 'command %r is shared by %s' % (cmd, ', '.join(c.qualname for c in cs)))
    for k, v in entries:
        c = isinstance(v, ClassObj) and ns(P, v, 'command')
        report('messagemap[%r]' % (k.args[0],), isinstance(v, ClassObj) and is_c(c) and c.args[0] == k.args[0],
               'entry leads to %s' % getattr(v, 'qualname', v))
    for cmd in sorted(COMMANDS):
        cs = by.get(cmd.encode(), [])
        report('command %s' % cmd, len(cs) == 1, 'no class sends or decodes the protocol message %s' % cmd)


def obligations(P):
    out = [Table('command registry', registry, site='bitcoin.messages.messagemap', minimum=45)]
    need(P, 'netlib.VERSION')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    N = 'bitcoin.net.'
    for name, kind, cls, shape in STRUCTS:
        k = need(P, 'netlib.' + kind)
        out.append(Equiv(name + ' encode', S + 'encode', S + 'wire_ref', inp(k, shape), site=N + cls))
        out.append(Equiv(name + ' decode', S + 'decode', S + 'decode_ref', inp(k, shape), site=N + cls))
        out.append(Equiv(name + ' stream', S + 'stream', S + 'stream_ref', inp(k, shape, sym('before', 'bytes'), sym('after', 'bytes')), site=N + cls))
    out.append(Equiv('address without time encode', S + 'encode_notime', S + 'encode_notime_ref', inp(lambda: addr('a')), site=N + 'CAddress'))
    out.append(Equiv('address without time decode', S + 'decode_notime', S + 'decode_notime_ref', inp(lambda: addr('a'), sym('after', 'bytes')), site=N + 'CAddress'))
    for kind, one, site in (('ADDRESS', addr, N + 'CAddress'), ('INV', inv, N + 'CInv'), ('OUTPOINT', outpoint, 'bitcoin.core.COutPoint'),
                            ('HEADER', header, 'bitcoin.core.CBlockHeader')):
        k = need(P, 'netlib.' + kind)
        for n in range(3):
            shape = lambda n=n, one=one: Tup([one('e%d' % j) for j in range(n)])
            out.append(Equiv('vector of %d %s encode' % (n, kind.lower()), S + 'encode_vector', S + 'encode_vector_ref', inp(k, shape), site='bitcoin.core.serialize.VectorSerializer'))
            out.append(Equiv('vector of %d %s decode' % (n, kind.lower()), S + 'decode_vector', S + 'decode_vector_ref', inp(k, shape, sym('after', 'bytes')), site='bitcoin.core.serialize.VectorSerializer'))
    M = 'bitcoin.messages.'
    for name, kind, shape in MESSAGES:
        k = need(P, 'netlib.' + kind)
        site = M + 'msg_' + name.split('_')[0]
        out.append(Equiv(name + ' payload encode', S + 'msg_ser', S + 'wire_ref', inp(k, shape), effects=False, site=site))
        out.append(Equiv(name + ' payload decode', S + 'msg_deser', S + 'msg_deser_ref', inp(k, shape), effects=False, site=site))
        out.append(Equiv(name + ' message', S + 'msg_round', S + 'msg_deser_ref', inp(k, shape), effects=False, site=site))
    for kind in KINDS:
        k = need(P, 'netlib.' + kind)
        out.append(Equiv('default %s' % kind.lower(), S + 'default', S + 'default_ref', inp(k), effects=False, site=M + kind.lower()))
    for what in ('first', 'second', 'third'):
        out.append(Equiv('version of old peers, %s form' % what, S + 'old_version', S + 'old_version_ref', inp(lambda: version('m'), C(what)), effects=False, site=M + 'msg_version'))
    bl = lambda: Tup([sym('vData', 'bytes'), sym('nHashFuncs', 'int'), sym('nTweak', 'int'), sym('nFlags', 'int')])
    out.append(Equiv('bloom filter encode', S + 'encode_bloom', S + 'encode_bloom_ref', inp(bl), site='bitcoin.bloom.CBloomFilter'))
    out.append(Equiv('bloom filter decode', S + 'decode_bloom', S + 'decode_bloom_ref', inp(bl), site='bitcoin.bloom.CBloomFilter'))
    for name, kind, cls, shape in STRUCTS:
        if name in ('alert', 'unsigned_alert_0'):
            for how in ('encode', 'decode'):
                out.append(Equiv('%s %s, strings of any length' % (name, how), S + 'long_' + how, S + 'long_' + how + '_ref', inp(need(P, 'netlib.' + kind), shape),
                                 effects=False, site=N + cls))
    for name, kind, shape in MESSAGES:
        if name in ('version', 'alert', 'tx'):
            for how in ('msg_ser', 'msg_deser'):
                out.append(Equiv('%s %s, strings of any length' % (name, how), S + 'long_' + how, S + 'long_' + how + '_ref', inp(need(P, 'netlib.' + kind),
                                 (lambda: tx('t', 1, 1)) if name == 'tx' else shape), effects=False, site=M + 'msg_' + name))
    out.append(Equiv('bloom filter of any size', S + 'long_bloom', S + 'long_bloom_ref', inp(bl), effects=False, site='bitcoin.bloom.CBloomFilter'))
    for cls, names in FRESH:
        out.append(Equiv('%s made by default' % cls, S + 'fresh', S + 'fresh_ref', inp(need(P, cls), Tup([C(n) for n in names])), effects=False, site=cls))
    for cls in ('msg_getblocks', 'msg_getheaders'):
        out.append(Equiv('locator of a default %s' % cls, S + 'fresh_locator', S + 'fresh_locator_ref', inp(need(P, M + cls)), effects=False, site=M + cls))
    return out
