import itertools
from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *

METHOD = 'outcome tables of the script encoder over data of any length, and of the parser and the script tests over programs of every ' \
         'opcode with symbolic data, whole or cut off at every place, compared with a reference grammar'
S = 'spec_c29.'
SC = 'bitcoin.core.script.'
CFG = {'opaque': {'bitcoin.core._bignum.bn2vch': 'bytes'}, 'vocabulary': ('bitcoin.core._bignum.bn2vch',)}

D, E = sym('d', 'bytes'), sym('e', 'bytes')


def op(n):
    return Tup([C(n), NONE, NONE, Tup([])])


def push(form, size, data):
    """a push of a number of bytes; the form 1 is the opcode that is the length itself"""
    k = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(form, 0)
    if size is None:                # any size: one symbol for each byte of it
        if not k:
            n = sym('n', 'uint')
            return Tup([n, data, n, Tup([])])
        digits = [sym('n%d' % i, 'uint') for i in range(k)]
        return Tup([C(form), data, sym('n', 'uint'), Tup(digits)])
    if not k:
        return Tup([C(size), data, C(size), Tup([])])
    return Tup([C(form), data, C(size), Tup([C(size >> 8 * i & 255) for i in range(k)])])


SIZES = ((1, (0, 1, 2, 0x4b)), (0x4c, (0, 1, 0x4b, 0x4c, 0xff)), (0x4d, (0, 0xff, 0x100, 0x1234, 0xffff)), (0x4e, (0, 0xffff, 0x10000, 0x12345678)))
CUTS = [(form, n) for form, ns in SIZES for n in ns if n]
SHORT = (b'\x4c', b'\x4d', b'\x4d\x01', b'\x4e', b'\x4e\x01', b'\x4e\x01\x02', b'\x4e\x01\x00\x00', b'\x4d\x00', b'\x4e\x00\x00\x00')


def cuts(some=False):
    yield 'whole', NONE
    for form, n in CUTS:
        if not some or n == max(dict(SIZES)[form]):
            yield 'cut off in the data of form %02x size %d' % (form, n), push(form, n, sym('rest', 'bytes'))
    for b in SHORT:
        yield 'ending in ' + b.hex(), C(b)


def show(p):
    return ' '.join('%02x' % o if isinstance(o, int) else '%02x:%d' % o for o in p) or 'nothing'


def prog(p):
    return Tup([op(o) if isinstance(o, int) else push(o[0], o[1], sym('d%d' % i, 'bytes') if o[1] else C(b'')) for i, o in enumerate(p)])


def programs():
    """programs with how many of the ways of ending them are of interest"""
    yield [], False
    for o in range(0x4f, 0x100):
        yield [o], None
    pushes = [(form, n) for form, ns in SIZES for n in ns]
    for p in pushes:
        yield [p], False
        for q in ((1, 1), (0x4c, 3), 0x51, 0x61, 0xac):
            yield [p, q], True
            yield [q, p], True


COUNT = [0x4f, 0x50, 0x51, 0x53, 0x60, 0x61, 0xac, 0xad, 0xae, 0xaf, 0xb0, (1, 3), (1, 0)]


def obligations(P):
    out = []
    need(P, SC + 'CScript')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    # encoding
    out.append(Equiv('push of any data', S + 'pushed', S + 'pushed_ref', inp(D), effects=False, site=SC + 'CScriptOp.encode_op_pushdata'))
    site = SC + 'CScript'
    lists = [('any data', [D]), ('two data', [D, E]), ('an integer', [sym('v', 'int')]), ('an integer and data', [sym('v', 'int'), D])]
    lists += [('%d' % v, [C(v)]) for v in (-2, -1, 0, 1, 2, 15, 16, 17, 255, 2 ** 40)]
    for name, l in lists:
        for k in ('built', 'built_from_iterator', 'added'):
            out.append(Equiv('%s of %s' % (k, name), S + k, S + k + '_ref', inp(Tup(l)), cfg=CFG, effects=False, site=site))
    for n in range(256):
        out.append(Equiv('opcode 0x%02x in a script' % n, S + 'opcode', S + 'opcode_ref', inp(C(n)), effects=False, site=site))
    out.append(Equiv('script of raw bytes', S + 'raw_bytes', S + 'raw_bytes_ref', inp(D), effects=False, site=site))
    # parsing
    for p, some in programs():
        if some is None and p[0] in (0x51, 0x61, 0x6a, 0xac, 0xff):
            some = True
        for name, t in cuts(some) if some is not None else [('whole', NONE), ('cut off', push(1, 5, sym('rest', 'bytes')))]:
            what = '%s, %s' % (show(p), name)
            for k, s in (('parse', 'raw_iter'), ('cooked', '__iter__'), ('tests', 'has_canonical_pushes')):
                out.append(Equiv('%s %s' % (k, what), S + k, S + k + '_ref', inp(lambda p=p: prog(p), t), effects=False, site=site + '.' + s))
    for form in (1, 0x4c, 0x4d, 0x4e):
        for k, s in (('parse', 'raw_iter'), ('cooked', '__iter__'), ('tests', 'has_canonical_pushes')):
            one = lambda form=form: Tup([push(form, None, D)])
            out.append(Equiv('%s %02x of any size' % (k, form), S + k, S + k + '_ref', inp(one, NONE), effects=False, site=site + '.' + s))
            two = lambda form=form: push(form, None, D)
            out.append(Equiv('%s %02x of any size, cut off' % (k, form), S + k, S + k + '_ref', inp(Tup([]), two), effects=False, site=site + '.' + s))
    for n in (1, 2, 3):
        for p in itertools.product(COUNT, repeat=n):
            if n == 3 and not (set(o for o in p if isinstance(o, int)) & {0xae, 0xaf}):
                continue
            for name, t in cuts(True) if n == 1 else [('whole', NONE)]:
                out.append(Equiv('count %s, %s' % (show(p), name), S + 'counts', S + 'counts_ref', inp(lambda p=p: prog(p), t), effects=False,
                                 site=site + '.GetSigOpCount'))
    for kind in (True, False):
        out.append(Equiv('script hash form%s' % (' with size check' if kind else ''), S + 'to_hash', S + 'to_hash_ref', inp(D, C(kind)), effects=False,
                         site=site + '.to_p2sh_scriptPubKey'))
    out.append(Equiv('script hash form recognised', S + 'is_to_hash', S + 'is_to_hash_ref', inp(D), effects=False, site=site + '.is_p2sh'))
    return out
