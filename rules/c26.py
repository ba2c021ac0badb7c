import itertools
from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *

METHOD = 'outcome table of every opcode over symbolic stacks of every small depth (numeric encoding, curve and signature hash opaque), ' \
         'compared with a reference interpreter of the protocol; constant tables of names and values compared entry by entry'
S = 'spec_c26.'
SE = 'bitcoin.core.scripteval.EvalScript'


def config(P):
    """the numeric encoding, the curve and the signature hash are opaque"""
    sep = need(P, 'bitcoin.core.script.FindAndDelete')

    def nothing(run, vals, kw):
        return NONE

    def set_pubkey(run, vals, kw):
        run.mut(vals[0]).attrs['(key)'] = vals[1]
        return mk('call', 'o2i', run.reify(vals[1]), sort='int')

    def verify(run, vals, kw):
        return mk('call', 'checksig', run.reify(run.get(vals[0]).attrs.get('(key)', NONE)), run.reify(vals[1]), run.reify(vals[2]), sort='bool')

    def sighash(run, vals, kw):
        # separators are dropped by the signature hash itself
        script = run.call(sep, [vals[0], C(b'\xab')], {})
        a = [run.reify(v) for v in [script] + list(vals[1:])]
        return Tup([mk('call', 'sighash', *a, sort='bytes'), mk('call', 'sigerr', *a)])
    B = 'bitcoin.core._bignum.'

    # the numeric encoding (C43 decides it): known on constants, otherwise unknown
    def vch2bn(run, vals, kw):
        v = run.reify(vals[0])
        if v.op == 'c' and isinstance(v.args[0], (bytes, bytearray)):
            b = bytes(v.args[0])
            n = int.from_bytes(b, 'little')
            s = 1 << (8 * len(b) - 1) if b else 0
            return C(-(n & ~s) if n & s else n)
        return mk('call', B + 'vch2bn', v, sort='int')

    def bn2vch(run, vals, kw):
        v = run.reify(vals[0])
        if v.op == 'c' and isinstance(v.args[0], int):
            n = int(v.args[0])
            k = abs(n).bit_length() // 8 + 1 if n else 0
            return C((abs(n) | (1 << (8 * k - 1) if n < 0 else 0)).to_bytes(k, 'little'))
        return mk('call', B + 'bn2vch', v, sort='bytes')
    K = 'bitcoin.core.key.CECKey.'
    return {'opaque': {B + 'bn2vch': bn2vch, B + 'vch2bn': vch2bn, K + '__init__': nothing, K + 'set_pubkey': set_pubkey,
                       K + 'verify': verify, 'bitcoin.core.script.RawSignatureHash': sighash},
            'vocabulary': (B + 'bn2vch', B + 'vch2bn', 'o2i', 'checksig', 'sighash', 'sigerr'), 'max_steps': 400000}


def prog(*ops):
    return Tup([Tup([C(o), NONE]) if isinstance(o, int) else Tup([C(o[0]), o[1]]) for o in ops])


def stack(n, p='s'):
    return Tup([sym('%s%d' % (p, i), 'bytes') for i in range(n)])


def show(ops):
    return ' '.join('%02x' % o if isinstance(o, int) else '%02x+' % o[0] for o in ops) or 'nothing'


def table(P, name, code, ops, st, cfg, *more, **kw):
    if isinstance(st, int):
        st = stack(st)
    return Equiv(name, S + code, S + code + '_ref', lambda run, P: [prog(*ops), st, sym('tx', sort_of(P, 'CTransaction')), sym('idx', 'uint')] + list(more),
                 cfg=cfg, effects=False, need_ret=False, site=SE, **kw)


def depth(op, thorough=False):
    return 8 if op in (0xae, 0xaf) else 7


# every shortest program on which the order of operations or the alternate
# stack can matter
TO, FROM, DUP, SEP, SIG, SIGV, MULTI, SWAP, DROP, IFDUP, DEPTH, OVER = 0x6b, 0x6c, 0x76, 0xab, 0xac, 0xad, 0xae, 0x7c, 0x75, 0x73, 0x74, 0x78


def obligations(P):
    out = []
    need(P, SE)
    cfg = config(P)
    for op in range(0x4f, 0x100):
        for n in range(0, depth(op) + 1):
            out.append(table(P, 'opcode 0x%02x on %d items' % (op, n), 'run', [op], n, cfg))
    for n in (2, 3, 4):
        for ops in itertools.product((TO, FROM, DUP, SWAP), repeat=n):
            if TO in ops and FROM in ops:
                out.append(table(P, 'opcodes ' + show(ops), 'run', ops, 2, cfg))
    data = C(b'\x51\xab')
    for ops in ([SEP, SIG], [0x61, SIG], [0x61, SEP, SIG], [SEP, 0x61, SIG], [SEP, 0x61, SEP, 0x61, SIG], [(2, data), SEP, (2, data), DROP, DROP, SIG],
                [(2, data), DROP, SIG], [0x51, 0x63, SEP, 0x61, 0x68, SIG], [0x51, 0x64, SEP, 0x61, 0x68, SIG], [0x6e, SIGV, SIG], [0x6e, SEP, SIGV, SEP, SIG],
                [SIG, SEP], [SIG, 0x61, SEP, 0x61]):
        out.append(table(P, 'opcodes ' + show(ops), 'run', ops, 2, cfg))
    for ops in ([SEP, MULTI], [0x61, SEP, MULTI], [SEP, 0x61, 0xaf], [(2, data), SEP, 0x51, MULTI], [0x51, 0x61, SEP, 0x51, 0x61, MULTI]):
        for n in (3, 5):
            out.append(table(P, 'opcodes %s on %d items' % (show(ops), n), 'run', ops, n, cfg))
    for ops, n in (([(2, data), DROP, MULTI], 5), ([(2, data), DROP, 0xaf], 5), ([(2, data), DROP, SEP, MULTI], 5),
                   ([(1, C(b'\x07')), (2, data), DROP, DROP, 0x51, MULTI], 4), ([(0x4c, data), DROP, 0x51, MULTI], 4)):
        out.append(table(P, 'opcodes %s on %d items' % (show(ops), n), 'run', ops, n, cfg))
    for op in (0, 1, 2, 75, 0x4c, 0x4d, 0x4e):
        d = C(b'\x07' * (op if op < 0x4c else 3))
        out.append(table(P, 'push 0x%02x' % op, 'run', [(op, d)], 1, cfg))
        out.append(table(P, 'push 0x%02x of nothing or twice' % op, 'run', [(op, d if op < 0x4c else C(b'')), DUP], 0, cfg))
    for flags in (Tup([]), sym('flags')):
        for ops in ([DUP], [SIG], [MULTI], [0x65], [0xba]):
            out.append(table(P, 'opcodes %s with flags %s' % (show(ops), 'none' if flags.__class__ is Tup else 'unknown'), 'run_flags', ops, 3, cfg, flags))
    names = S + 'names'
    inp = lambda *f: (lambda run, P: list(f))
    site = 'bitcoin.core.script.OPCODES_BY_NAME'
    out.append(Equiv('every opcode name denotes its protocol value', S + 'by_name', S + 'by_name_ref', inp(), effects=False, site=site))
    out.append(Equiv('every opcode constant has its protocol value', S + 'constants', S + 'constants_ref', inp(), effects=False, site='bitcoin.core.script'))
    out.append(Equiv('every named value has its protocol name', S + 'by_value', S + 'by_value_ref', inp(), effects=False, site='bitcoin.core.script.OPCODE_NAMES'))
    out.append(Equiv('the disabled opcodes', S + 'disabled', S + 'disabled_ref', inp(), effects=False, site='bitcoin.core.script.DISABLED_OPCODES'))
    for lo in range(0, 256, 32):
        out.append(Equiv('printed form of opcodes %d to %d' % (lo, lo + 31), S + 'printed', S + 'printed_ref', inp(C(lo)), effects=False, site='bitcoin.core.script.CScriptOp.__repr__'))
    for n in list(range(-2, 20)) + [0x4f, 0x50, 0x51, 0x60, 0x61, 0xff]:
        out.append(Equiv('small integer %d' % n, S + 'small', S + 'small_ref', inp(C(n)), effects=False, need_ret=False, site='bitcoin.core.script.CScriptOp.encode_op_n'))
        if 0 <= n:
            out.append(Equiv('value of opcode %d' % n, S + 'smallop', S + 'smallop_ref', inp(C(n)), effects=False, need_ret=False, site='bitcoin.core.script.CScriptOp.decode_op_n'))
    return out
