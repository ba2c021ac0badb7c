from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c16, c26

SPECS = ['spec_c26']
METHOD = 'outcome table of the signature hash over symbolic transactions of every small shape, every input index and every hash type byte, ' \
         'compared with the protocol layout of the signed message; arguments compared before and after'
S = 'spec_c28.'
SC = 'bitcoin.core.script.'


def config(P):
    cls = need(P, SC + 'CScript')

    def find(run, vals, kw):
        b = P.builtin_classes[bytes]
        a = [run.reify(run.call(b, [v], {})) for v in vals[:2]]
        return run.call(cls, [mk('call', 'without', *a, sort='bytes')], {})
    return {'opaque': {SC + 'FindAndDelete': find}, 'vocabulary': ('without',)}


def obligations(P):
    out = []
    need(P, SC + 'RawSignatureHash')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    script = sym('script', 'bytes')
    cfg = config(P)
    main = [0, 1, 2, 3, 4, 0x1f, 0x22, 0x23, 0x43, 0x80, 0x81, 0x82, 0x83, 0xa2, 0xc3, 0xff, 0x101, 0x182, 0xffffffff]
    for a, b in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)):
        for idx in range(0, a + 2):
            kinds = range(256) if (a, b) == (2, 2) and idx <= 2 else main
            for kind in kinds:
                for mutable in ((False, True) if kind in main else (False,)):
                    out.append(Equiv('type 0x%02x at input %d of %d with %d outputs%s' % (kind, idx, a, b, ', mutable' if mutable else ''),
                                     S + 'raw', S + 'raw_ref', inp(lambda a=a, b=b: c16.tx('t', a, b), script, C(idx), C(kind), C(mutable)),
                                     cfg=cfg, effects=False, site=SC + 'RawSignatureHash'))
                if kind in main and a < 3 and b < 3:
                    out.append(Equiv('checked type 0x%02x at input %d of %d with %d outputs' % (kind, idx, a, b),
                                     S + 'cooked', S + 'cooked_ref', inp(lambda a=a, b=b: c16.tx('t', a, b), script, C(idx), C(kind)),
                                     cfg=cfg, effects=False, need_ret=False, site=SC + 'SignatureHash'))
    sep = C(b'\xab')
    d = C(b'\xab\xab')
    progs = [[], [0xab], [0x51], [0x51, 0xab], [0xab, 0x51], [0xab, 0xab], [0x51, 0xab, 0x52, 0xab, 0x53], [(2, d)], [(2, d), 0xab, (1, sep), 0xac],
             [0xab, (0x4c, d), 0xab], [(0x4d, d), 0xab, 0xab, 0x51], [0xab] * 4, [0x51, 0x52, 0x51, 0x52, 0x51], [(2, d), (2, d), 0x51]]
    for ops in progs:
        for name, s in (('a separator', sep), ('a push', C(b'\x02\xab\xab')), ('two opcodes', C(b'\x51\x52')), ('nothing', C(b'')), ('one byte', C(1)), ('two bytes', C(2)), ('three bytes', C(3))):
            if isinstance(s.args[0], int):
                out.append(Equiv('deletion of any %s from %s' % (name, c26.show(ops)), S + 'find_any', S + 'find_any_ref',
                                 (lambda run, P, ops=ops, s=s: [c26.prog(*ops), sym('sig', 'bytes'), s]), effects=False, site=SC + 'FindAndDelete'))
                continue
            out.append(Equiv('deletion of %s from %s' % (name, c26.show(ops)), S + 'find', S + 'find_ref',
                             (lambda run, P, ops=ops, s=s: [c26.prog(*ops), s]), effects=False, site=SC + 'FindAndDelete'))
    return out
