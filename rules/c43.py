from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *

METHOD = 'guarded-outcome tables of both directions over every byte of unknown byte strings and numbers up to a bounded size, against a digit-by-digit reference'
S = 'spec_c43.'
N = 'bitcoin.core._bignum.'


def obligations(P):
    out = []
    need(P, N + 'bn2vch')
    cfg = {'max_steps': 3000000}

    def eq(name, fn, *vals, site=N):
        out.append(Equiv(name, S + fn, S + fn + '_ref', lambda run, P: list(vals), cfg=cfg, effects=False, site=site, K=80, Kt=80))
    v, b = sym('v', 'int'), sym('b', 'bytes')
    for n in range(0, 9):
        lo, hi = (0, 0) if n == 0 else (256 ** n // 512, 256 ** n // 2 - 1)
        for l, h in ((lo, hi), (-hi, -lo)):
            at = 'numbers from %d to %d' % (l, h)
            eq(at, 'encoded', v, C(l), C(h), site=N + 'bn2vch')
            eq(at + ' and back', 'back', v, C(l), C(h), site=N + 'vch2bn')
            eq(at + ' as mpi', 'mpi', v, C(l), C(h), site=N + 'bn2mpi')
            if l >= 0:
                eq(at + ' plain', 'plain', v, C(l), C(h), site=N + 'bn2bin')
    for n in range(0, 9):
        eq('%d bytes' % n, 'decoded', b, C(n), site=N + 'vch2bn')
        eq('%d bytes and back' % n, 'minimal', b, C(n), site=N + 'bn2vch')
        eq('%d bytes with a size' % n, 'framed', b, C(n), site=N + 'mpi2bn')
    cfg = dict(cfg, texts=True)
    E = 'bitcoin.base58.'
    for n in range(0, 12 if P.thorough else 8):
        out.append(Equiv('text of %d bytes' % n, S + 'text', S + 'text_of', lambda run, P, n=n: [b, C(n)], cfg=cfg, effects=False, site=E + 'encode', K=80, Kt=80))
        eq('text of %d bytes and back' % n, 'text_and_back', b, C(n), site=E + 'decode')
    for n in range(0, 16 if P.thorough else 11):
        s = mk('text', *[sym('c%d' % i, 'uint') for i in range(n)], sort='str') if n else C('')
        eq('bytes of %d characters' % n, 'parsed', s, site=E + 'decode')
        eq('bytes of %d characters and back' % n, 'parsed_and_back', s, site=E + 'encode')
    return out
