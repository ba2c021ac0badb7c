from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c16

METHOD = 'outcome table of script verification over arbitrary scripts, with evaluation an opaque function from a stack and a script ' \
         'to a new stack or an error, and of signature verification over symbolic transactions of every small shape with script verification opaque'
S = 'spec_c27.'
SE = 'bitcoin.core.scripteval.'


def evaluation(P, most=2):
    """EvalScript: an unknown function of stack, script, transaction and
    index, which fails or replaces the contents of the stack"""
    bad = need(P, SE + 'EvalScriptError')

    def plain(run, v):
        # the bytes of a script, whatever class holds them
        return run.reify(run.call(P.builtin_classes[bytes], [v], {}))

    def ev(run, vals, kw):
        st, script, tx, idx = vals[:4]
        o = run.mut(st)
        if o.base is not None:
            raise Undecided('evaluation on a stack of unknown depth')
        t = mk('call', 'evaluation', tuple(run.reify(x) for x in o.items), plain(run, script), run.reify(tx), run.reify(idx))
        if run.d_lit(mk('raises', t, bad)):
            run.throw_opaque(bad, t)
        n = 0
        while n < most and run.d_lit(mk('truth', mk('call', 'leaves more than', t, n, sort='bool'))):
            n += 1
        o = run.mut(st)
        o.items = [mk('call', 'item', t, k, sort='bytes') for k in range(n)]
        return NONE
    push = 'bitcoin.core.script.CScript.is_push_only'

    def push_only(run, vals, kw):
        return mk('call', 'push only', plain(run, vals[0]), sort='bool')
    return {'opaque': {SE + 'EvalScript': ev, push: push_only},
            'vocabulary': ('evaluation', 'leaves more than', 'item', 'push only')}


def verification(P):
    bad = need(P, SE + 'VerifyScriptError')

    def ver(run, vals, kw):
        b = P.builtin_classes[bytes]
        t = mk('call', 'verification', *[run.reify(x) for x in (run.call(b, [vals[0]], {}), run.call(b, [vals[1]], {}), vals[2], vals[3])])
        if run.d_lit(mk('raises', t, bad)):
            run.throw_opaque(bad, t)
        return NONE
    return {'opaque': {SE + 'VerifyScript': ver}, 'vocabulary': ('verification',)}


def obligations(P):
    out = []
    need(P, SE + 'VerifySignature')
    tx, idx = sym('tx', sort_of(P, 'CTransaction')), sym('idx', 'uint')
    sig, pub = sym('sig', 'bytes'), sym('pub', 'bytes')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    cfg = evaluation(P)
    site = SE + 'VerifyScript'
    for names in ((), ('P2SH',), ('STRICTENC',), ('STRICTENC', 'P2SH'), ('EVEN_S', 'NOCACHE'), ('P2SH', 'NOCACHE', 'EVEN_S', 'STRICTENC')):
        for where in (True, False):
            for kind in (True, False):
                out.append(Equiv('scripts with flags %s of %s as a %s' % ('+'.join(names) or 'none', 'scripteval' if where else 'script', 'set' if kind else 'tuple'),
                                 S + 'verify', S + 'verify_ref', inp(sig, pub, tx, idx, Tup([C(n) for n in names]), C(where), C(kind)),
                                 cfg=cfg, effects=False, site=site))
    out.append(Equiv('scripts by default', S + 'verify_default', S + 'verify_default_ref', inp(sig, pub, tx, idx), cfg=cfg, effects=False, site=site))
    cfg = verification(P)
    site = SE + 'VerifySignature'
    for mutable in (False, True):
        for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 2), (3, 1), (1, 3)):
            out.append(Equiv('spend of %d outputs by %d %sinputs' % (b, a, 'mutable ' if mutable else ''), S + 'spend', S + 'spend_ref',
                             inp(lambda b=b: c16.tx('f', 1, b), lambda a=a: c16.tx('t', a, 1), sym('idx', 'int'), C(mutable)),
                             cfg=cfg, effects=False, need_ret=a > 0 and b > 0, site=site))
    return out
