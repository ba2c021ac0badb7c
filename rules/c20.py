from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *
from . import c16

METHOD = 'outcome table of the transaction check over symbolic transactions of every small shape, compared with the ' \
         'consensus rules written as a reference decision table'
S = 'spec_c20.'
SHAPES = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)]


def obligations(P):
    out = []
    need(P, 'netlib.TX')
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    site = 'bitcoin.core.CheckTransaction'
    for m in (False, True):
        w = 'mutable ' if m else ''
        for a, b in SHAPES:
            out.append(Equiv('check %stransaction of %d inputs and %d outputs' % (w, a, b), S + 'check', S + 'check_ref',
                             inp(lambda a=a, b=b: c16.tx('t', a, b), C(m), C(False)), site=site, need_ret=a > 0 and b > 0))
            out.append(Equiv('is %stransaction of %d inputs and %d outputs a coinbase' % (w, a, b), S + 'is_coinbase', S + 'is_coinbase_ref',
                             inp(lambda a=a, b=b: c16.tx('t', a, b), C(m)), site='bitcoin.core.CTransaction.is_coinbase'))
        for a, b in ((1, 1), (1, 2), (2, 1)):
            out.append(Equiv('check %stransaction of %d inputs and %d outputs and any size' % (w, a, b), S + 'check', S + 'check_ref',
                             inp(lambda a=a, b=b: c16.tx('t', a, b), C(m), C(True)), site=site))
        out.append(Equiv('is %soutpoint null' % w, S + 'is_null', S + 'is_null_ref', inp(lambda: c16.outpoint('o'), C(m)), site='bitcoin.core.COutPoint.is_null'))
    out.append(Equiv('money range', S + 'money_range', S + 'money_range_ref', args(('v', 'int')), site='bitcoin.core.MoneyRange'))
    return out
