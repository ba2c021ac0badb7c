from engine.oblig import Equiv, Table, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c16

METHOD = 'outcome tables of assignment, deletion, construction, conversion and hashing histories over symbolic contents, and a ' \
         'table of the hashing and assignment methods every class resolves to'
S = 'spec_c19.'
CFG = {'understood_ops': ('hashof',)}       # two values either have the same hash or not; both can happen
IS = 'bitcoin.core.serialize.ImmutableSerializable'
FIELDS_OF = {'OUTPOINT': ['hash', 'n'], 'TXIN': ['prevout', 'scriptSig', 'nSequence'], 'TXOUT': ['nValue', 'scriptPubKey'],
             'TX': ['nVersion', 'vin', 'vout', 'nLockTime'],
             'HEADER': ['nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce'],
             'BLOCK': ['nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce', 'vtx', 'vMerkleTree']}


def classes(P, report):
    """every class is wholly immutable or wholly mutable"""
    base = need(P, IS)
    for c in subclasses(base) + [base]:
        if c.qualname.startswith('spec_'):
            continue
        guarded = {n: ns(P, c, n).__class__ is Func for n in ('__setattr__', '__delattr__')}
        report(c.qualname, len(set(guarded.values())) == 1,
               'assignment is %s but deletion is %s' % tuple('refused' if guarded[n] else 'allowed' for n in ('__setattr__', '__delattr__')))


def obligations(P):
    out = [Table('classes', classes, site=IS, minimum=8)]
    need(P, 'netlib.TX')
    out.append(Equiv('mutable transactions made by default', S + 'fresh_transactions', S + 'fresh_transactions_ref', lambda run, P: [], effects=False,
                     site='bitcoin.core.CMutableTransaction'))
    inp = lambda *f: (lambda run, P: [x() if callable(x) else x for x in f])
    small = [('OUTPOINT', 'outpoint', c16.outpoint), ('TXIN', 'input', c16.txin), ('TXOUT', 'output', c16.txout)]
    small += [('TX', 'tx_%d_%d' % (a, b), (lambda n, a=a, b=b: c16.tx(n, a, b))) for a, b in ((0, 0), (1, 1), (2, 1), (1, 2))]
    big = [('HEADER', 'header', c16.header)] + [('BLOCK', 'block_%d' % len(s), (lambda n, s=s: c16.block(n, s))) for s in ([], [(1, 1)], [(1, 1), (0, 1)])]
    value = sym('value', 'int')
    for kind, name, shape in small + big:
        k = need(P, 'netlib.' + kind)
        site = 'bitcoin.core.' + c16.CLS[kind]
        p, q = (lambda s=shape: s('p')), (lambda s=shape: s('q'))
        names = list(FIELDS_OF[kind])
        for c in need(P, site).mro:
            sl = P.base[c.ns.id].d.get('__slots__')
            for a in (pylist(P, sl) or []) if sl is not None else []:
                if is_c(a) and a.args[0] not in names:
                    names.append(a.args[0])
        for a in names + ['unheard_of']:
            out.append(Equiv('%s.%s assign' % (name, a), S + 'assign', S + 'untouched', inp(k, p, C(a), value), cfg=CFG, site=site))
            out.append(Equiv('%s.%s delete' % (name, a), S + 'delete', S + 'untouched', inp(k, p, C(a)), cfg=CFG, site=site))
        for a in FIELDS_OF[kind]:
            out.append(Equiv('decoded %s.%s assign' % (name, a), S + 'decoded_assign', S + 'untouched', inp(k, p, C(a), value), cfg=CFG, site=site))
        out.append(Equiv('%s decoded' % name, S + 'decoded', S + 'decoded_ref', inp(k, p), cfg=CFG, site=site))
        for first in (True, False):
            out.append(Equiv('%s asked twice %s' % (name, first), S + 'asked_twice', S + 'asked_twice_ref', inp(k, p, C(first)), cfg=CFG, site=site))
        if kind not in ('HEADER', 'BLOCK'):
            out.append(Equiv('%s changed' % name, S + 'changed', S + 'changed_ref', inp(k, p, q), cfg=CFG, site=site))
            out.append(Equiv('%s changed copy' % name, S + 'changed_copy', S + 'changed_copy_ref', inp(k, p, q), cfg=CFG, site=site))
            out.append(Equiv('%s copied' % name, S + 'same_again', S + 'same_again_ref', inp(k, p), cfg=CFG, site=site))
            for early in (True, False):
                w = ', hashed before' if early else ''
                out.append(Equiv('%s thawed%s' % (name, w), S + 'thawed', S + 'thawed_ref', inp(k, p, q, C(early)), cfg=CFG, site=site))
                for how in ('copy', 'constructor') + (('tuples', 'iterators') if kind == 'TX' else ()):
                    out.append(Equiv('%s frozen by %s%s' % (name, how, w), S + 'frozen', S + 'frozen_ref', inp(k, p, q, C(how), C(early)), cfg=CFG, site=site))
    for a, b in ((0, 0), (1, 1), (2, 2)):
        out.append(Equiv('lists of %d and %d stay the caller\'s' % (a, b), S + 'lists_stay', S + 'lists_stay_ref',
                         inp(lambda a=a, b=b: c16.tx('p', a, b), lambda: c16.tx('q', 1, 1)), cfg=CFG, site='bitcoin.core.CTransaction'))
    out.append(Equiv('fresh parts', S + 'fresh_parts', S + 'fresh_parts_ref', inp(lambda: c16.txin('q')), cfg=CFG, site='bitcoin.core.CMutableTxIn'))
    for s in ([(1, 1)], [(1, 1), (0, 1)]):
        out.append(Equiv('block of a tuple of %d mutable transactions' % len(s), S + 'block_of_tuple', S + 'block_of_tuple_ref',
                         inp(lambda s=s: c16.block('p', s), lambda s=s: c16.block('q', s)), cfg=CFG, site='bitcoin.core.CBlock'))
        for early in (True, False):
            out.append(Equiv('block of %d mutable transactions%s' % (len(s), ', hashed before' if early else ''), S + 'block_of_mutable', S + 'block_of_mutable_ref',
                             inp(lambda s=s: c16.block('p', s), lambda s=s: c16.block('q', s), C(early)), cfg=CFG, site='bitcoin.core.CBlock'))
    return out
