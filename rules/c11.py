from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *

METHOD = 'guarded-outcome tables of every field checker over values of every kind, and of proof construction, ' \
         'against the reference'
S = 'proofmarshal.serialize.'
VALUES = [('bool', 'bool'), ('int', 'int'), ('bytes', 'bytes'), ('str', 'str'), ('none', NONE), ('float', C(1.5)),
          ('list', ('list', 'bytes')), ('bits', 'proofmarshal.bits.Bits'), ('tx', 'bitcoin.core.CTransaction'),
          ('mutable tx', 'bitcoin.core.CMutableTransaction'), ('outpoint', 'bitcoin.core.COutPoint'),
          ('mutable outpoint', 'bitcoin.core.CMutableOutPoint'), ('txin', 'bitcoin.core.CTxIn'),
          ('script', 'bitcoin.core.script.CScript'),
          ('fake seal', 'proofchains.core.uniquebits.singleuseseal.FakeSingleUseSeal'),
          ('bitcoin seal', 'proofchains.core.uniquebits.singleuseseal.BitcoinSingleUseSeal'),
          ('small', 'speclib.Small'), ('leaf', 'speclib.DTree.LeafNodeClass'), ('tree', 'speclib.DTree.InnerNodeClass'),
          ('other tree', 'speclib.PTree.LeafNodeClass'), ('prefix', 'speclib.DMap.UnusedPrefix')]


def value(P, s, name='v'):
    if s.__class__ is T:
        return s
    if isinstance(s, str) and '.' in s:
        return sym(name, need(P, s))
    return sym(name, s)


def kind(P, s):
    """(kind, a, b) of a serializer, from what it is declared to hold"""
    def is_(n):
        return s.issub(need(P, n))
    if is_(S + 'SerBool'):
        return C('bool'), NONE, NONE
    if is_(S + 'FixedBytes'):
        n = ns(P, s, 'EXPECTED_LENGTH')
        return C('bytes'), n, n
    if is_(S + 'VarBytes'):
        return C('bytes'), ns(P, s, 'MIN_LENGTH'), ns(P, s, 'MAX_LENGTH')
    for b in (8, 16, 32, 64):
        if is_(S + 'UInt%d' % b):
            return C('uint'), C(0), C((1 << b) - 1)
    if is_('proofmarshal.bits.BitsSerializer'):
        return C('bits'), NONE, NONE
    if is_('proofchains.core.bitcoin.CTransactionSerializer'):
        return C('tx'), NONE, NONE
    if is_('proofchains.core.bitcoin.COutPointSerializer'):
        return C('outpoint'), NONE, NONE
    if is_('proofmarshal.proof.ProofUnion') or is_('proofmarshal.proof.VarProof'):
        return C('union'), Tup(list(variants(P, s))), NONE
    return NONE, NONE, NONE


SERS = [(S + 'SerBool', ('bool', None, None)), (S + 'Digest', ('bytes', 32, 32)),
        (S + 'UInt8', ('uint', 0, 255)), (S + 'UInt16', ('uint', 0, 65535)), (S + 'UInt32', ('uint', 0, 2 ** 32 - 1)),
        (S + 'UInt64', ('uint', 0, 2 ** 64 - 1)), ('spec_c11.F0', ('bytes', 0, 0)), ('spec_c11.F1', ('bytes', 1, 1)),
        ('spec_c11.F20', ('bytes', 20, 20)), ('spec_c11.F16', ('bytes', 16, 16)), ('spec_c11.V10', ('bytes', 0, 10)),
        ('spec_c11.V1', ('bytes', 0, 1)), ('spec_c11.V310', ('bytes', 3, 10)),
        ('proofmarshal.bits.BitsSerializer', ('bits', None, None)),
        ('proofchains.core.bitcoin.CTransactionSerializer', ('tx', None, None)),
        ('proofchains.core.bitcoin.COutPointSerializer', ('outpoint', None, None)),
        ('spec_c11.UNION', ('union', ['proofchains.core.uniquebits.singleuseseal.FakeSingleUseSeal',
                                      'proofchains.core.uniquebits.singleuseseal.BitcoinSingleUseSeal'], None)),
        ('spec_c11.UNION1', ('union', ['speclib.Small'], None)),
        ('speclib.DTree', ('union', ['speclib.DTree.EmptyNodeClass', 'speclib.DTree.LeafNodeClass',
                                     'speclib.DTree.InnerNodeClass'], None)),
        ('speclib.DMap', ('union', ['speclib.DMap.UnusedPrefix', 'speclib.DMap.LeafPrefix', 'speclib.DMap.InnerPrefix'], None)),
        ('speclib.DList', ('union', ['speclib.DList.EmptyNodeClass', 'speclib.DList.LeafNodeClass',
                                     'speclib.DList.InnerNodeClass'], None))]


def obligations(P):
    for q, (k, a, b) in SERS:
        for vn, vs in VALUES:
            def inputs(run, P, q=q, k=k, a=a, b=b, vs=vs):
                x = Tup([need(P, c) for c in a]) if isinstance(a, list) else C(a)
                return [need(P, q), value(P, vs), C(k), x, C(b)]
            yield Equiv('%s of %s' % (q, vn), 'spec_c11.code_check', 'spec_c11.check', inputs, site=q + '.check_instance')
    yield Equiv('construction', 'spec_c11.code_construct', 'spec_c11.construct',
                args(('x', 'bytes'), ('y', 'bytes'), ('z', 'bytes')), site='proofmarshal.proof.Proof.__new__')
    yield Equiv('construction, one wrong', 'spec_c11.code_construct_wrong', 'spec_c11.construct_wrong',
                args(('x', 'bytes'), ('y', 'bytes'), ('z', 'bytes')), site='proofmarshal.proof.Proof.__new__')
    yield Equiv('construction, one missing', 'spec_c11.code_missing', 'spec_c11.missing',
                args(('x', 'bytes'), ('y', 'bytes')), site='proofmarshal.proof.Proof.__new__')
    yield Equiv('construction of a subclass', 'spec_c11.code_derived', 'spec_c11.derived',
                args(('x', 'bytes'), ('y', 'bytes')), site='proofmarshal.proof.Proof.__new__')
    for c in proof_classes(P):
        fs = attrs(P, c)
        for i, (f, s) in enumerate(fs):
            k = kind(P, s)
            if k[0] is NONE:
                continue
            for vn, vs in VALUES:
                if vn not in ('bool', 'int', 'bytes', 'none', 'outpoint', 'fake seal', 'small', 'leaf', 'bits'):
                    continue

                def inputs(run, P, c=c, i=i, vs=vs):
                    vals = []
                    for j, (a, s) in enumerate(attrs(P, c)):
                        vals.append(value(P, vs) if j == i else sym(a, field_sort(P, s)))
                    return [c, Tup(vals), C(i), Tup([Tup(list(kind(P, s))) for _, s in attrs(P, c)])]
                yield Equiv('%s.%s = %s' % (class_name(c), f, vn), 'spec_c11.code_field', 'spec_c11.field', inputs, K=1,
                            site='proofmarshal.proof.Proof.__new__')
    for n in ('bytes', 'int', None):
        yield Equiv('tree leaf, key %s' % n, 'spec_c11.code_leaf', 'spec_c11.leaf', args(('k', n), ('v', 'bytes')),
                    site='proofmarshal.merbinnertree.make_MerbinnerTree_subclass', exc='any')
        yield Equiv('tree leaf, value %s' % n, 'spec_c11.code_leaf', 'spec_c11.leaf', args(('k', 'bytes'), ('v', n)),
                    site='proofmarshal.merbinnertree.make_MerbinnerTree_subclass', exc='any')
        yield Equiv('list item %s' % n, 'spec_c11.code_item', 'spec_c11.item', args(('v', n)),
                    site='proofmarshal.mmr.make_mmr_subclass', exc='any')
    for k in ('fixed', 'var', 'var2'):
        yield Equiv('declaring %s' % k, 'spec_c11.code_factory', 'spec_c11.factory',
                    (lambda k=k: lambda run, P: [C(k), sym('n', 'int'), sym('m', 'int')])(), site=S + 'FixedBytes')
