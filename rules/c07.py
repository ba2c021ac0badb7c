from engine.oblig import Equiv, Table, sym
from engine.terms import *
from engine.objects import *
from .common import *

METHOD = 'guarded-outcome tables of data_hash, hash and equality for every proof class against the reference hash; ' \
         'class-table rules on declared fields'
PR = 'proofmarshal.proof.Proof'
# fields whose loss would change what a hash commits to
EXPECTED = {
    'proofchains.core.bitcoin.TxProof': ['tx'],
    'proofchains.core.bitcoin.OutPointProof': ['txproof', 'n'],
    'proofchains.core.bitcoin.TxInProof': ['i', 'txproof'],
    'proofchains.core.bitcoin.TxOutProof': ['i', 'txproof'],
    'proofchains.core.uniquebits.singleuseseal.FakeSingleUseSeal': ['committed_hash'],
    'proofchains.core.uniquebits.singleuseseal.FakeSealWitness': ['seal'],
    'proofchains.core.uniquebits.singleuseseal.BitcoinSingleUseSeal': ['outpoint', 'nonce'],
    'proofchains.core.uniquebits.singleuseseal.BitcoinSealWitness': ['seal', 'txinproof', 'txoutproof'],
    'speclib.DMap.UnusedPrefix': ['prefix', 'seal'],
    'speclib.DMap.LeafPrefix': ['witness', 'key', 'value'],
    'speclib.DMap.InnerPrefix': ['prefix', 'witness', 'left', 'right'],
    'speclib.DTree.LeafNodeClass': ['key', 'value'],
    'speclib.DTree.InnerNodeClass': ['prefix', 'left', 'right'],
    'speclib.DList.LeafNodeClass': ['value'],
    'speclib.DList.InnerNodeClass': ['left', 'right', 'length'],
}


def obligations(P):
    for c in proof_classes(P):
        n = class_name(c)

        def inputs(run, P, c=c):
            vals, kinds = [], []
            for a, s in attrs(P, c):
                vals.append(sym(a, field_sort(P, s)))
                kinds.append(C(is_hashing(P, s)))
            t = ns(P, c, 'HASHTAG')
            if t.__class__ is Ref:
                t = run.unwrap(t)
            return [c, Tup(vals), Tup(kinds), t if t is not None else NONE]
        cls_cfg = {'opaque': {}}
        yield Equiv('%s data_hash' % n, 'spec_c07.code_data_hash', 'spec_c07.data_hash', inputs, site=c.qualname, K=1,
                    cfg=cls_cfg)
        if ns(P, c, 'HASHTAG') in (None, NONE):
            continue        # hashed differently: transaction proofs, see C06
        yield Equiv('%s hash' % n, 'spec_c07.code_hash', 'spec_c07.hash_', inputs, site=c.qualname, K=1, cfg=cls_cfg)
        yield Equiv('%s bookkeeping' % n, 'spec_c07.code_bookkeeping', 'spec_c07.bookkeeping', inputs,
                    site=c.qualname, K=1, cfg=cls_cfg)
    S, T_ = 'speclib.Small', 'speclib.Small2'
    yield Equiv('proof equality', 'spec_c07.code_eq', 'spec_c07.eq', args(('p', S), ('q', S)), site=PR + '.__eq__')
    yield Equiv('proof equality, two classes', 'spec_c07.code_eq', 'spec_c07.eq', args(('p', S), ('q', T_)),
                site=PR + '.__eq__')
    yield Equiv('proof equality with other values', 'spec_c07.code_eq_other', 'spec_c07.eq_other',
                args(('p', S), ('b', 'bytes'), ('n', 'int')), site=PR + '.__eq__')
    yield Equiv('proof dictionary hash', 'spec_c07.code_pyhash', 'spec_c07.pyhash', args(('p', S)), site=PR + '.__hash__')
    yield Equiv('tagged hash', 'spec_c07.code_tag', 'spec_c07.tag', args(('m', 'bytes')),
                site='proofmarshal.serialize.HashTag.__call__')
    yield Equiv('tagged hash of nothing', 'spec_c07.code_tag_empty', 'spec_c07.tag_empty', args(('m', 'bytes')),
                site='proofmarshal.serialize.HashTag.__call__')
    yield Table('declared fields', fields_rule, site='SERIALIZED_ATTRS', minimum=20)
    yield Table('equality is inherited', eq_rule, site=PR, minimum=20)


def fields_rule(P, report):
    for q, want in EXPECTED.items():
        c = need(P, q)
        have = [a for a, _ in attrs(P, c)]
        report(q, all(have.count(a) == 1 for a in want), 'serialized fields %s, expected %s each once' % (have, want))
    for c in proof_classes(P):
        have = [a for a, _ in attrs(P, c)]
        own = set()
        for k in c.mro:
            if k.qualname == PR:
                break
            sl = P.base[k.ns.id].d.get('__slots__')
            if sl is not None and sl.__class__ is not T:
                own |= {x.args[0] for x in pylist(P, sl)}
        report(class_name(c), own <= set(have) and len(have) == len(set(have)),
               'slots %s, serialized %s' % (sorted(own), have))


def eq_rule(P, report):
    """no class below Proof replaces what equality and hashing mean"""
    base = need(P, PR)
    for c in proof_classes(P, concrete=False):
        for n in ('__eq__', '__ne__', '__hash__'):
            k = next((x for x in c.mro if n in P.base[x.ns.id].d), None)
            report('%s.%s' % (class_name(c), n), k is base or n == '__ne__' and (k is None or k.builtin is object),
                   'defined by %s' % (k.qualname if k else None))
