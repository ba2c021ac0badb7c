from engine.oblig import Equiv
from .common import args, need

METHOD = 'guarded-outcome tables of verification and of prefix closing for leaf and inner nodes of three maps, ' \
         'against the reference tagged hashes'
S = 'proofchains.core.uniquebits.gumap.make_GuMap_subclass'
SEAL = 'proofchains.core.uniquebits.singleuseseal.BitcoinSingleUseSeal'


def obligations(P):
    for m in ('DMap', 'DMap2', 'PMap'):
        unused = need(P, 'spec_c04.%s.UnusedPrefix' % m)
        cfg = {'field_sorts': {('LeafPrefix', 'witness'): None, ('InnerPrefix', 'witness'): None,
                               ('InnerPrefix', 'left'): unused, ('InnerPrefix', 'right'): unused,
                               ('UnusedPrefix', 'seal'): need(P, SEAL)},
               'vocabulary': ('verify_hash', '.verify_hash'), 'may_raise': {'.verify_hash': ['AssertionError']},
               # the prefix itself is not part of the property
               'opaque': {'proofmarshal.bits.Bits.common_prefix': need(P, 'proofmarshal.bits.Bits')}}
        kv = ('bytes', 'bytes') if m != 'PMap' else (SEAL, SEAL)
        yield Equiv('%s leaf, verify' % m, 'spec_c04.code_verify', 'spec_c04.verify_leaf_' + m,
                    args(('leaf', 'spec_c04.%s.LeafPrefix' % m)), cfg=cfg, site=S + '.LeafPrefix.verify')
        yield Equiv('%s inner, verify' % m, 'spec_c04.code_verify', 'spec_c04.verify_inner_' + m,
                    args(('inner', 'spec_c04.%s.InnerPrefix' % m)), cfg=cfg, site=S + '.InnerPrefix.verify')
        for k, c in (('leaf', 'LeafPrefix'), ('inner', 'InnerPrefix')):
            yield Equiv('%s %s, verify after use' % (m, k), 'spec_c04.code_warm', 'spec_c04.warm_%s_%s' % (k, m),
                        args(('u', 'spec_c04.DMap.UnusedPrefix'), (k, 'spec_c04.%s.%s' % (m, c))), cfg=cfg, need_ret=True,
                        site=S + '.%s.verify' % c)
        yield Equiv('%s leaf, from_unused_prefix' % m, 'spec_c04.code_leaf_' + m, 'spec_c04.leaf_' + m,
                    args(('unused', 'spec_c04.%s.UnusedPrefix' % m), ('key', kv[0]), ('value', kv[1])), exc='any',
                    cfg=cfg, site=S + '.LeafPrefix.from_unused_prefix')
        yield Equiv('%s inner, from_unused_prefix' % m, 'spec_c04.code_inner_' + m, 'spec_c04.inner_' + m,
                    args(('unused', 'spec_c04.%s.UnusedPrefix' % m), ('left', 'spec_c04.%s.UnusedPrefix' % m),
                         ('right', 'spec_c04.%s.UnusedPrefix' % m)), exc='any',
                    cfg=cfg, site=S + '.InnerPrefix.from_unused_prefix')
        yield Equiv('%s inner, from_children' % m, 'spec_c04.code_children_' + m, 'spec_c04.children_' + m,
                    args(('left', 'spec_c04.%s.UnusedPrefix' % m), ('right', 'spec_c04.%s.UnusedPrefix' % m)), exc='any',
                    cfg=cfg, site=S + '.InnerPrefix.from_children')
