from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *
from .c09 import OPAQUE

METHOD = 'guarded-outcome tables of pruning, reading through views, received pruned proofs and their serialization, ' \
         'for every proof class, against the reference'
PR = 'proofmarshal.proof.Proof.'


def obligations(P):
    for c in proof_classes(P):
        n = class_name(c)
        fields = attrs(P, c)
        var = c.issub(need(P, 'proofmarshal.proof.VarProof'))
        cfg = OPAQUE(P)

        def inputs(run, P, c=c, extra=()):
            return [c, Tup([sym(a, field_sort(P, s)) for a, s in attrs(P, c)])] + [C(x) for x in extra]

        def with_name(a, c=c, inputs=inputs):
            return lambda run, P: inputs(run, P, c, (a,))
        for k, site in (('view', 'prune'), ('view2', 'prune'), ('read_missing', '__getattr__'),
                        ('pruned_bytes', 'ctx_serialize')):
            yield Equiv('%s: %s' % (n, k), 'spec_c10.code_' + k, 'spec_c10.' + k, inputs, cfg=cfg, K=1, site=PR + site)
        for a, _ in fields:
            for k, site in (('read', '__getattr__'), ('read2', '__getattr__')):
                yield Equiv('%s: %s %s' % (n, k, a), 'spec_c10.code_' + k, 'spec_c10.' + k, with_name(a), cfg=cfg, K=1,
                            site=PR + site)
            if not var and not n.endswith('SampleWide'):
                yield Equiv('%s: opened %s, serialized' % (n, a), 'spec_c10.code_opened_bytes', 'spec_c10.opened_bytes',
                            with_name(a), cfg=cfg, K=1, exc='any', site=PR + 'ctx_serialize')
        if not var:
            yield Equiv('%s: serialized whole' % n, 'spec_c10.code_whole_bytes', 'spec_c10.whole_bytes', inputs, cfg=cfg, K=1,
                        exc='any', site=PR + 'ctx_serialize')
            yield Equiv('%s: received pruned' % n, 'spec_c10.code_received', 'spec_c10.want_received',
                        (lambda c=c: lambda run, P: [c, sym('h', 'bytes')])(), cfg=cfg, K=1, site=PR + 'ctx_deserialize')
    yield Equiv('witness, views within views', 'spec_c10.code_deep', 'spec_c10.deep',
                args(('w', 'proofchains.core.uniquebits.singleuseseal.BitcoinSealWitness')), cfg=OPAQUE(P), site=PR + '__getattr__')
    for a in ('whole', 'view', 'opened', 'hashed'):
        for b in ('whole', 'opened'):
            for c in ('whole', 'view', 'opened'):
                yield Equiv('witness of parts %s, %s, %s' % (a, b, c), 'spec_c10.code_parts', 'spec_c10.parts',
                            (lambda a=a, b=b, c=c: lambda run, P: args(('w', 'proofchains.core.uniquebits.singleuseseal.BitcoinSealWitness'))(run, P) + [C(a), C(b), C(c)])(),
                            cfg=OPAQUE(P), effects=False, site=PR + '__new__')
