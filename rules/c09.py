from engine.oblig import Equiv, Result, AnchorMissing, sym
from engine.interp import explore, Limits
from engine.terms import *
from .common import *
import time

METHOD = 'outcome table of attribute assignment and deletion for every proof class; ' \
         'frame (effect) analysis of every operation on objects that existed before it'
PR = 'proofmarshal.proof.Proof'
LAZY = {'hash', 'data_hash'}


class Frame:
    """after the operation every proof and bit string that existed before it
    has the fields it had, plus at most its lazily computed hashes"""
    def __init__(self, name, setup, op, inputs, cfg=None, site='', need_ret=True):
        self.need_ret = need_ret
        self.name, self.setup, self.op, self.inputs, self.cfg, self.site = name, setup, op, inputs, cfg or {}, site

    def run(self, P, tier='quick'):
        res = Result(self.name)
        res.kind = 'equivalence'
        res.site = self.site
        res.need_ret = self.need_ret
        setup, op = need(P, self.setup), need(P, self.op)
        bases = (need(P, PR), need(P, 'proofmarshal.bits.Bits'))
        cfg = dict(P.base_cfg)
        for k, v in self.cfg.items():
            cfg[k] = {**cfg[k], **v} if isinstance(cfg.get(k), dict) else v

        def guarded(run):
            vals, extra = self.inputs(run, P)
            try:
                o = run.call(setup, vals, {})
            except PyExc as e:
                raise CutPath('no such object: %s %s' % (e.cls.qualname, e.where))
            before = {}
            for i, h in list(run.heap.items()) + list(run.prog.base.items()):
                if h.__class__ is INST and any(h.cls.issub(b) for b in bases) and i not in before:
                    before[i] = (h.cls, dict(h.attrs))
            pre = {v: dict(d) for v, d in run.symattrs.items()}
            try:
                run.call(op, [o] + extra, {})
                how = 'ret'
            except PyExc as e:
                how = 'exc'
            bad = []
            orig = [n for c in bases for n in ()]
            for i, (c, b) in before.items():
                h = run.heap.get(i) or run.prog.base[i]
                view = is_view(run, b)
                for n in sorted(set(b) | set(h.attrs)):
                    x, y = b.get(n), h.attrs.get(n)
                    if x is y or (x is not None and y is not None and unchanged(run, x, y)):
                        continue
                    if x is None and (n in LAZY or view):
                        continue
                    if view and n == 'is_fully_pruned':
                        continue
                    bad.append('%s.%s %s' % (c.qualname, n, 'is added' if x is None else 'is removed' if y is None else
                                             'changes from %s to %s' % (txt(run, x), txt(run, y))))
            for v, d in run.symattrs.items():
                if not isinstance(v.sort, ClassObj) or not any(v.sort.issub(b) for b in bases):
                    continue
                for n in sorted(d):
                    if n in LAZY or n in pre.get(v, ()):
                        continue
                    bad.append('%s.%s is set' % (v.sort.qualname, n))
            return how, bad
        t0 = time.monotonic()
        for run, (st, v) in explore(P, guarded, cfg, 2, Limits(3000, 40)):
            res.paths += 1
            if st == 'cut':
                res.cut += 1
                res.cutmsg = v
            elif st == 'undecided':
                res.undecided.append(v)
            else:
                how, bad = v
                if bad:
                    res.violations.append({'rule': self.name, 'at': self.site, 'what': '; '.join(bad[:4]), 'path': [], 'key': ''})
                    if len(res.violations) >= 2:
                        break
                else:
                    res.agree += 1
                    res.outcomes[(how, how)] = res.outcomes.get((how, how), 0) + 1
        res.samples = ['%s: no field of an existing object changes on %d paths' % (self.name, res.agree)]
        res.wall = time.monotonic() - t0
        return res


def is_view(run, attrs):
    """a pruned view keeps a reference to its original"""
    return any(n.endswith('__orig_instance') and v is not NONE for n, v in attrs.items())


def unchanged(run, x, y):
    if x.__class__ is T and y.__class__ is T:
        return run.facts.norm(x) is run.facts.norm(y)
    if x.__class__ is Ref and y.__class__ is Ref:
        return x.id == y.id
    return False


def txt(run, v):
    return show(v)[:60] if v.__class__ is T else repr(v)[:60]


def obligations(P):
    for c in proof_classes(P):
        n = class_name(c)
        if '<locals>' in c.qualname and not any(b.qualname in ('speclib.DMap', 'speclib.DTree', 'speclib.DList') for b in c.mro):
            continue
        names = [a for a, _ in attrs(P, c)] + ['hash', 'is_pruned', 'anything']
        for a in names:
            for op in ('set', 'del'):
                yield Equiv('%s %s %s' % (op, n, a), 'spec_c09.code_' + op, 'spec_c09.code_frozen',
                            (lambda c=c, a=a: lambda run, P: [sym('p', c), C(a), sym('v', 'bytes')])(),
                            site=PR + '.__%sattr__' % op, need_ret=False)

        for a in names + ['data_hash', 'is_fully_pruned']:
            for op in ('set', 'del'):
                yield Equiv('%s %s %s, once made and hashed' % (op, n, a), 'spec_c09.made_' + op, 'spec_c09.made_frozen',
                            (lambda c=c, a=a: lambda run, P: [c, Tup([sym(x, field_sort(P, s)) for x, s in attrs(P, c)]), C(a), sym('v', 'bytes')])(),
                            site=PR + '.__%sattr__' % op, need_ret=False, cfg=OPAQUE(P), effects=False)

        def inputs(run, P, c=c):
            return [c, Tup([sym(a, field_sort(P, s)) for a, s in attrs(P, c)])], []
        for s in ('obj', 'view', 'opened', 'hashed'):
            for op in pylist(P, need(P, 'spec_c09.OPS')):
                op = op.args[0]
                if op.startswith(('tx', 'verify', 'seal')) and not has(P, c, op):
                    continue
                yield Frame('%s %s: %s' % (n, s, op), 'spec_c09.setup_' + s, 'spec_c09.op_' + op, inputs, site=c.qualname,
                            cfg=OPAQUE(P),
                            need_ret=op not in ('missing', 'verify_hash', 'seal', 'verify', 'repr', 'check'))
    for what, table, site in (('tree', 'TREE', 'proofmarshal.merbinnertree.MerbinnerTree'),
                              ('list', 'LIST', 'proofmarshal.mmr.MerkleMountainRange'),
                              ('map', 'MAP', 'proofchains.core.uniquebits.gumap.GuMap'),
                              ('bits', 'BITS', 'proofmarshal.bits.Bits')):
        def inputs(run, P):
            vs = [sym('v%d' % i, 'bytes') for i in range(4)]
            for v in vs:
                run.facts.assume_eq0(sub(length(v), C(32)), True)
            return [Tup(vs[:3])], [vs[3]]
        for op in pylist(P, need(P, 'spec_c09.' + table)):
            op = op.args[0]
            yield Frame('%s %s' % (what, op), 'spec_c09.setup_' + what, 'spec_c09.%s_%s' % (what, op), inputs, site=site)


def has(P, c, op):
    name = {'verify': 'verify', 'verify_hash': 'verify_hash', 'txid': 'txhash', 'txin': 'txin', 'txout': 'txout',
            'seal': 'seal'}[op]
    return any(name in P.base[k.ns.id].d for k in c.mro)


def OPAQUE(P):
    return {'opaque': {'bitcoin.core.serialize.ImmutableSerializable.GetHash': 'bytes',
                       'bitcoin.core.serialize.Serializable.GetHash': 'bytes',
                       'bitcoin.core.serialize.Serializable.serialize': 'bytes',
                       'proofmarshal.bits.BitsSerializer.ctx_serialize': None,
                       'proofmarshal.serialize.StreamSerializationContext.write_varuint': None}}
