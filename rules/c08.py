import hashlib
from engine.oblig import Equiv, Table, sym
from engine.interp import explore
from engine.terms import *
from .common import *

METHOD = 'pairwise comparison of the tags of all proof classes, variants and map contents as resolved by the analysis; ' \
         'reference table for tag derivation'


def tag_bytes(P, c):
    v = ns(P, c, 'HASHTAG')
    if v is None or v is NONE:
        return None
    if v.__class__ is Ref:
        v = getattr(P.base[v.id], 'payload', None)
    if v.__class__ is T and v.op == 'c':
        v = v.args[0]
    return v


def own_hash(P, c):
    """True if the class does not hash by tag"""
    base = need(P, 'proofmarshal.proof.Proof')
    d = P.base
    k = next((x for x in c.mro if 'calc_hash' in d[x.ns.id].d), None)
    return k is not None and k is not base


def key(P, c):
    """a variant made by a class factory is named through its parent"""
    for b in c.mro[1:]:
        if '<locals>' in c.qualname and b.qualname.startswith('spec'):
            return '%s.%s' % (b.qualname, c.qualname.rsplit('.', 1)[-1])
    return c.qualname


def tags(P, report):
    seen = {}
    for c in proof_classes(P, concrete=False):
        t = tag_bytes(P, c)
        if c in proof_classes(P):
            report('%s has a tag' % key(P, c), t is not None or own_hash(P, c), 'no tag to hash with')
        if t is None:
            continue
        if t.__class__ is not bytes:
            report(key(P, c), None, 'tag is not a resolved constant')
            continue
        o = seen.get(t)
        report('tag of %s' % key(P, c), o is None, 'tag %s is also the tag of %s' % (t.hex(), o))
        seen.setdefault(t, key(P, c))
    for name, t in content_tags(P):
        if t.__class__ is not bytes:
            report(name, None, 'the tag of the contents was not resolved')
            continue
        o = seen.get(t)
        report(name, o is None or o == name, 'tag %s is also the tag of %s' % (t.hex(), o))
        seen.setdefault(t, name)
    # variants and contents of the same map made by different factories
    subs = {}
    for c in proof_classes(P, concrete=False):
        v = P.base[c.ns.id].d.get('SUB_HASHTAG')
        if v is None or v.__class__ is not Ref:
            continue
        t = P.base[v.id].payload
        o = subs.get(t)
        report('subtag of %s' % c.qualname, o is None or o == c.qualname, 'subtag %s is also that of %s' % (t, o))
        subs.setdefault(t, c.qualname)


def derived(P, report):
    """the tag of a variant is the derived tag of both of its tags in full"""
    def raw(v):
        if v.__class__ is Ref:
            v = getattr(P.base[v.id], 'payload', None)
        return v.args[0] if v.__class__ is T and v.op == 'c' else v

    for c in proof_classes(P, concrete=False):
        sub = P.base[c.ns.id].d.get('SUB_HASHTAG')
        own = P.base[c.ns.id].d.get('HASHTAG')
        parent = next((t for t in (tag_bytes(P, b) for b in c.mro[1:] if b.issub(need(P, 'proofmarshal.proof.Proof'))) if t is not None), None)
        if sub is None or own is None or parent is None:
            continue
        a, t = raw(sub), tag_bytes(P, c)
        if not all(x.__class__ is bytes for x in (a, t, parent)):
            report('variant ' + key(P, c), None, 'tags are not resolved constants')
            continue
        root = bytes.fromhex('8125d227981c4ca0afa7ab9911352c85')
        report('variant ' + key(P, c), t in [hashlib.sha256(root + m).digest()[:16] for m in (a + parent, parent + a)],
               'its tag %s is not the one derived from %s and the tag %s of its class' % (t.hex(), a.hex(), parent.hex()))


NAMES = ['DMap leaf contents', 'DMap inner contents', 'PMap inner contents', 'PMap leaf contents',
         'DMap inner contents', 'DMap leaf contents']


def content_tags(P):
    f = need(P, 'spec_c08.contents')
    cfg = dict(P.base_cfg)
    cfg['field_sorts'] = dict(cfg['field_sorts'])
    cfg['field_sorts'][('UnusedPrefix', 'seal')] = need(P, 'proofchains.core.uniquebits.singleuseseal.BitcoinSingleUseSeal')

    def body(run):
        v = run.call(f, [sym('u', need(P, 'speclib.DMap.UnusedPrefix'))], {})
        return [run.facts.norm(run.reify(x)) for x in run.iterate(v)]
    out = []
    for run, (st, v) in explore(P, body, cfg, 2):
        if st != 'ok':
            if st == 'undecided':
                raise Undecided(v)
            continue
        for n, t in zip(NAMES, v):
            tag = None
            if t.op == 'hash':
                s = segments(t.args[-1])
                if s and s[0].op == 'c' and len(s[0].args[0]) >= 16:
                    tag = s[0].args[0][:16]
            out.append((n, tag))
    return out


def obligations(P):
    yield Table('tags are distinct', tags, site='HASHTAG', minimum=40)
    yield Table('tags of variants are derived', derived, site='proofmarshal.proof.VarProof.declare_variant', minimum=9)
    yield Equiv('tag derivation', 'spec_c08.code_derive', 'spec_c08.derive', args(('a', 'bytes'), ('b', 'bytes')),
                site='proofmarshal.serialize.HashTag.derive')
