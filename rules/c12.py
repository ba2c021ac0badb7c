from engine.oblig import Equiv, sym
from engine.terms import *
from .common import *

METHOD = 'guarded-outcome tables of every encoder followed by its decoder over a recording context, of the decoders ' \
         'over arbitrary primitives, and of the primitives over arbitrary bytes, against the reference'
S = 'proofmarshal.serialize.'


def recursive(P, k):
    return any(k.issub(s) for _, s in attrs(P, k))


def pick(P, s, variant, depth):
    v = variants(P, s)
    if not v:
        return s
    k = v[variant % len(v)]
    if depth > 0 and recursive(P, k):
        k = [x for x in v if not recursive(P, x) and attrs(P, x)][-1]
    return k


def describe(P, c, run, name, pruned=(), depth=0, variant=0, path=''):
    """(class, pruned?, values) for build(): fields that hold proofs are
    descriptions themselves"""
    vals = []
    for f, s in attrs(P, c):
        p = path + '.' + f
        if is_hashing(P, s):
            v = variants(P, s)
            k = pick(P, s, variant, depth)
            vals.append(describe(P, k, run, name + '.' + f, pruned, depth + 1, variant, p))
        else:
            so = field_sort(P, s)
            x = sym(name + '.' + f, so)
            if s.issub(need(P, 'proofmarshal.bits.BitsSerializer')):
                x = need(P, 'spec_c12.BITS')
            vals.append(Tup([C('leaf'), NONE, x]))
    return Tup([c, C(path in pruned), Tup(vals)])


def positions(P, c, depth=0, path='', variant=0):
    """paths of the fields that hold proofs"""
    out = []
    for f, s in attrs(P, c):
        if is_hashing(P, s):
            v = variants(P, s)
            k = pick(P, s, variant, depth)
            p = path + '.' + f
            out.append((p, bool(v)))
            out.extend(positions(P, k, depth + 1, p, variant))
    return out


def TX(P):
    def back(run, vals, kw):
        if len(vals) > 2 and run.truth(vals[2]):
            raise Undecided('padding allowed')
        d = run.facts.norm(run.full(vals[1]))
        for t in (d, run.facts.norm(vals[1])):
            if t.op == 'call' and str(t.args[0]).endswith('.serialize'):
                return t.args[1]
        return mk('call', 'deserialize', d, sort=vals[0])
    def out(run, vals, kw):
        t = mk('call', 'bitcoin.core.serialize.Serializable.serialize', vals[0], sort='bytes')
        # no structure of the protocol has an empty encoding
        run.facts.assume_ge(sub(length(t), C(1)), True)
        return t
    return {'opaque': {'bitcoin.core.serialize.Serializable.serialize': out,
                       'bitcoin.core.serialize.Serializable.deserialize': back,
                       'bitcoin.core.serialize.ImmutableSerializable.GetHash': 'bytes',
                       'bitcoin.core.serialize.Serializable.GetHash': 'bytes',
                       S + 'StreamSerializationContext.write_varuint': None},
            'vocabulary': ('bitcoin.core.serialize.Serializable.serialize', 'deserialize', 'bitcoin.core.serialize.Serializable.GetHash',
                           'bitcoin.core.serialize.ImmutableSerializable.GetHash', S + 'StreamSerializationContext.write_varuint')}


def obligations(P):
    cfg = TX(P)
    for c in proof_classes(P):
        n = class_name(c)
        var = c.issub(need(P, 'proofmarshal.proof.VarProof'))
        for variant in range(3):
            pos = positions(P, c, variant=variant)
            if variant and not any(u for _, u in pos):
                break
            for pr in [()] + [(p,) for p, u in pos] + ([('',)] if not var else []):
                def inputs(run, P, c=c, pr=pr, variant=variant):
                    return [c, describe(P, c, run, 'p', pr, variant=variant)]
                site = c.qualname + '.ctx_deserialize'
                # a fully pruned member of a union does not say which variant
                # it was: only the hash is compared there
                if any(isvar(P, c, p, variant) for p in pr):
                    continue
                yield Equiv('%s, variant %d, pruned at [%s]' % (n, variant, ' '.join(p or 'itself' for p in pr)),
                            'spec_c12.code_trip', 'spec_c12.trip', inputs, cfg=cfg, K=1, site=site)
    for q, so in ((S + 'SerBool', 'bool'), (S + 'Digest', 'bytes'), (S + 'UInt8', 'uint'), (S + 'UInt16', 'uint'),
                  (S + 'UInt32', 'uint'), (S + 'UInt64', 'uint'), ('spec_c12.F0', 'bytes'), ('spec_c12.F20', 'bytes'),
                  ('spec_c12.V10', 'bytes'), ('spec_c12.V310', 'bytes'), ('spec_c12.V1', 'bytes'),
                  ('proofchains.core.bitcoin.CTransactionSerializer', 'bitcoin.core.CTransaction'),
                  ('proofchains.core.bitcoin.COutPointSerializer', 'bitcoin.core.COutPoint')):
        def inputs(run, P, q=q, so=so):
            return [need(P, q), sym('v', need(P, so) if '.' in so else so)]
        yield Equiv('value of %s' % q, 'spec_c12.code_value', 'spec_c12.value', inputs, cfg=cfg, site=q + '.ctx_deserialize')
    for b in (8, 16, 32, 64):
        yield Equiv('bounds of UInt%d' % b, 'spec_c12.code_bounds', 'spec_c12.bounds_uint',
                    (lambda b=b: lambda run, P: [need(P, S + 'UInt%d' % b), sym('n', 'uint'), C(b'')])(),
                    site=S + 'UInt.ctx_deserialize')
    for q in ('V10', 'V310', 'V1'):
        yield Equiv('bounds of %s' % q, 'spec_c12.code_bounds', 'spec_c12.bounds_var',
                    (lambda q=q: lambda run, P: [need(P, 'spec_c12.' + q), sym('n', 'uint'), sym('data', 'bytes')])(),
                    site=S + 'VarBytes.ctx_deserialize')
    for q in ('spec_c12.F0', 'spec_c12.F1', 'spec_c12.F20', S + 'Digest'):
        yield Equiv('bounds of %s' % q, 'spec_c12.code_fixed', 'spec_c12.fixed',
                    (lambda q=q: lambda run, P: [need(P, q), sym('data', 'bytes')])(), site=S + 'FixedBytes.ctx_deserialize')
    for q in ('speclib.SampleUnion',):
        def inputs(run, P):
            s = dict(attrs(P, need(P, 'speclib.SampleUnion')))['union']
            return [s, sym('n', 'uint'), sym('h', 'bytes')]
        yield Equiv('index of a union', 'spec_c12.code_union', 'spec_c12.union', inputs,
                    site='proofmarshal.proof.ProofUnion.ctx_deserialize')
    for q in ('speclib.DTree', 'speclib.DMap', 'speclib.DList'):
        yield Equiv('variant index of %s' % q, 'spec_c12.code_variant', 'spec_c12.variant',
                    (lambda q=q: lambda run, P: [need(P, q), sym('n', 'uint'), Tup([])])(), need_ret=True, exc='any',
                    site='proofmarshal.proof.VarProof._ctx_deserialize')
    for n in range(0, 18):
        yield Equiv('%d bits' % n, 'spec_c12.code_bits', 'spec_c12.bits',
                    (lambda n=n: lambda run, P: [C(n), sym('data', 'bytes')])(), K=4,
                    site='proofmarshal.bits.BitsSerializer.ctx_deserialize')
        for skip in (0, 3):
            yield Equiv('%d bits, there and back%s' % (n, ' from 3' if skip else ''), 'spec_c12.code_bits_trip',
                        'spec_c12.bits_trip',
                        (lambda n=n, skip=skip: lambda run, P: [C(n), sym('data', 'bytes'), C(skip)])(), K=4,
                        site='proofmarshal.bits.BitsSerializer.ctx_serialize')
    cx, dx = S + 'StreamSerializationContext.', S + 'StreamDeserializationContext.'
    for so in ('bool', 'int', 'bytes'):
        yield Equiv('write bool of %s' % so, 'spec_c12.code_bool_write', 'spec_c12.bool_write', args(('v', so)),
                    site=cx + 'write_bool', need_ret=False)
    yield Equiv('read bool', 'spec_c12.code_bool_read', 'spec_c12.bool_read', args(('data', 'bytes')), site=dx + 'read_bool')
    yield Equiv('write varuint', 'spec_c12.code_varuint_write', 'spec_c12.varuint_write', args(('v', 'uint')),
                cfg={'unroll': 13}, K=12, Kt=20, site=cx + 'write_varuint')
    yield Equiv('read varuint', 'spec_c12.code_varuint_read', 'spec_c12.varuint_read', args(('data', 'bytes')),
                cfg={'unroll': 13}, K=12, Kt=20, site=dx + 'read_varuint')
    for k in range(0, 11):
        for low in (0, 127):
            yield Equiv('read byte %d of a varuint, the others %d' % (k, low), 'spec_c12.code_varuint_byte', 'spec_c12.varuint_byte',
                        (lambda k=k, low=low: lambda run, P: [C(k), C(low), sym('b', 'int')])(), cfg={'unroll': 13}, K=12, Kt=20, site=dx + 'read_varuint')
    yield Equiv('write bytes', 'spec_c12.code_bytes_write', 'spec_c12.bytes_write', args(('v', 'bytes')), site=cx + 'write_bytes')
    yield Equiv('read bytes', 'spec_c12.code_bytes_read', 'spec_c12.bytes_read', args(('data', 'bytes'), ('n', 'uint')),
                site=dx + 'read_bytes')
    yield Equiv('read counted bytes', 'spec_c12.code_varbytes_read', 'spec_c12.varbytes_read', args(('data', 'bytes')),
                cfg={'unroll': 4}, site=dx + 'read_bytes')
    for q, so in ((S + 'Digest', 'bytes'), (S + 'SerBool', 'bool')):
        yield Equiv('write_obj, read_obj of %s' % q, 'spec_c12.code_obj', 'spec_c12.obj',
                    (lambda q=q, so=so: lambda run, P: [need(P, q), sym('a', so), sym('b', 'bytes')])(), exc='any',
                    site=cx + 'write_obj')
        yield Equiv('serialize, deserialize of %s' % q, 'spec_c12.code_entry', 'spec_c12.entry',
                    (lambda q=q, so=so: lambda run, P: [need(P, q), sym('v', so)])(),
                    site=S + 'Serializer.deserialize')
    for q in ('speclib.Small',):
        for pr in ((), ('',)):
            def inputs(run, P, q=q, pr=pr):
                return [describe(P, need(P, q), run, 'p', pr)]
            yield Equiv('serialize, deserialize of %s%s' % (q, ' pruned' if pr else ''), 'spec_c12.code_proof_entry',
                        'spec_c12.proof_entry', inputs, site='proofmarshal.proof.Proof.serialize')
            yield Equiv('write_obj, read_obj of %s%s' % (q, ' pruned' if pr else ''), 'spec_c12.code_proof_obj',
                        'spec_c12.proof_obj', inputs, site=cx + 'write_obj')


def isvar(P, c, path, variant):
    """is the field at this path of a VarProof type"""
    cur, depth = c, 0
    s = None
    for f in path.strip('.').split('.'):
        if not f:
            continue
        s = dict(attrs(P, cur))[f]
        cur = pick(P, s, variant, depth)
        depth += 1
    return s is not None and s.issub(need(P, 'proofmarshal.proof.VarProof'))
