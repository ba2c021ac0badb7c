import hashlib
from proofchains.core.uniquebits.singleuseseal import BitcoinSealWitness
from vspec import ASSUME
from proofmarshal.proof import Proof, PrunedError
from proofmarshal.serialize import BytesDeserializationContext


def make(cls, vals):
    kw = {}
    i = 0
    for n, s in cls.SERIALIZED_ATTRS:
        kw[n] = vals[i]
        i += 1
    try:
        return Proof.__new__(cls, **kw)
    except (ValueError, TypeError):
        ASSUME(False)


def names(cls):
    return [n for n, s in cls.SERIALIZED_ATTRS]


# ---- a new view

def code_view(cls, vals):
    p = make(cls, vals)
    q = p.prune()
    r = [q.__class__ is p.__class__, q is p, q.is_pruned, q.is_fully_pruned]
    r.append(q.hash == p.hash)
    r.append(q.get_hash() == p.get_hash())
    r.append(q.data_hash == p.data_hash)
    r.append(q == p)
    r.append(hash(q) == hash(p))
    # which reads nothing else
    r.append(q.is_pruned)
    r.append(q.is_fully_pruned)
    r.append(p.is_fully_pruned)
    return r


def view(cls, vals):
    make(cls, vals)
    return [True, False, True, True, True, True, True, True, True, True, True, False]


def code_view2(cls, vals):
    p = make(cls, vals)
    q = p.prune().prune()
    return [q.__class__ is cls, q.is_fully_pruned, q.hash == p.hash, q.is_fully_pruned]


def view2(cls, vals):
    make(cls, vals)
    return [True, True, True, True]


# ---- reading through a view

def code_read(cls, vals, n):
    p = make(cls, vals)
    q = p.prune()
    v = getattr(q, n)
    o = getattr(p, n)
    r = [q.is_pruned, q.is_fully_pruned, getattr(q, n) is v, getattr(p, n) is o]
    if isinstance(o, Proof):
        r.append(v.__class__ is o.__class__)
        r.append(v is o)
        r.append(v.is_pruned)
        r.append(v.is_fully_pruned)
        r.append(v.hash == o.hash)
        r.append(v.is_fully_pruned)
    else:
        r.append(v is o)
    # what is left of the view
    r.append(q.hash == p.hash)
    for m in names(cls):
        if m != n:
            w = getattr(q, m)
            if isinstance(w, Proof):
                r.append(w.is_fully_pruned)
    return r


def read(cls, vals, n):
    p = make(cls, vals)
    r = [True, False, True, True]
    if isinstance(getattr(p, n), Proof):
        r = r + [True, False, True, True, True, True]
    else:
        r.append(True)
    r.append(True)
    for m in names(cls):
        if m != n:
            if isinstance(getattr(p, m), Proof):
                r.append(True)
    return r


def code_read2(cls, vals, n):
    """through a view of a view"""
    p = make(cls, vals)
    q = p.prune()
    v = getattr(q.prune(), n)
    o = getattr(p, n)
    if isinstance(o, Proof):
        return [v.__class__ is o.__class__, v is o, v.is_fully_pruned, v.hash == o.hash, p.is_fully_pruned]
    return [v is o, p.is_fully_pruned]


def read2(cls, vals, n):
    p = make(cls, vals)
    if isinstance(getattr(p, n), Proof):
        return [True, False, True, True, False]
    return [True, False]


def code_read_missing(cls, vals):
    q = make(cls, vals).prune()
    try:
        q.no_such_field
    except AttributeError:
        return [q.is_fully_pruned, 'missing']
    return [q.is_fully_pruned, 'found']


def read_missing(cls, vals):
    make(cls, vals)
    return [True, 'missing']


# ---- received pruned

def received(cls, h):
    return cls.ctx_deserialize(BytesDeserializationContext(b'\xff' + h))


def code_received(cls, h):
    ASSUME(len(h) == 32)
    p = received(cls, h)
    r = [p.__class__ is cls, p.is_pruned, p.is_fully_pruned, p.data_hash]
    for n in names(cls):
        try:
            getattr(p, n)
            r.append('found')
        except PrunedError as e:
            r.append(n)
    try:
        p.no_such_field
        r.append('found')
    except AttributeError:
        r.append('missing')
    q = p.prune()
    for n in names(cls):
        try:
            getattr(q, n)
            r.append('found')
        except PrunedError as e:
            r.append(n)
    r.append(p.serialize())
    r.append(q.serialize())
    return r


def want_received(cls, h):
    ASSUME(len(h) == 32)
    r = [True, True, True, h]
    for n in names(cls):
        r.append(n)
    r.append('missing')
    for n in names(cls):
        r.append(n)
    r.append(b'\xff' + h)
    r.append(b'\xff' + h)
    return r


# ---- serialized views

def code_pruned_bytes(cls, vals):
    p = make(cls, vals)
    q = p.prune()
    a = q.serialize()
    return [a, q.is_fully_pruned, cls.serialize(q)]


def pruned_bytes(cls, vals):
    h = b'\xff' + make(cls, vals).data_hash
    return [h, True, h]


def code_opened_bytes(cls, vals, n):
    """a view one field of which was looked at is no longer serialized as a hash"""
    q = make(cls, vals).prune()
    getattr(q, n)
    return q.serialize()[0:1]


def opened_bytes(cls, vals, n):
    make(cls, vals).serialize()
    return b'\x00'


def code_whole_bytes(cls, vals):
    return make(cls, vals).serialize()[0:1]


def whole_bytes(cls, vals):
    make(cls, vals)
    return b'\x00'


# ---- a view of a concrete structure

def code_deep(w):
    q = w.prune()
    a = q.txinproof
    b = a.txproof
    t = b.tx
    return [t is w.txinproof.txproof.tx, b.is_fully_pruned, a.is_fully_pruned, q.is_fully_pruned, a.is_pruned,
            q.txinproof is a, q.txinproof.txproof is b, q.seal.is_fully_pruned, q.txoutproof.is_fully_pruned,
            w.txinproof.txproof.hash == b.hash, q.hash == w.hash]


def deep(w):
    return [True, False, False, False, True, True, True, True, True, True, True]


# ---- a proof of which parts have been pruned says so
def part(p, how):
    if how == 'whole':
        return p
    q = p.prune()
    if how == 'opened':
        q.i
    elif how == 'hashed':
        q.hash
    return q


def code_parts(w, a, b, c):
    for x in (w.txinproof, w.txoutproof, w.seal):
        ASSUME(not x.is_pruned)
    i = part(w.txinproof, a)
    o = part(w.txoutproof, b)
    s = w.seal if c == 'whole' else w.seal.prune()
    if c == 'opened':
        s.nonce
    x = BitcoinSealWitness(seal=s, txinproof=i, txoutproof=o)
    y = x.prune()
    return x.is_pruned, x.is_fully_pruned, y.is_pruned, y.is_fully_pruned, y.seal.is_pruned, x.txinproof is i


def parts(w, a, b, c):
    for x in (w.txinproof, w.txoutproof, w.seal):
        ASSUME(not x.is_pruned)
    return a != 'whole' or b != 'whole' or c != 'whole', False, True, True, True, True
