"""What every rule shares: the modules analysed, the declared sorts of fields,
and the two intrinsics of the reference descriptions."""
from engine.terms import *
from engine.objects import *
from engine import oblig

MODULES = ['bitcoin', 'bitcoin.base58', 'bitcoin.bloom', 'bitcoin.core', 'bitcoin.core.key', 'bitcoin.core.script',
           'bitcoin.core.scripteval', 'bitcoin.core.serialize', 'bitcoin.messages', 'bitcoin.net', 'bitcoin.rpc',
           'bitcoin.wallet', 'proofmarshal', 'proofmarshal.bits', 'proofmarshal.merbinnertree', 'proofmarshal.mmr',
           'proofmarshal.proof', 'proofmarshal.serialize', 'proofchains.core.bitcoin',
           'proofchains.core.uniquebits.gumap', 'proofchains.core.uniquebits.singleuseseal',
           'proofchains.uniquebits.singleuseseal', 'sus_tool']

ASSUMPTIONS = [
    'CPython 3 semantics of the constructs the analysis interprets; assert statements are enabled',
    'hash functions are uninterpreted and equal only on equal input (collision resistance)',
    'fields of library objects hold values of the class their constructors and codecs put there',
    'sequences longer than the stated bound behave like the ones within it',
]


def prepare(P):
    def assume(run, a, k):
        if not run.truth(a[0]):
            raise CutPath('assumed away')
        return NONE
    P.ext_models['vspec.ASSUME'] = Builtin('ASSUME', assume)
    P.ext_consts['vspec.ANY'] = oblig.ANY
    P.ext_consts['vspec.SOME'] = oblig.SOME


FIELDS = {
    ('COutPoint', 'hash'): 'bytes', ('COutPoint', 'n'): 'uint',
    ('CTxIn', 'prevout'): 'COutPoint', ('CTxIn', 'scriptSig'): 'CScript', ('CTxIn', 'nSequence'): 'uint',
    ('CTxOut', 'nValue'): 'int', ('CTxOut', 'scriptPubKey'): 'CScript',
    ('CTransaction', 'nVersion'): 'int', ('CTransaction', 'nLockTime'): 'uint',
    ('CTransaction', 'vin'): ('tuple', 'CTxIn'), ('CTransaction', 'vout'): ('tuple', 'CTxOut'),
    ('CMutableTransaction', 'vin'): ('list', 'CMutableTxIn'), ('CMutableTransaction', 'vout'): ('list', 'CMutableTxOut'),
    ('CMutableTxIn', 'prevout'): 'CMutableOutPoint',
    ('CBlockHeader', 'nVersion'): 'int', ('CBlockHeader', 'hashPrevBlock'): 'bytes',
    ('CBlockHeader', 'hashMerkleRoot'): 'bytes', ('CBlockHeader', 'nTime'): 'uint',
    ('CBlockHeader', 'nBits'): 'uint', ('CBlockHeader', 'nNonce'): 'uint',
    ('CBlock', 'vtx'): ('tuple', 'CTransaction'), ('CBlock', 'vMerkleTree'): ('tuple', 'bytes'),
    ('Proof', 'hash'): 'bytes', ('Proof', 'data_hash'): 'bytes',
    ('Proof', 'is_pruned'): 'bool', ('Proof', 'is_fully_pruned'): 'bool',
}


def _len(n):
    def f(facts, t):
        facts.assume_eq0(sub(length(t), C(n)), True)
    return f


def _u(bits):
    def f(facts, t):
        facts.assume_ge(t, True)
        facts.assume_ge(sub(C((1 << bits) - 1), t), True)
    return f


def _i(bits):
    def f(facts, t):
        facts.assume_ge(add(t, C(1 << (bits - 1))), True)
        facts.assume_ge(sub(C((1 << (bits - 1)) - 1), t), True)
    return f


# what the constructors and decoders of these classes guarantee
INVARIANTS = {
    ('COutPoint', 'hash'): _len(32), ('COutPoint', 'n'): _u(32), ('CTxIn', 'nSequence'): _u(32),
    ('Proof', 'hash'): _len(32), ('Proof', 'data_hash'): _len(32),
}
CLASSES = {
    'COutPoint': 'bitcoin.core.COutPoint', 'CTxIn': 'bitcoin.core.CTxIn', 'CTxOut': 'bitcoin.core.CTxOut',
    'CTransaction': 'bitcoin.core.CTransaction', 'CMutableTransaction': 'bitcoin.core.CMutableTransaction',
    'CMutableTxIn': 'bitcoin.core.CMutableTxIn', 'CMutableTxOut': 'bitcoin.core.CMutableTxOut',
    'CMutableOutPoint': 'bitcoin.core.CMutableOutPoint', 'CScript': 'bitcoin.core.script.CScript',
    'CBlock': 'bitcoin.core.CBlock', 'CBlockHeader': 'bitcoin.core.CBlockHeader',
    'Bits': 'proofmarshal.bits.Bits',
}
PM = 'proofmarshal.serialize.'
SER = {
    'proofchains.core.bitcoin.CTransactionSerializer': 'CTransaction',
    'proofchains.core.bitcoin.COutPointSerializer': 'COutPoint',
    'proofmarshal.bits.BitsSerializer': 'Bits',
    PM + 'SerBool': 'bool', PM + 'FixedBytes': 'bytes', PM + 'VarBytes': 'bytes', PM + 'Digest': 'bytes',
    PM + 'UInt': 'uint', PM + 'UInt8': 'uint', PM + 'UInt16': 'uint', PM + 'UInt32': 'uint', PM + 'UInt64': 'uint',
}


def sort_of(P, s):
    if isinstance(s, tuple):
        return (s[0],) + tuple(sort_of(P, x) for x in s[1:])
    if s in CLASSES:
        c = P.lookup(CLASSES[s])
        if c is None:
            raise oblig.AnchorMissing(CLASSES[s])
        return c
    return s


def finish(P):
    P.base_cfg = {
        'field_sorts': {k: sort_of(P, v) for k, v in FIELDS.items()},
        'invariants': INVARIANTS,
        'ser_sorts': {k: sort_of(P, v) for k, v in SER.items()},
    }


def need(P, dotted):
    v = P.lookup(dotted)
    if v is None:
        raise oblig.AnchorMissing(dotted)
    return v


def obj(name, cls):
    """inputs(): one symbolic object of the given class"""
    def f(run, P):
        return [oblig.sym(name, need(P, cls))]
    return f


def args(*specs):
    """inputs(): symbolic arguments given as (name, sort or dotted class name)"""
    def f(run, P):
        out = []
        for sp in specs:
            if not isinstance(sp, tuple):
                out.append(sp)
                continue
            n, s = sp
            if isinstance(s, str) and '.' in s:
                s = need(P, s)
            elif isinstance(s, tuple):
                s = tuple(need(P, x) if isinstance(x, str) and '.' in x else sort_of(P, x) for x in s)
            else:
                s = sort_of(P, s)
            out.append(oblig.sym(n, s))
        return out
    return f


def subclasses(c):
    out = []
    for s in c.subs:
        if s not in out:
            out.append(s)
            out.extend(x for x in subclasses(s) if x not in out)
    return out


def proof_classes(P, concrete=True):
    """classes derived from Proof anywhere in the program; with `concrete`,
    those whose objects have serialized fields of their own or are variants"""
    base = need(P, 'proofmarshal.proof.Proof')
    out = []
    for c in subclasses(base):
        if not concrete:
            out.append(c)
            continue
        d = P.base[c.ns.id].d
        if 'SERIALIZED_ATTRS' in d and not c.subs:
            out.append(c)
    return out


def ns(P, c, name, default=None):
    for k in c.mro:
        d = P.base[k.ns.id].d
        if name in d:
            return d[name]
    return default


def pylist(P, v):
    """items of a loaded tuple or list"""
    if v.__class__ is Tup:
        return list(v.items)
    return list(P.base[v.id].items)


def attrs(P, c):
    """[(field name, serializer class)]"""
    return [(x.items[0].args[0], x.items[1]) for x in pylist(P, ns(P, c, 'SERIALIZED_ATTRS'))]


def is_hashing(P, s):
    return s.issub(need(P, 'proofmarshal.serialize.HashingSerializer'))


def variants(P, c):
    u = ns(P, c, 'UNION_CLASSES')
    if u is None or u is NONE:
        return []
    return pylist(P, u)


def field_sort(P, s):
    """the sort of an acceptable value of a field"""
    if is_hashing(P, s):
        v = variants(P, s)
        if v:
            return v[-1]
        return s
    for c in s.mro:
        if c.qualname in SER:
            return sort_of(P, SER[c.qualname])
    return None


def class_name(c):
    return c.qualname.split('.', 2)[-1] if c.qualname.startswith('proof') else c.qualname
