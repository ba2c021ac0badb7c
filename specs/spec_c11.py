from vspec import ASSUME, ANY
from bitcoin.core import CTransaction, COutPoint
from proofmarshal.bits import Bits
from proofmarshal.proof import Proof, ProofUnion, VarProof
from proofmarshal.serialize import (SerializerTypeError, SerializerValueError, SerBool, FixedBytes, VarBytes, Digest,
                                    UInt8, UInt16, UInt32, UInt64, Serializer)
from proofmarshal.bits import BitsSerializer
from proofchains.core.bitcoin import CTransactionSerializer, COutPointSerializer
from proofchains.core.uniquebits.singleuseseal import FakeSingleUseSeal, BitcoinSingleUseSeal
import speclib

F0, F1, F20, F16 = FixedBytes(0), FixedBytes(1), FixedBytes(20), FixedBytes(16)
V10, V1, V310 = VarBytes(10), VarBytes(1), VarBytes(3, 10)
UNION = ProofUnion(FakeSingleUseSeal, BitcoinSingleUseSeal)
UNION1 = ProofUnion(speclib.Small)


def code_check(s, v, kind, a, b):
    try:
        s.check_instance(v)
    except SerializerTypeError:
        return 'type'
    except SerializerValueError:
        return 'value'
    return 'ok'


def check(s, v, kind, a, b):
    """what the checker of each kind of field accepts"""
    if kind == 'bool':
        return 'ok' if v.__class__ is bool else 'type'
    if kind == 'bytes':
        if v.__class__ is not bytes:
            return 'type'
        return 'ok' if a <= len(v) <= b else 'value'
    if kind == 'uint':
        if v.__class__ is not int:
            return 'type'
        return 'ok' if a <= v <= b else 'value'
    if kind == 'bits':
        return 'ok' if v.__class__ is Bits else 'type'
    if kind == 'tx':
        return 'ok' if isinstance(v, CTransaction) else 'type'
    if kind == 'outpoint':
        return 'ok' if isinstance(v, COutPoint) else 'type'
    if kind == 'union':
        for c in a:
            if isinstance(v, c):
                return 'ok'
        return 'type'
    return ANY


# ---- construction

class Log:
    calls = []


def recorder(n):
    class R(Serializer):
        @classmethod
        def check_instance(cls, v):
            Log.calls.append((n, v))
            if v == b'type':
                raise SerializerTypeError('no')
            if v == b'value':
                raise SerializerValueError('no')
    return R


class Three(Proof):
    __slots__ = ['x', 'y', 'z']
    SERIALIZED_ATTRS = [('x', recorder('x')), ('y', recorder('y')), ('z', recorder('z'))]


def code_construct(x, y, z):
    Log.calls.clear()
    try:
        p = Three(x=x, y=y, z=z)
    except SerializerTypeError:
        return 'type'
    except SerializerValueError:
        return 'value'
    ok = True
    for c in (('x', x), ('y', y), ('z', z)):
        ok = ok and c in Log.calls
    return ok, p.x, p.y, p.z


def construct(x, y, z):
    for v in (x, y, z):
        if v == b'type':
            return 'type'
        if v == b'value':
            return 'value'
    return True, x, y, z


def code_construct_wrong(x, y, z):
    """the checker decides, whatever the order they are asked in"""
    ASSUME(y == b'type' or y == b'value')
    ASSUME(z != b'type' and z != b'value')
    ASSUME(x != b'type' and x != b'value')
    return code_construct(x, y, z)


def construct_wrong(x, y, z):
    return construct(x, y, z)


def code_missing(x, y):
    try:
        Three(x=x, y=y)
    except Exception:
        return 'refused'
    return 'made'


def missing(x, y):
    return 'refused'


def code_field(cls, vals, i, kinds):
    """an object of a class of the library, one field of which holds anything"""
    kw = {}
    j = 0
    for n, s in cls.SERIALIZED_ATTRS:
        if j != i and kinds[j][0] is not None:
            ASSUME(check(s, vals[j], kinds[j][0], kinds[j][1], kinds[j][2]) == 'ok')
        kw[n] = vals[j]
        j += 1
    try:
        p = Proof.__new__(cls, **kw)
    except SerializerTypeError:
        return 'type'
    except SerializerValueError:
        return 'value'
    r = []
    for n, s in cls.SERIALIZED_ATTRS:
        r.append(getattr(p, n))
    return r


def field(cls, vals, i, kinds):
    j = 0
    for n, s in cls.SERIALIZED_ATTRS:
        if j != i and kinds[j][0] is not None:
            ASSUME(check(s, vals[j], kinds[j][0], kinds[j][1], kinds[j][2]) == 'ok')
        j += 1
    a = check(None, vals[i], kinds[i][0], kinds[i][1], kinds[i][2])
    if a == 'ok':
        return list(vals)
    return a


def code_leaf(k, v):
    try:
        n = speclib.DTree.LeafNodeClass(k, v)
    except SerializerTypeError:
        return 'type'
    except SerializerValueError:
        return 'value'
    return n.key, n.value


def leaf(k, v):
    for x in (k, v):
        if x.__class__ is not bytes:
            return 'type'
        if len(x) != 32:
            return 'value'
    return k, v


def code_item(v):
    try:
        n = speclib.DList.LeafNodeClass(v)
    except SerializerTypeError:
        return 'type'
    except SerializerValueError:
        return 'value'
    return n.value


def item(v):
    if v.__class__ is not bytes:
        return 'type'
    if len(v) != 32:
        return 'value'
    return v


def code_factory(k, n, m):
    try:
        if k == 'fixed':
            c = FixedBytes(n)
            return c.EXPECTED_LENGTH
        if k == 'var':
            c = VarBytes(n)
            return c.MIN_LENGTH, c.MAX_LENGTH
        c = VarBytes(n, m)
        return c.MIN_LENGTH, c.MAX_LENGTH
    except ValueError:
        return 'value'


def factory(k, n, m):
    if k == 'fixed':
        return n if n >= 0 else 'value'
    if k == 'var':
        return (0, n) if 0 < n else 'value'
    return (n, m) if 0 <= n < m else 'value'


class Base(Proof):
    __slots__ = ['x']
    SERIALIZED_ATTRS = [('x', recorder('x'))]


class Derived(Base):
    __slots__ = ['y']
    SERIALIZED_ATTRS = [('x', recorder('x')), ('y', recorder('y'))]


def code_derived(x, y):
    """a class that had objects before its subclass does"""
    try:
        Base(x=x)
        p = Derived(x=x, y=y)
        q = Base(x=x)
    except SerializerTypeError:
        return 'type'
    except SerializerValueError:
        return 'value'
    return p.x, p.y, q.x


def derived(x, y):
    for v in (x, y):
        if v == b'type':
            return 'type'
        if v == b'value':
            return 'value'
    return x, y, x
