"""Hash-consed value numbers and the little arithmetic the analysis needs.

A value number is an immutable term T(op, args).  Terms are interned, so two
abstract values are the same value exactly when they are the same object.
Integers are kept as canonical linear forms over atoms; division, remainder,
shifts and masks by constants all normalise to linear forms over floor-division
atoms, and fixed-width decoding normalises to a linear form over byte atoms, so
that different spellings of the same computation get the same number.
"""
from math import gcd


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *args, sort=None):
    key = (op,) + args
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = len(_tab)
        _tab[key] = t
    elif t.sort is None and sort is not None:
        t.sort = sort
    return t


_snap = {}


def snapshot():
    _snap.clear()
    _snap.update(_tab)


def reset():
    """forget the value numbers made since the snapshot"""
    _tab.clear()
    _tab.update(_snap)


_csort = {int: 'int', bool: 'bool', str: 'str', bytes: 'bytes', type(None): 'none', float: 'float'}


def C(v):
    key = ('c', type(v), v)
    if type(v) is float:
        key = ('c', float, repr(v))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = 'c'
        t.args = (v,)
        t.sort = _csort.get(type(v))
        t.id = len(_tab)
        _tab[key] = t
    return t


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
EMPTY = C(b'')


def is_c(t):
    return t.__class__ is T and t.op == 'c'


# ---------------------------------------------------------------- linear forms
def lin_of(t):
    """(dict atom -> coefficient, constant)"""
    if t.op == 'c':
        v = t.args[0]
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')) or not v.is_integer():
                return {t: 1}, 0
            v = int(v)
        return {}, int(v)
    if t.op == 'lin':
        return dict(t.args[1]), t.args[0]
    if t.op == 'b01':
        return lin_of(t.args[0])
    return {t: 1}, 0


def from_lin(d, c):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)), sort='int')


def add(a, b, kb=1):
    da, ca = lin_of(a)
    db, cb = lin_of(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + kb * v
    return from_lin(da, ca + kb * cb)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    d, c = lin_of(a)
    return from_lin({t: v * k for t, v in d.items()}, c * k)


def mul(a, b):
    if a.op == 'c' and isinstance(a.args[0], int):
        return scale(b, int(a.args[0]))
    if b.op == 'c' and isinstance(b.args[0], int):
        return scale(a, int(b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return mk('*', a, b, sort='int')


def floordiv(a, k):
    """a // k for a constant k > 0"""
    if k == 1:
        return a
    d, c = lin_of(a)
    if not d:
        return C(c // k)
    out, rest = {}, {}
    for t, v in d.items():
        q, r = divmod(v, k)
        # keep small negative coefficients negative: -1 = 0*k + (-1)
        if r and v < 0 and -v < k:
            q, r = 0, v
        if q:
            out[t] = q
        if r:
            rest[t] = r
    qc, rc = divmod(c, k)
    g = 0
    for v in rest.values():
        g = gcd(g, v)
    if not rest:
        return from_lin(out, qc)
    g = gcd(g, k)
    if g > 1:
        # (g*x + rc)//k == (x + rc//g)//(k//g)
        rest = {t: v // g for t, v in rest.items()}
        rc = rc // g
        k = k // g
        if k == 1:
            return add(from_lin(out, qc), from_lin(rest, rc))
    lo, hi = span(rest, rc)
    if lo is not None and hi is not None and lo // k == hi // k:
        return add(from_lin(out, qc), C(lo // k))
    if len(rest) > 1 or rc:
        for v0 in sorted({gcd(v, k) for v in rest.values()}, reverse=True):
            if v0 <= 1:
                continue
            small = {t: v for t, v in rest.items() if v % v0}
            if len(small) == len(rest):
                continue
            lo, hi = span(small, rc % v0)
            if lo is not None and hi is not None and lo >= 0 and hi < v0:
                # (g*x + s)//k == x//(k//g) for 0 <= s < g
                big = from_lin({t: v // v0 for t, v in rest.items() if not v % v0}, rc // v0)
                return add(from_lin(out, qc), floordiv(big, k // v0))
    inner = [t for t, v in rest.items() if t.op == '//' and isinstance(t.args[1], int)]
    if len(inner) == 1 and rest[inner[0]] == 1 and len(rest) > 1 and all(v > 0 for v in rest.values()):
        # (a + x//m)//k == (m*a + x)//(m*k)
        x, m = inner[0].args
        del rest[inner[0]]
        return add(from_lin(out, qc), floordiv(add(scale(from_lin(rest, rc), m), x), m * k))
    r = from_lin(rest, rc)
    if r.op == '//' and isinstance(r.args[1], int):
        q = mk('//', r.args[0], r.args[1] * k, sort='int')
    else:
        q = mk('//', r, k, sort='int')
    return add(from_lin(out, qc), q)


def span(d, c):
    """constant bounds of a linear term, from its atoms alone"""
    lo = hi = c
    left = None
    for t, v in d.items():
        if v < 0 and t.op == '//' and isinstance(t.args[1], int):
            e, k = t.args
            # w*(x - j*(x//j)) lies in [0, w*(j-1)], x an atom or a finer quotient
            for u, w in (left or d).items():
                if w <= 0 or v % w:
                    continue
                j = -v // w
                if u.op == '//' and u.args[0] is e and isinstance(u.args[1], int):
                    ok = u.args[1] * j == k
                else:
                    ok = u is e and j == k
                if ok:
                    left = dict(left or d)
                    del left[u]
                    del left[t]
                    hi += w * (j - 1)
                    break
    for t, v in (d if left is None else left).items():
        l, h = atom_span(t)
        if v < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + l * v
        hi = None if hi is None or h is None else hi + h * v
    return lo, hi


def atom_span(t):
    if t.op == 'byte':
        return 0, 255
    if t.op in ('bit', 'xor1', 'and1'):
        return 0, 1
    if is_byte(t):
        return 0, 255
    if t.op == '//' and isinstance(t.args[1], int):
        lo, hi = span(*lin_of(t.args[0]))
        return lo if lo is None else lo // t.args[1], hi if hi is None else hi // t.args[1]
    if t.sort == 'uint' or t.op == 'len':
        return 0, None
    return None, None


def is_byte(t):
    """one byte of a byte string, or that with some of its bits inverted"""
    return t.op == 'byte' or t.op == '^' and t.args[0].op == 'byte' and is_c(t.args[1]) and 0 <= t.args[1].args[0] < 256


def mod(a, k):
    return sub(a, scale(floordiv(a, k), k))


def bitand(a, m):
    """a & m for a constant m >= 0, as a linear form"""
    r = ZERO
    lo = 0
    while m >> lo:
        if (m >> lo) & 1:
            hi = lo
            while (m >> hi) & 1:
                hi += 1
            r = add(r, sub(mod(a, 1 << hi), mod(a, 1 << lo)))
            lo = hi
        else:
            lo += 1
    return r


def band(a, m):
    if m >= 0:
        return bitand(a, m)
    return sub(a, bitand(a, ~m))


def xor1(p, q):
    """exclusive or of two single bits"""
    if is_c(q):
        p, q = q, p
    if is_c(p):
        return sub(C(1), q) if p.args[0] else q
    if p is q:
        return ZERO
    if is_c(add(p, q)):
        return C(1)
    return mk('xor1', *sorted((p, q), key=lambda t: t.id), sort='int')


def and1(p, q):
    if is_c(q):
        p, q = q, p
    if is_c(p):
        return q if p.args[0] else ZERO
    if p is q:
        return p
    if is_c(add(p, q)):
        return ZERO
    return mk('and1', *sorted((p, q), key=lambda t: t.id), sort='int')


def bits_of(t):
    """a number made of single bits at distinct places: {place: 0/1 or bit term}, or None"""
    d, c = lin_of(t)
    out = {}
    for a, v in d.items():
        if a.op not in ('bit', 'xor1', 'and1') or v == 0 or abs(v) & (abs(v) - 1):
            return None
        k = abs(v).bit_length() - 1
        if k in out:
            return None
        if v < 0:
            c += v
        out[k] = a if v > 0 else sub(C(1), a)
    if c < 0:
        return None
    k = 0
    while c >> k:
        if (c >> k) & 1:
            if k in out:
                return None
            out[k] = C(1)
        k += 1
    return out


# ---------------------------------------------------------------- bytes terms
def length(t):
    if t.op == 'c':
        return C(len(t.args[0]))
    if t.op == 'slice':
        return sub(t.args[2], t.args[1])
    if t.op == 'enc':
        return C(t.args[0])
    if t.op == 'hash':
        return C({'sha256': 32, 'ripemd160': 20, 'sha1': 20, 'md5': 16, 'sha512': 64}.get(t.args[0], 0)) \
            if t.args[0] in ('sha256', 'ripemd160', 'sha1', 'md5', 'sha512') else mk('len', t, sort='uint')
    if t.op == 'cat':
        r = ZERO
        for a in t.args:
            r = add(r, length(a))
        return r
    if t.op == 'rev':
        return length(t.args[0])
    if t.op == 'rep':
        return scale(t.args[1], len(t.args[0].args[0]))
    if t.op == 'urandom':
        return t.args[0]
    if t.op == 'aton':
        return C(4)
    if t.op == 'text':
        return C(len(t.args))
    return mk('len', t, sort='uint')


def seg(base, lo, hi):
    """base[lo:hi], with 0 <= lo <= hi <= len(base) established by the caller"""
    if sub(hi, lo) is ZERO:
        return EMPTY
    if lo is ZERO and hi is length(base):
        return base
    if base.op == 'slice':
        b, l, h = base.args
        return seg(b, add(l, lo), add(l, hi))
    if base.op == 'c' and is_c(lo) and is_c(hi):
        return C(base.args[0][lo.args[0]:hi.args[0]])
    if base.op == 'rev':
        n = length(base)
        return rev(seg(base.args[0], sub(n, hi), sub(n, lo)))
    if base.op == 'cat':
        # pick out segments when the bounds fall on known places
        pos = ZERO
        out = []
        cl, ch = lo, hi
        for s in base.args:
            n = length(s)
            end = add(pos, n)
            a, b = sub(lo, pos), sub(hi, pos)     # relative to this segment
            ka = a.args[0] if is_c(a) else None
            kb = b.args[0] if is_c(b) else None
            kn = n.args[0] if is_c(n) else None
            # start clip
            if ka is not None and ka <= 0:
                s_lo = ZERO
            elif ka is not None and kn is not None and ka >= kn:
                pos = end
                continue
            elif a is n:
                pos = end
                continue
            elif ka is not None and kn is not None:
                s_lo = a
            elif ka is not None and s is base.args[-1]:
                s_lo = a
            else:
                ka2 = sub(a, n)
                if is_c(ka2) and ka2.args[0] >= 0:
                    pos = end
                    continue
                if is_c(ka2) and ka2.args[0] < 0 and s is not base.args[-1]:
                    break
                if is_c(sub(lo, pos)) is False:
                    break
                s_lo = a
            # end clip
            if b is n:
                s_hi = n
            elif kb is not None and kb <= 0:
                return cat(*out)
            elif kb is not None and kn is not None:
                s_hi = b if kb < kn else n
            else:
                d = sub(b, n)
                if is_c(d):
                    s_hi = n if d.args[0] >= 0 else b
                elif s is base.args[-1]:
                    s_hi = b
                else:
                    break
            out.append(seg(s, s_lo, s_hi))
            if s_hi is not n:
                return cat(*out)
            pos = end
            if pos is hi:
                return cat(*out)
        else:
            return cat(*out)
    return mk('slice', base, lo, hi, sort='bytes')


def cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            items = p.args
        else:
            items = (p,)
        for s in items:
            if s.op == 'c' and len(s.args[0]) == 0:
                continue
            if s.op == 'enc' and s.args[0] == 1 and s.args[2].op == 'byte':
                b, i = s.args[2].args
                s = seg(b, i, add(i, C(1)))
            if out:
                q = out[-1]
                if q.op == 'c' and s.op == 'c':
                    out[-1] = C(q.args[0] + s.args[0])
                    continue
                qb, ql, qh = q.args if q.op == 'slice' else (q, ZERO, None)
                if s.op == 'slice' and q.op == 'slice' and qb is s.args[0] and qh is s.args[1]:
                    out[-1] = seg(qb, ql, s.args[2])
                    continue
            out.append(s)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('cat', *out, sort='bytes')


def segments(t):
    return t.args if t.op == 'cat' else (t,)


def rev(t):
    if t.op == 'c':
        return C(t.args[0][::-1])
    if t.op == 'rev':
        return t.args[0]
    if t.op == 'enc':
        n, endian, x = t.args
        if n == 1:
            return t
        return mk('enc', n, 'be' if endian == 'le' else 'le', x, sort='bytes')
    if t.op == 'cat':
        return cat(*[rev(s) for s in reversed(t.args)])
    n = length(t)
    if is_c(n) and n.args[0] == 1:
        return t
    return mk('rev', t, sort=t.sort)


def enc(n, endian, x):
    """x as n bytes, two's complement"""
    if is_c(x):
        v = int(x.args[0]) % (1 << (8 * n))
        return C(v.to_bytes(n, 'little' if endian == 'le' else 'big'))
    if n == 0:
        return EMPTY
    if n == 1:
        endian = 'le'
        if x.op == 'byte':
            b, i = x.args
            return seg(b, i, add(i, C(1)))
    # enc of a decoded value is the bytes themselves
    d, c = lin_of(x)
    if c == 0 and len(d) == n and all(t.op == 'byte' for t in d):
        by = {}
        for t, k in d.items():
            by[k] = t
        ks = [256 ** i for i in range(n)]
        if all(k in by for k in ks):
            order = [by[k] for k in ks]
            if endian == 'be':
                order.reverse()
            b0, i0 = order[0].args
            if all(t.args[0] is b0 and sub(t.args[1], i0) is C(j) for j, t in enumerate(order)):
                return seg(b0, i0, add(i0, C(n)))
    return mk('enc', n, endian, x, sort='bytes')


def byte(t, i):
    """t[i], 0 <= i < len(t) established"""
    if t.op == 'c' and is_c(i):
        return C(t.args[0][i.args[0]])
    if t.op == 'slice':
        return byte(t.args[0], add(t.args[1], i))
    if t.op == 'rev':
        return byte(t.args[0], sub(sub(length(t), C(1)), i))
    if t.op == 'enc' and is_c(i):
        n, endian, x = t.args
        k = i.args[0]
        if endian == 'be':
            k = n - 1 - k
        return mod(floordiv(x, 256 ** k), 256)
    if t.op == 'cat':
        pos = ZERO
        for s in t.args:
            n = length(s)
            r = sub(i, pos)
            if is_c(r) and is_c(n):
                if 0 <= r.args[0] < n.args[0]:
                    return byte(s, r)
            elif is_c(r) and r.args[0] >= 0 and s is t.args[-1]:
                return byte(s, r)
            else:
                d = sub(r, n)
                if is_c(d) and d.args[0] < 0 and is_c(r) and r.args[0] >= 0:
                    return byte(s, r)
                if not (is_c(d) and d.args[0] >= 0):
                    break
            pos = add(pos, n)
    return mk('byte', t, i, sort='int')


def dec(t, endian, signed):
    """integer value of a bytes term of constant length"""
    n = length(t)
    assert is_c(n)
    n = n.args[0]
    if t.op == 'c':
        return C(int.from_bytes(t.args[0], 'little' if endian == 'le' else 'big', signed=signed))
    r = ZERO
    top = None
    for i in range(n):
        j = i if endian == 'le' else n - 1 - i
        b = byte(t, C(j))
        r = add(r, scale(b, 256 ** i))
        top = b
    if signed and n:
        r = sub(r, scale(floordiv(top, 128), 256 ** n))
    return r


# ---------------------------------------------------------------- substitution
def subst(t, m, memo):
    """rewrite every occurrence of the keys of m"""
    if t.__class__ is not T:
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is not None:
        memo[t] = t     # guard against cycles
        r = subst(r, m, memo)
        memo[t] = r
        return r
    if t.op in ('c', 'sym') or not t.args:
        memo[t] = t
        return t
    if t.op == 'lin':
        r = C(t.args[0])
        for a, k in t.args[1]:
            r = add(r, scale(subst(a, m, memo), k))
        memo[t] = r
        return r
    na = tuple(subst(a, m, memo) for a in t.args)
    if na == t.args:
        r = t
    else:
        r = rebuild(t.op, na, t.sort)
    if r is not t:
        q = m.get(r)
        if q is not None and q is not r:
            memo[t] = r
            r = subst(q, m, memo)
    memo[t] = r
    return r


def rebuild(op, a, sort):
    if op == 'slice':
        try:
            return seg(*a)
        except Exception:
            return mk(op, *a, sort=sort)
    if op == 'cat':
        return cat(*a)
    if op == 'enc':
        return enc(*a)
    if op == 'byte':
        return byte(*a)
    if op == 'len':
        return length(a[0]) if a[0].__class__ is T and (a[0].sort in ('bytes', 'str') or a[0].op in ('c', 'cat', 'slice')) else mk(op, *a, sort=sort)
    if op == 'rev':
        return rev(*a)
    if op == '//' and isinstance(a[1], int):
        return floordiv(a[0], a[1])
    if op == '*':
        return mul(*a)
    if op == 'xor1':
        return xor1(*a)
    if op == 'and1':
        return and1(*a)
    if op == 'b01' and is_c(a[0]):
        return C(bool(a[0].args[0]))
    if op in ('codeat', 'indexof', 'text'):
        from . import text
        return text.text(a) if op == 'text' else getattr(text, op)(a[0].args[0], a[1])
    if op == 'rep' and is_c(a[1]):
        return C(a[0].args[0] * max(0, a[1].args[0]))
    if op == 'eq' and len(a) == 2 and a[0].__class__ is T and a[1].__class__ is T and a[0].id > a[1].id:
        a = (a[1], a[0])
    return mk(op, *a, sort=sort)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if t.__class__ is not T:
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return getattr(t, 'qualname', None) or str(t)
    if depth > 8:
        return '...'
    d = depth + 1
    if t.op == 'c':
        return repr(t.args[0])
    if t.op == 'sym':
        return str(t.args[0])
    if t.op == 'lin':
        out = []
        for a, k in t.args[1]:
            out.append(('%s' % show(a, d)) if k == 1 else '%d*%s' % (k, show(a, d)))
        if t.args[0]:
            out.append(str(t.args[0]))
        return '(' + ' + '.join(out) + ')'
    if t.op == 'attr':
        return '%s.%s' % (show(t.args[0], d), t.args[1])
    if t.op == 'elem':
        return '%s[%s]' % (show(t.args[0], d), show(t.args[1], d))
    if t.op == 'byte':
        return '%s[%s]' % (show(t.args[0], d), show(t.args[1], d))
    if t.op == 'slice':
        return '%s[%s:%s]' % tuple(show(a, d) for a in t.args)
    if t.op == '//':
        return '(%s//%s)' % (show(t.args[0], d), show(t.args[1], d))
    if t.op == 'call':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
    if t.op == 'meth':
        return '%s.%s(%s)' % (show(t.args[1], d), t.args[0], ', '.join(show(a, d) for a in t.args[2:]))
    if t.op == 'cat':
        return ' || '.join(show(a, d) for a in t.args)
    return '%s(%s)' % (t.op, ', '.join(show(a, d) for a in t.args))
