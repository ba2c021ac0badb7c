"""What the analysis knows about Python's builtins and the standard library.

Each model states the effect of a library operation on value numbers.  An
operation without a model is an uninterpreted function of its arguments.
"""
import ast
import builtins as _b
import hashlib as _hashlib
import struct as _struct
import uuid as _uuid

from . import text
from .terms import *
from .objects import *

MAXSEQ = 5000


def fnB(name, fn):
    return Builtin(name, fn)


def _none(run, a, k):
    return NONE


# ------------------------------------------------------------------ helpers
def need_bytes(run, v):
    """bytes value number of a bytes-like argument, or TypeError"""
    v = run.unwrap(v)
    b = run.bytes_of(v)
    if b is None:
        run.throw('TypeError', 'a bytes-like object is required')
    if b.sort is None:
        return b
    return b


def opt(a, k, i, name, default):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def pybool(x):
    return TRUE if x else FALSE


def const_args(run, args):
    out = []
    for a in args:
        a = run.unwrap(a)
        if a.__class__ is T:
            a = run.facts.norm(a)
            if a.op == 'c':
                out.append(a.args[0])
                continue
        if a.__class__ is Tup:
            sub = const_args(run, a.items)
            if sub is None:
                return None
            out.append(tuple(sub))
            continue
        return None
    return out


def fold(run, fn, args):
    """apply a host builtin to constants"""
    try:
        r = fn(*args)
    except (TypeError, ValueError, IndexError, KeyError, OverflowError, ZeroDivisionError, AttributeError,
            UnicodeDecodeError, UnicodeEncodeError, LookupError) as e:
        run.throw(type(e).__name__, str(e))
    return lift(run, r)


def lift(run, r):
    if isinstance(r, (int, str, bytes, float, bool, type(None))):
        return C(r)
    if isinstance(r, tuple):
        return Tup([lift(run, x) for x in r])
    if isinstance(r, list):
        return run.mklist([lift(run, x) for x in r])
    raise Undecided('constant of type %s' % type(r).__name__)


# ------------------------------------------------------------------ struct
_codes = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
          'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False), '?': (1, False), 'c': (1, None)}


def parse_fmt(run, fmt):
    fmt = run.unwrap(fmt)
    if not is_c(fmt):
        raise Undecided('symbolic struct format')
    s = fmt.args[0]
    if isinstance(s, bytes):
        s = s.decode('ascii')
    if s and s[0] in '<>!=@':
        endian = 'le' if s[0] in '<=@' else 'be'
        s = s[1:]
    else:
        endian = 'le'
    out = []
    i = 0
    while i < len(s):
        n = ''
        while i < len(s) and s[i].isdigit():
            n += s[i]
            i += 1
        c = s[i]
        i += 1
        if c.isspace():
            continue
        if c == 's':
            out.append(('s', int(n or '1'), None))
        elif c == 'x':
            out.append(('x', int(n or '1'), None))
        elif c in _codes:
            for _ in range(int(n or '1')):
                out.append((c, _codes[c][0], _codes[c][1]))
        else:
            raise Undecided('struct code %s' % c)
    return endian, out


def struct_error(run):
    run.throw(run.prog.exc_by_name('struct.error'), 'struct')


def struct_pack(run, a, k):
    endian, items = parse_fmt(run, a[0])
    vals = list(a[1:])
    if len(vals) != sum(1 for x in items if x[0] != 'x'):
        struct_error(run)
    out = []
    for c, n, signed in items:
        if c == 'x':
            out.append(C(b'\0' * n))
            continue
        v = run.unwrap(vals.pop(0))
        if c == 's':
            b = run.bytes_of(v)
            if b is None:
                struct_error(run)
            ln = run.facts.norm(length(b))
            if is_c(ln):
                m = ln.args[0]
                if m >= n:
                    out.append(seg(b, ZERO, C(n)))
                else:
                    out.append(cat(b, C(b'\0' * (n - m))))
                continue
            if run.d_ge(sub(ln, C(n))):
                out.append(seg(run.facts.norm(b), ZERO, C(n)))
            else:
                pad = run.facts.norm(sub(C(n), ln))
                out.append(cat(b, C(b'\0' * pad.args[0]) if is_c(pad) else mk('rep', C(b'\0'), pad, sort='bytes')))
            continue
        if c == 'c':
            b = run.bytes_of(v)
            if b is None or not run.d_eq0(sub(length(b), C(1))):
                struct_error(run)
            out.append(b)
            continue
        if v.__class__ is not T or v.sort in ('bytes', 'str', 'none') or isinstance(v.sort, tuple):
            struct_error(run)
        v = run.facts.norm(v)
        if c == '?':
            out.append(C(b'\1') if run.truth(v) else C(b'\0'))
            continue
        if is_c(v) and isinstance(v.args[0], float):
            struct_error(run)
        lo = -(1 << (8 * n - 1)) if signed else 0
        hi = (1 << (8 * n - 1)) - 1 if signed else (1 << (8 * n)) - 1
        if not run.d_ge(sub(v, C(lo))) or not run.d_ge(sub(C(hi), v)):
            struct_error(run)
        out.append(enc(n, endian, run.facts.norm(v)))
    return cat(*out)


def struct_calcsize(run, a, k):
    endian, items = parse_fmt(run, a[0])
    return C(sum(n for _, n, _ in items))


def struct_unpack(run, a, k):
    endian, items = parse_fmt(run, a[0])
    total = sum(n for _, n, _ in items)
    b = need_bytes(run, a[1])
    if not run.d_eq0(sub(length(b), C(total))):
        struct_error(run)
    return _unpack_at(run, run.facts.norm(b), ZERO, endian, items)


def _unpack_at(run, b, pos, endian, items):
    out = []
    for c, n, signed in items:
        s = run.part(b, pos, add(pos, C(n))) if b.op in ('cat', 'slice') else seg(b, pos, add(pos, C(n)))
        pos = run.facts.norm(add(pos, C(n)))
        if c == 'x':
            continue
        if c in 'sc':
            out.append(s)
        elif c == '?':
            out.append(pybool(not run.d_eq0(byte(s, ZERO))))
        else:
            out.append(run.facts.norm(decode_int(s, n, endian, signed)))
    return Tup(out)


def decode_int(s, n, endian, signed):
    if s.op == 'slice' or is_c(length(s)):
        return dec_fixed(s, n, endian, signed)
    return dec_fixed(s, n, endian, signed)


def dec_fixed(s, n, endian, signed):
    """like terms.dec for a segment known to be n bytes long"""
    if s.op == 'c':
        return C(int.from_bytes(s.args[0], 'little' if endian == 'le' else 'big', signed=bool(signed)))
    if s.op == 'enc' and s.args[0] == n and s.args[1] == endian and False:
        return s.args[2]
    r = ZERO
    top = None
    for i in range(n):
        j = i if endian == 'le' else n - 1 - i
        bt = byte(s, C(j))
        r = add(r, scale(bt, 256 ** i))
        top = bt
    if signed and n:
        r = sub(r, scale(floordiv(top, 128), 256 ** n))
    return r


def struct_unpack_from(run, a, k):
    endian, items = parse_fmt(run, a[0])
    total = sum(n for _, n, _ in items)
    b = need_bytes(run, a[1])
    off = run.int_of(opt(a, k, 2, 'offset', ZERO))
    if not run.d_ge(sub(sub(length(b), off), C(total))):
        struct_error(run)
    return _unpack_at(run, run.facts.norm(b), off, endian, items)


def struct_struct(run, a, k):
    fmt = a[0]
    ns = {'pack': lambda r, x, kk: struct_pack(r, [fmt] + list(x), kk),
          'unpack': lambda r, x, kk: struct_unpack(r, [fmt] + list(x), kk)}
    b = Builtin('Struct', lambda r, x, kk: r.throw('TypeError', 'not callable'))
    b.attrs = {n: Builtin(n, f) for n, f in ns.items()}
    b.attrs['size'] = struct_calcsize(run, [fmt], {})
    return b


# ------------------------------------------------------------------ hashes
DIGESTS = {}        # constants known to be digests, and of what
DIGEST = {'sha256': 32, 'ripemd160': 20, 'sha1': 20, 'md5': 16, 'sha512': 64}


def hash_term(alg, data):
    if alg.__class__ is tuple:
        return mk('hmac', alg[1], alg[2], data, sort='bytes')
    if data.op == 'c' and alg in ('sha256', 'sha1', 'md5', 'sha512'):
        r = C(_hashlib.new(alg, data.args[0]).digest())
        DIGESTS[r] = (alg, data)
        return r
    return mk('hash', alg, data, sort='bytes')


def mk_hasher(alg):
    def f(run, a, k):
        d = need_bytes(run, a[0]) if a else EMPTY
        return run.alloc(HSH(alg, d), 'hasher')
    return Builtin('hashlib.' + alg, f)


def hashlib_new(run, a, k):
    alg = run.unwrap(a[0])
    if not is_c(alg):
        raise Undecided('symbolic hash name')
    d = need_bytes(run, a[1]) if len(a) > 1 else EMPTY
    n = alg.args[0].lower()
    if n not in DIGEST:
        return mk('call', 'hashlib.new', alg, d)
    return run.alloc(HSH(n, d), 'hasher')


def hmac_new(run, a, k):
    key = need_bytes(run, a[0])
    msg = opt(a, k, 1, 'msg', NONE)
    dm = opt(a, k, 2, 'digestmod', NONE)
    if isinstance(dm, Builtin):
        alg = dm.name.split('.')[-1]
    elif is_c(dm) and isinstance(dm.args[0], str):
        alg = dm.args[0]
    else:
        raise Undecided('hmac digest')
    d = EMPTY if (is_c(msg) and msg.args[0] is None) else need_bytes(run, msg)
    return run.alloc(HSH(('hmac', alg, key), d), 'hasher')


def hasher_method(run, v, name):
    o = run.get(v)
    if name == 'update':
        def f(run, a, k):
            h = run.mut(v)
            h.data = cat(h.data, need_bytes(run, a[0]))
            return NONE
        return Builtin(name, f)
    if name == 'digest':
        return Builtin(name, lambda run, a, k: hash_term(run.get(v).alg, run.facts.norm(run.get(v).data)))
    if name == 'hexdigest':
        return Builtin(name, lambda run, a, k: mk_hex(hash_term(run.get(v).alg, run.facts.norm(run.get(v).data))))
    if name == 'copy':
        return Builtin(name, lambda run, a, k: run.alloc(run.get(v).copy(), 'hasher'))
    if name == 'digest_size':
        return C(DIGEST[o.alg if isinstance(o.alg, str) else o.alg[1]])
    if name == 'name':
        return C(o.alg if isinstance(o.alg, str) else 'hmac-' + o.alg[1])
    return None


# ------------------------------------------------------------------ hex
def mk_hex(b, sort='str'):
    if b.op == 'c':
        return C(b.args[0].hex() if sort == 'str' else b.args[0].hex().encode())
    if b.op == 'unhex' and b.args[0].sort == sort and False:
        return b.args[0]
    return mk('hex' if sort == 'str' else 'hexb', b, sort=sort)


def unhex(run, v, exc):
    v = run.unwrap(v)
    if v.__class__ is not T:
        run.throw('TypeError', 'hex')
    v = run.facts.norm(v)
    if v.op == 'c':
        if not isinstance(v.args[0], (str, bytes)):
            run.throw('TypeError', 'hex')
        import binascii
        try:
            return C(binascii.unhexlify(v.args[0]))
        except ValueError:
            run.throw(exc, 'non-hex')
    if v.op in ('hex', 'hexb'):
        return v.args[0]
    if v.op == 'decode' and v.args[0].op == 'hexb':
        return v.args[0].args[0]
    if v.op == 'encode' and v.args[0].op == 'hex':
        return v.args[0].args[0]
    if v.op == 'encode':
        v = v.args[0]
    if v.op == 'text':
        r = text.unhex(run, list(v.args))
        if r is not None and r is not False:
            return r
    t = mk('unhex', v, sort='bytes')
    cls = run.exc_class(exc) if not isinstance(exc, ClassObj) else exc
    q = run.facts.query_lit(mk('raises', t, cls))
    if q is True:
        run.throw_opaque(cls, t)
    if q is None and (run.cfg.get('unhex_raises') or any(run._handles(h, cls) for h in run.trys)):
        if run.d_lit(mk('raises', t, cls)):
            run.throw_opaque(cls, t)
    return t


def bin_error(run):
    return run.prog.exc_by_name('binascii.Error')


def hexlify(run, a, k):
    return mk_hex(need_bytes(run, a[0]), 'bytes')


def unhexlify(run, a, k):
    return unhex(run, a[0], bin_error(run))


# ------------------------------------------------------------------ streams
def sym_bio(run, t):
    t = run.facts.norm(t)
    r = run.symrefs.get(t)
    if r is None:
        b = BIO(mk('data', t, sort='bytes'), ZERO, t)
        r = run.alloc(b, 'bio')
        run.symrefs[t] = r
    return r


def bio_new(run, a, k):
    d = EMPTY
    x = opt(a, k, 0, 'initial_bytes', NONE)
    if not (is_c(x) and x.args[0] is None):
        d = need_bytes(run, x)
    return run.alloc(BIO(d, ZERO), 'bio')


def bio_method(run, v, name):
    def read(run, a, k):
        o = run.mut(v)
        n = opt(a, k, 0, 'size', NONE)
        n = run.unwrap(n)
        data = run.facts.norm(o.data)
        pos = run.facts.norm(o.pos)
        rem = sub(length(data), pos)
        if n.__class__ is not T or n.sort in ('bytes', 'str') or isinstance(n.sort, tuple):
            run.throw('TypeError', 'read size')
        if is_c(n) and n.args[0] is None:
            whole = True
        else:
            n = run.facts.norm(n)
            if run.d_ge(n):
                whole = not run.d_ge(sub(rem, n))
            else:
                whole = True
        data = run.facts.norm(o.data)
        pos = run.facts.norm(o.pos)
        end = length(data) if whole else run.facts.norm(add(pos, n))
        if whole and not run.d_ge(sub(end, pos)):
            end = pos
        r = run.facts.norm(run.part(data, pos, end))
        o.pos = end
        if o.sym is not None:
            run.effects['pos', o.sym] = end
        return r

    def write(run, a, k):
        b = need_bytes(run, a[0])
        o = run.mut(v)
        if o.sym is not None:
            o.out = cat(o.out if o.out is not None else EMPTY, b)
            run.effects['out', o.sym] = o.out
            return run.facts.norm(length(b))
        if run.facts.norm(sub(o.pos, length(o.data))) is not ZERO:
            raise Undecided('overwriting a byte stream')
        o.data = cat(o.data, b)
        o.pos = length(o.data)
        return run.facts.norm(length(b))

    def getvalue(run, a, k):
        return run.facts.norm(run.get(v).data)

    def tell(run, a, k):
        return run.facts.norm(run.get(v).pos)

    def seek(run, a, k):
        o = run.mut(v)
        w = opt(a, k, 1, 'whence', ZERO)
        if not is_c(w) or w.args[0] not in (0, 1, 2):
            raise Undecided('seek')
        base = [ZERO, o.pos, length(o.data)][w.args[0]]
        o.pos = run.facts.norm(add(base, run.int_of(a[0])))
        return o.pos
    f = {'read': read, 'write': write, 'getvalue': getvalue, 'tell': tell, 'seek': seek, 'close': _none,
         'flush': _none, 'getbuffer': getvalue,
         '__enter__': lambda run, a, k: v, '__exit__': _none}.get(name)
    return Builtin(name, f) if f else None


# ------------------------------------------------------------------ bytes and str
def bytes_startswith(run, v, p):
    p = run.unwrap(p)
    if p.__class__ is Tup:
        return any(bytes_startswith(run, v, x) for x in p.items)
    p = run.bytes_of(p)
    n = length(p)
    if not run.d_ge(sub(length(v), n)):
        return False
    return run.equal_bytes(run.part(run.facts.norm(v), ZERO, run.facts.norm(n)), p)


def bytes_endswith(run, v, p):
    p = run.bytes_of(p)
    n = length(p)
    if not run.d_ge(sub(length(v), n)):
        return False
    ln = length(v)
    return run.equal_bytes(run.part(run.facts.norm(v), run.facts.norm(sub(ln, n)), run.facts.norm(ln)), p)


def bytes_join(run, sep, it):
    parts = list(run.iterate(it))
    out = []
    for i, p in enumerate(parts):
        b = run.bytes_of(p)
        if b is None:
            run.throw('TypeError', 'join')
        if i:
            out.append(sep)
        out.append(b)
    return cat(*out)


def pad_bytes(run, v, n, fill, left):
    n = run.int_of(n)
    fill = run.bytes_of(fill)
    if not run.d_ge(sub(sub(n, length(v)), C(1))):
        return v
    m = run.facts.norm(sub(n, length(v)))
    p = C(fill.args[0] * m.args[0]) if is_c(m) else mk('rep', fill, m, sort='bytes')
    v = run.facts.norm(v)
    return cat(v, p) if left else cat(p, v)


def bytes_strip(run, v, c, name):
    """v without the bytes c at its ends"""
    lo, hi = ZERO, run.facts.norm(length(v))
    g = run.loop_guard(None)
    for end in ('lstrip', 'rstrip'):
        if name not in (end, 'strip'):
            continue
        while run.d_ge(sub(sub(hi, lo), C(1))):
            run.loop_tick(g)
            at = lo if end == 'lstrip' else sub(hi, C(1))
            if not run.d_eq0(sub(run.byte_at(run.facts.norm(v), run.facts.norm(at)), C(c))):
                break
            if end == 'lstrip':
                lo = run.facts.norm(add(lo, C(1)))
            else:
                hi = run.facts.norm(sub(hi, C(1)))
    return run.part(run.facts.norm(v), lo, hi)


_bytes_pure = {'strip': 'bytes', 'rstrip': 'bytes', 'lstrip': 'bytes', 'replace': 'bytes', 'lower': 'bytes',
               'upper': 'bytes', 'translate': 'bytes', 'split': ('list', 'bytes'), 'find': 'int', 'rfind': 'int',
               'count': 'uint', 'index': 'int', 'isdigit': 'bool', 'partition': ('tuple', 'bytes'),
               'rsplit': ('list', 'bytes'), 'zfill': 'bytes'}


def bytes_method(run, v, name):
    def f_hex(run, a, k):
        return mk_hex(run.facts.norm(v))

    def f_decode(run, a, k):
        if v.op == 'c':
            c = const_args(run, a)
            if c is not None and not k:
                return fold(run, v.args[0].decode, c)
        if v.op == 'hexb':
            return mk_hex(v.args[0])
        if v.op == 'encode':
            return v.args[0]
        t = mk('decode', v, sort='str')
        cls = run.exc_class('UnicodeDecodeError')
        q = run.facts.query_lit(mk('raises', t, cls))
        if q is True:
            run.throw_opaque(cls, t)
        if q is None and any(run._handles(h, cls) for h in run.trys):
            if run.d_lit(mk('raises', t, cls)):
                run.throw_opaque(cls, t)
        return t
    f = {'hex': f_hex, 'decode': f_decode,
         'startswith': lambda run, a, k: pybool(bytes_startswith(run, v, a[0])),
         'endswith': lambda run, a, k: pybool(bytes_endswith(run, v, a[0])),
         'join': lambda run, a, k: bytes_join(run, v, a[0]),
         'ljust': lambda run, a, k: pad_bytes(run, v, a[0], a[1] if len(a) > 1 else C(b' '), True),
         'rjust': lambda run, a, k: pad_bytes(run, v, a[0], a[1] if len(a) > 1 else C(b' '), False),
         '__getitem__': lambda run, a, k: run.getitem(v, a[0]),
         '__len__': lambda run, a, k: run.len_(v),
         '__add__': lambda run, a, k: run.binop('Add', v, a[0]),
         '__hash__': lambda run, a, k: mk('hashof', v, sort='int'),
         '__eq__': lambda run, a, k: eq_or_ni(run, v, a[0], bytes),
         '__ne__': lambda run, a, k: pybool(not run.equal_raw(v, a[0])),
         '__iter__': lambda run, a, k: run.mkiter(run.iterate(v)),
         '__contains__': lambda run, a, k: pybool(run.contains(v, a[0])),
         '__repr__': lambda run, a, k: mk('repr', v, sort='str'),
         '__str__': lambda run, a, k: mk('str', v, sort='str')}.get(name)
    if f is not None:
        return Builtin('bytes.' + name, f)
    if name in _bytes_pure:
        def g(run, a, k, v=v):
            v = run.facts.norm(v)
            if v.op == 'c' and not k:
                c = const_args(run, a)
                if c is not None:
                    return fold(run, getattr(v.args[0], name), c)
            if name in ('lstrip', 'rstrip', 'strip') and len(a) == 1 and not k:
                x = run.unwrap(a[0])
                if is_c(x) and isinstance(x.args[0], bytes) and len(x.args[0]) == 1:
                    return bytes_strip(run, v, x.args[0][0], name)
            if name == 'partition' and len(a) == 1 and not k:
                # the first piece is the one split() gives
                p = [run.reify(x) for x in a]
                r = mk('bmeth', name, v, *p, sort=_bytes_pure[name])
                first = run.getitem(mk('bmeth', 'split', v, *p, C(1), sort=_bytes_pure['split']), ZERO)
                return Tup([first, mk('elem', r, C(1), sort='bytes'), mk('elem', r, C(2), sort='bytes')])
            if name == 'index' or k:
                return run.opaque_call('bytes.' + name, [v] + list(a), k, sort=_bytes_pure[name])
            return mk('bmeth', name, v, *[run.reify(x) for x in a], sort=_bytes_pure[name])
        return Builtin('bytes.' + name, g)
    return None


def eq_or_ni(run, v, o, host):
    ty = run.type_of(o)
    if ty is not None and not ty.issub(run.B(host)):
        return C_NI
    return pybool(run.equal_raw(v, o))


C_NI = mk('c', NotImplemented)

_str_sorts = {'split': ('list', 'str'), 'rsplit': ('list', 'str'), 'startswith': 'bool', 'endswith': 'bool',
              'isdigit': 'bool', 'find': 'int', 'index': 'int', 'count': 'uint', 'partition': ('tuple', 'str'),
              'splitlines': ('list', 'str')}


def str_method(run, v, name):
    if name == 'encode':
        def f(run, a, k):
            if v.op == 'c':
                c = const_args(run, a)
                if c is not None:
                    return fold(run, v.args[0].encode, c)
            if v.op == 'hex':
                return mk_hex(v.args[0], 'bytes')
            if v.op == 'decode':
                return v.args[0]
            return mk('encode', v, sort='bytes')
        return Builtin(name, f)
    if name == 'join':
        def f(run, a, k):
            its = [run.unwrap(x) for x in run.iterate(a[0])]
            if v.op == 'c' and all(is_c(x) for x in its):
                return fold(run, v.args[0].join, [[x.args[0] for x in its]])
            if len(its) == 1:
                return its[0]
            if run.cfg.get('texts'):
                out, sep = [], text.codes(run, v)
                for i, x in enumerate(its):
                    c = text.codes(run, x)
                    if c is None or sep is None:
                        break
                    out += (sep if i else []) + c
                else:
                    return text.text(out)
            return mk('strjoin', v, *[run.reify(x) for x in its], sort='str')
        return Builtin(name, f)
    if name == 'format':
        def f(run, a, k):
            if v.op == 'c' and not k:
                c = const_args(run, a)
                if c is not None:
                    return fold(run, v.args[0].format, c)
            return mk('strformat', v, *([run.reify(x) for x in a] + [mk('kw', run.kwreify(k))]), sort='str')
        return Builtin(name, f)
    if name == '__len__':
        return Builtin(name, lambda run, a, k: run.len_(v))
    if name == '__eq__':
        return Builtin(name, lambda run, a, k: eq_or_ni(run, v, a[0], str))
    if name == '__hash__':
        return Builtin(name, lambda run, a, k: mk('hashof', v, sort='int'))
    if name == '__iter__':
        return Builtin(name, lambda run, a, k: run.mkiter(run.iterate(v)))
    if hasattr(str, name):
        def g(run, a, k):
            if v.op == 'c' and not k:
                c = const_args(run, a)
                if c is not None:
                    return fold(run, getattr(v.args[0], name), c)
            if len(a) == 1 and not k:
                x = run.unwrap(a[0])
                if name in ('index', 'find') and run.is_str(x):
                    r = text.find(run, v, run.facts.norm(x), name == 'index')
                    if r is not None:
                        return r
                if v.op == 'text' and name in ('startswith', 'endswith') and is_c(x) and isinstance(x.args[0], str):
                    n = len(x.args[0])
                    return pybool(n <= len(v.args) and (not n or run.equal(text.text(v.args[:n] if name == 'startswith' else v.args[-n:]), x)))
                if v.op == 'text' and name in ('lstrip', 'rstrip', 'strip') and is_c(x) and isinstance(x.args[0], str):
                    cs = list(v.args)
                    while cs and name != 'rstrip' and text.among(run, run.facts.norm(cs[0]), x.args[0]):
                        cs.pop(0)
                    while cs and name != 'lstrip' and text.among(run, run.facts.norm(cs[-1]), x.args[0]):
                        cs.pop()
                    return text.text(cs)
            if v.op == 'text' and name == 'zfill' and is_c(run.unwrap(a[0])):
                return text.text([C(48)] * (run.unwrap(a[0]).args[0] - len(v.args)) + list(v.args))
            if v.op == 'text' and name in ('rjust', 'ljust') and all(is_c(run.unwrap(x)) for x in a):
                w = [C(ord(a[1].args[0]) if len(a) > 1 else 32)] * (run.unwrap(a[0]).args[0] - len(v.args))
                return text.text(w + list(v.args) if name == 'rjust' else list(v.args) + w)
            return mk('smeth', name, v, *[run.reify(x) for x in a], sort=_str_sorts.get(name, 'str'))
        return Builtin('str.' + name, g)
    return None


# ------------------------------------------------------------------ numbers
def int_to_bytes(run, v, a, k):
    n = run.int_of(opt(a, k, 0, 'length', C(1)))
    order = opt(a, k, 1, 'byteorder', C('big'))
    signed = opt(a, k, 2, 'signed', FALSE)
    if not is_c(order):
        raise Undecided('byte order')
    endian = 'le' if order.args[0] == 'little' else 'be'
    v = run.facts.norm(v)
    if not is_c(n):
        n = byte_count(run, n)
    if not is_c(n):
        return mk('encn', n, endian, v, sort='bytes')
    n = n.args[0]
    sg = run.truth(signed)
    lo = -(1 << (8 * n - 1)) if sg else 0
    hi = (1 << (8 * n - 1)) - 1 if sg else (1 << (8 * n)) - 1
    if not run.d_ge(sub(v, C(lo))) or not run.d_ge(sub(C(hi), v)):
        run.throw('OverflowError', 'int too big to convert')
    return enc(n, endian, run.facts.norm(v))


def byte_count(run, n):
    """a length computed from how many bits a bounded number has: decided by the number of its bytes"""
    found, todo = set(), [n]
    while todo:
        t = todo.pop()
        if isinstance(t, T) and t.op == 'bit_length':
            found.add(t)
        else:
            todo.extend(t.args if isinstance(t, T) else t if isinstance(t, tuple) else ())
    if len(found) != 1 or run.cfg.get('no_pick'):
        return n
    a, = found
    x = a.args[0]
    if not run.facts.entails_ge(x):
        return n
    for hi in (4, 8, 20, 32, 33, 64):
        if run.facts.entails_ge(sub(C((1 << 8 * hi) - 1), x)):
            break
    else:
        return n
    ends = [[run.facts.norm(subst(n, {a: C(b)}, {})) for b in ((8 * k - 7, 8 * k) if k else (0, 0))] for k in range(hi + 1)]
    if not all(p is q and is_c(p) for p, q in ends):
        return n
    lo = 0
    while lo < hi:
        m = (lo + hi) // 2
        if run.d_ge(sub(x, C(1 << 8 * m))):
            lo = m + 1
        else:
            hi = m
    return ends[lo][0]


def int_from_bytes(run, a, k):
    b = run.unwrap(a[0])
    bb = run.bytes_of(b)
    if bb is None:
        bb = bytes_from_iter(run, list(run.iterate(b)))
    order = opt(a, k, 1, 'byteorder', C('big'))
    signed = opt(a, k, 2, 'signed', FALSE)
    endian = 'le' if order.args[0] == 'little' else 'be'
    ln = run.facts.norm(length(bb))
    sg = run.truth(signed)
    if is_c(ln):
        return run.facts.norm(dec_fixed(bb, ln.args[0], endian, sg))
    return mk('decn', bb, endian, pybool(sg), sort='int' if sg else 'uint')


def bit_length(run, v):
    v = run.facts.norm(v)
    if is_c(v):
        return C(int(v.args[0]).bit_length())
    if not run.cfg.get('no_pick'):
        for limit in (8, 16, 24, 33, 40, 48, 64):
            top = C((1 << limit) - 1)
            if run.facts.entails_ge(sub(top, v)) and run.facts.entails_ge(add(top, v)):
                break
        else:
            return mk('bit_length', v, sort='uint')
        # the magnitude is in [2^(lo - 1), 2^hi)
        lo, hi = 0, limit
        while lo < hi:
            m = (lo + hi) // 2
            if run.d_ge(sub(v, C(1 << m))) or run.d_ge(sub(C(-(1 << m)), v)):
                lo = m + 1
            else:
                hi = m
        return C(lo)
    return mk('bit_length', v, sort='uint')


def int_method(run, v, name):
    if name == 'to_bytes':
        return Builtin(name, lambda run, a, k: int_to_bytes(run, v, a, k))
    if name == 'bit_length':
        return Builtin(name, lambda run, a, k: bit_length(run, v))
    if name in ('real', 'numerator'):
        return v
    ops = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__mod__': 'Mod', '__floordiv__': 'FloorDiv',
           '__lshift__': 'LShift', '__rshift__': 'RShift', '__and__': 'BitAnd', '__or__': 'BitOr', '__xor__': 'BitXor'}
    if name in ops:
        return Builtin(name, lambda run, a, k: run.binop(ops[name], v, a[0]))
    cm = {'__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE', '__eq__': 'Eq', '__ne__': 'NotEq'}
    if name in cm:
        return Builtin(name, lambda run, a, k: pybool(run.compare(cm[name], v, a[0])))
    if name in ('__int__', '__index__', '__pos__'):
        return Builtin(name, lambda run, a, k: v)
    if name == '__neg__':
        return Builtin(name, lambda run, a, k: scale(v, -1))
    if name == '__hash__':
        return Builtin(name, lambda run, a, k: mk('hashof', v, sort='int'))
    if name == '__repr__':
        return Builtin(name, lambda run, a, k: mk('repr', v, sort='str'))
    if name == '__str__':
        return Builtin(name, lambda run, a, k: mk('str', v, sort='str'))
    if name == 'is_integer':
        return Builtin(name, lambda run, a, k: TRUE)
    if hasattr(int, name) or hasattr(float, name):
        return Builtin(name, lambda run, a, k: mk('imeth', name, v, *[run.reify(x) for x in a]))
    return None


def to_int(run, a, k):
    if not a:
        return ZERO
    v = run.unwrap(a[0])
    base = opt(a, k, 1, 'base', None)
    m = run.user_method(v, '__int__') or run.user_method(v, '__index__')
    if m is not None:
        return run.call(m, [], {})
    if v.__class__ is not T:
        run.throw('TypeError', 'int()')
    v = run.facts.norm(v)
    if v.op == 'c':
        c = [v.args[0]]
        if base is not None:
            c.append(run.int_of(base).args[0])
        return fold(run, int, c)
    if run.is_int(v) and v.sort != 'float':
        return v
    if v.sort == 'float':
        return mk('trunc', v, sort='int')
    if v.sort == 'none' or isinstance(v.sort, tuple):
        run.throw('TypeError', 'int()')
    if isinstance(v.sort, ClassObj) and v.sort.builtin_base() is None:
        run.throw('TypeError', 'int()')
    if v.sort == 'str' and (run.cfg.get('texts') or v.op == 'text'):
        cs = text.codes(run, v)
        b = run.int_of(base).args[0] if base is not None else 10
        if cs is not None:
            if b in (16, 0) and len(cs) > 2 and cs[0] is C(48) and cs[1] in (C(120), C(88)):
                cs, b = cs[2:], 16
            r = text.number(run, cs, b) if cs and b in (10, 16) else False
            if r is None:
                run.throw('ValueError', 'int()')
            if r is not False:
                return run.facts.norm(r)
    t = mk('int', v, run.reify(base) if base is not None else C(10), sort='int')
    cls = run.exc_class('ValueError')
    if v.sort in ('str', 'bytes', None):
        q = run.facts.query_lit(mk('raises', t, cls))
        if q is True:
            run.throw_opaque(cls, t)
        if q is None and any(run._handles(h, cls) for h in run.trys):
            if run.d_lit(mk('raises', t, cls)):
                run.throw_opaque(cls, t)
    return t


def bytes_from_iter(run, items):
    out = []
    for x in items:
        x = run.unwrap(x)
        if x.__class__ is not T or x.sort in ('bytes', 'str', 'none'):
            run.throw('TypeError', 'cannot be interpreted as an integer')
        x = run.facts.norm(x)
        if not run.d_ge(x) or not run.d_ge(sub(C(255), x)):
            run.throw('ValueError', 'bytes must be in range(0, 256)')
        out.append(enc(1, 'le', run.facts.norm(x)))
    return cat(*out)


def to_bytes(run, a, k):
    if not a:
        return EMPTY
    v = a[0]
    m = run.user_method(v, '__bytes__')
    if m is not None:
        return run.call(m, [], {})
    v = run.unwrap(v)
    if v.__class__ is T:
        v = run.facts.norm(v)
        if run.is_str(v):
            if len(a) < 2 and not k:
                run.throw('TypeError', 'string argument without an encoding')
            return str_method(run, v, 'encode').fn(run, list(a[1:]), k)
        if run.is_bytes(v):
            if isinstance(v.sort, ClassObj):
                return v
            return v
        if run.is_int(v):
            if is_c(v):
                if v.args[0] < 0:
                    run.throw('ValueError', 'negative count')
                return C(bytes(v.args[0])) if v.args[0] < 1 << 16 else mk('rep', C(b'\0'), v, sort='bytes')
            if not run.d_ge(v):
                run.throw('ValueError', 'negative count')
            return mk('rep', C(b'\0'), run.facts.norm(v), sort='bytes')
        if v.sort == 'none':
            run.throw('TypeError', 'cannot convert')
        if v.sort is None:
            return mk('bytesof', v, sort='bytes')
    if v.__class__ is Ref and v.kind == 'bytearray':
        return run.facts.norm(run.get(v).data)
    return bytes_from_iter(run, list(run.iterate(v)))


def to_str(run, a, k):
    if not a:
        return C('')
    v = a[0]
    m = run.user_method(v, '__str__') or run.user_method(v, '__repr__')
    if m is not None and not (run.unwrap(v) is not v and run.user_method(v, '__str__') is None
                              and run.is_str(run.unwrap(v))):
        return run.call(m, [], {})
    v = run.unwrap(v)
    if v.__class__ is T:
        v = run.facts.norm(v)
        if run.is_str(v):
            return v
        if v.op == 'c' and len(a) == 1:
            return C(str(v.args[0]))
        if run.is_bytes(v) and len(a) > 1:
            return bytes_method(run, v, 'decode').fn(run, list(a[1:]), k)
    return mk('str', run.reify(v), sort='str')


# ------------------------------------------------------------------ containers
def list_method(run, v, name):
    def append(run, a, k):
        run.force_lazy(v)
        run.lget(v, True).items.append(a[0])
        return NONE

    def extend(run, a, k):
        items = list(run.iterate(a[0]))
        run.force_lazy(v)
        run.lget(v, True).items.extend(items)
        return NONE

    def pop(run, a, k):
        i = a[0] if a else C(-1)
        p = list_posn(run, v, i)
        o = run.lget(v, True)
        return o.items.pop(p)

    def insert(run, a, k):
        i = run.int_of(a[0])
        o = run.get(v)
        if o.base is not None:
            if is_c(i) and i.args[0] < 0:
                n = -i.args[0]
                if not run.need_from_end(v, n):
                    run.force_list(v)
                    o = run.lget(v, True)
                    o.items.insert(i.args[0], a[1])
                    return NONE
                o = run.lget(v, True)
                o.items.insert(len(o.items) - n, a[1])
                return NONE
            d = run.facts.norm(sub(run.len_(v), i))
            if is_c(d) and d.args[0] >= 0:
                if run.need_from_end(v, d.args[0]):
                    o = run.lget(v, True)
                    o.items.insert(len(o.items) - d.args[0], a[1])
                    return NONE
            run.force_list(v)
        else:
            run.force_list(v)
        o = run.lget(v, True)
        if not is_c(i):
            n = len(o.items)
            if not run.d_ge(i):
                raise Undecided('negative insert position')
            for j in range(n):
                if run.d_eq0(sub(i, C(j))):
                    o.items.insert(j, a[1])
                    return NONE
            o.items.append(a[1])
            return NONE
        o.items.insert(i.args[0], a[1])
        return NONE

    def index(run, a, k):
        for i, x in enumerate(run.iterate(v)):
            if run.equal(x, a[0]):
                return C(i)
        run.throw('ValueError', 'not in list')

    def remove(run, a, k):
        run.force_list(v)
        for i, x in enumerate(list(run.get(v).items)):
            if run.equal(x, a[0]):
                del run.lget(v, True).items[i]
                return NONE
        run.throw('ValueError', 'not in list')

    def count(run, a, k):
        return C(sum(1 for x in run.iterate(v) if run.equal(x, a[0])))

    def reverse(run, a, k):
        run.force_list(v)
        run.lget(v, True).items.reverse()
        return NONE

    def clear(run, a, k):
        o = run.lget(v, True)
        o.items, o.base, o.lazy = [], None, False
        return NONE

    def copy(run, a, k):
        run.force_lazy(v)
        l = run.get(v).copy()
        l.dirty = True
        l.origin = l.base
        return run.alloc(l, 'list')

    def sort(run, a, k):
        run.force_list(v)
        items = py_sort(run, run.get(v).items, k)
        run.lget(v, True).items = items
        return NONE
    f = {'append': append, 'extend': extend, 'pop': pop, 'insert': insert, 'index': index, 'remove': remove,
         'count': count, 'reverse': reverse, 'clear': clear, 'copy': copy, 'sort': sort,
         '__len__': lambda run, a, k: run.len_(v),
         '__iter__': lambda run, a, k: run.mkiter(run.iterate(v)),
         '__getitem__': lambda run, a, k: run.getitem(v, a[0]),
         '__contains__': lambda run, a, k: pybool(run.contains(v, a[0])),
         '__setitem__': lambda run, a, k: (run.setitem(v, a[0], a[1]), NONE)[1],
         '__eq__': lambda run, a, k: eq_or_ni(run, v, a[0], list),
         }.get(name)
    return Builtin('list.' + name, f) if f else None


def list_posn(run, v, i):
    o = run.get(v)
    if o.base is None:
        run.force_list(v)
        if not run.get(v).items:
            run.throw('IndexError', 'pop from empty list')
    return run.list_pos(v, i)


def py_sort(run, items, k):
    key = k.get('key')
    revv = k.get('reverse')
    items = list(items)
    ks = [run.call(key, [x], {}) if key is not None and not (is_c(key) and key.args[0] is None) else x for x in items] \
        if key is not None else list(items)
    out = []
    rv = revv is not None and run.truth(revv)
    for x, kx in zip(items, ks):
        i = len(out)
        while i > 0:
            ky = out[i - 1][1]
            if rv:
                less = run.compare('Lt', ky, kx)
            else:
                less = run.compare('Lt', kx, ky)
            if not less:
                break
            i -= 1
        out.insert(i, (x, kx))
    return [x for x, _ in out]


def dict_method(run, v, name):
    def get(run, a, k):
        r = run.dict_get(v, a[0])
        from .interp import MISSING
        if r is MISSING:
            return a[1] if len(a) > 1 else k.get('default', NONE)
        return r

    def setdefault(run, a, k):
        from .interp import MISSING
        r = run.dict_get(v, a[0])
        if r is MISSING:
            d = a[1] if len(a) > 1 else NONE
            run.dict_set(v, a[0], d)
            return d
        return r

    def pop(run, a, k):
        from .interp import MISSING
        r = run.dict_get(v, a[0])
        if r is MISSING:
            if len(a) > 1:
                return a[1]
            run.throw('KeyError', 'key')
        run.dict_del(v, a[0])
        return r

    def update(run, a, k):
        for src in a:
            src = run.unwrap(src)
            if src.__class__ is Ref and isinstance(run.get(src), DCT):
                for kk, x in list(run.get(src).items):
                    run.dict_set(v, kk, x)
            else:
                for p in list(run.iterate(src)):
                    kk, x = list(run.iterate(p))
                    run.dict_set(v, kk, x)
        for kk, x in k.items():
            run.dict_set(v, C(kk), x)
        return NONE

    def clear(run, a, k):
        o = run.mut(v)
        o.items, o.index = [], {}
        return NONE
    f = {'get': get, 'setdefault': setdefault, 'pop': pop, 'update': update, 'clear': clear,
         'keys': lambda run, a, k: run.mklist([kk for kk, _ in run.get(v).items]),
         'values': lambda run, a, k: run.mklist([x for _, x in run.get(v).items]),
         'items': lambda run, a, k: run.mklist([Tup((kk, x)) for kk, x in run.get(v).items]),
         'copy': lambda run, a, k: run.alloc(run.get(v).copy(), 'dict'),
         '__len__': lambda run, a, k: run.len_(v),
         '__getitem__': lambda run, a, k: run.getitem(v, a[0]),
         '__setitem__': lambda run, a, k: (run.setitem(v, a[0], a[1]), NONE)[1],
         '__contains__': lambda run, a, k: pybool(run.contains(v, a[0])),
         '__iter__': lambda run, a, k: run.mkiter(run.iterate(v)),
         }.get(name)
    if name in ('iteritems', 'iterkeys', 'itervalues'):
        return None
    return Builtin('dict.' + name, f) if f else None


def set_method(run, v, name):
    def discard(run, a, k):
        if run.set_has(v, a[0]):
            o = run.mut(v)
            o.items = [x for x in o.items if not run.equal(x, a[0])]
            o.index = {run.hkey(x) for x in o.items}
        return NONE

    def remove(run, a, k):
        if not run.set_has(v, a[0]):
            run.throw('KeyError', 'set')
        return discard(run, a, k)

    def update(run, a, k):
        for s in a:
            for x in list(run.iterate(s)):
                run.set_add(v, x)
        return NONE

    def pop(run, a, k):
        o = run.mut(v)
        if not o.items:
            run.throw('KeyError', 'pop from an empty set')
        x = o.items.pop()
        o.index = {run.hkey(y) for y in o.items}
        return x

    def union(run, a, k):
        r = run.mkset(run.get(v).items)
        for s in a:
            for x in list(run.iterate(s)):
                run.set_add(r, x)
        return r

    def difference(run, a, k):
        items = list(run.get(v).items)
        others = [run.mkset(list(run.iterate(s))) for s in a]
        return run.mkset([x for x in items if not any(run.set_has(o, x) for o in others)])

    def intersection(run, a, k):
        items = list(run.get(v).items)
        others = [run.mkset(list(run.iterate(s))) for s in a]
        return run.mkset([x for x in items if all(run.set_has(o, x) for o in others)])
    f = {'add': lambda run, a, k: (run.set_add(v, a[0]), NONE)[1], 'discard': discard, 'remove': remove,
         'update': update, 'pop': pop, 'union': union, 'difference': difference, 'intersection': intersection,
         'copy': lambda run, a, k: run.alloc(run.get(v).copy(), 'set'),
         'issubset': lambda run, a, k: pybool(all(run.contains(a[0], x) for x in run.get(v).items)),
         'issuperset': lambda run, a, k: pybool(all(run.set_has(v, x) for x in run.iterate(a[0]))),
         '__len__': lambda run, a, k: run.len_(v),
         '__contains__': lambda run, a, k: pybool(run.contains(v, a[0])),
         '__iter__': lambda run, a, k: run.mkiter(run.iterate(v)),
         }.get(name)
    return Builtin('set.' + name, f) if f else None


def bytearray_method(run, v, name):
    def append(run, a, k):
        o = run.mut(v)
        o.data = cat(o.data, bytes_from_iter(run, [a[0]]))
        return NONE

    def extend(run, a, k):
        b = run.bytes_of(run.unwrap(a[0])) if not (a[0].__class__ is Ref and a[0].kind in ('list', 'iter')) else None
        if b is None:
            b = bytes_from_iter(run, list(run.iterate(a[0])))
        o = run.mut(v)
        o.data = cat(o.data, b)
        return NONE

    def reverse(run, a, k):
        o = run.mut(v)
        o.data = rev(run.facts.norm(o.data))
        return NONE

    def pop(run, a, k):
        i = run.int_of(a[0]) if a else C(-1)
        o = run.mut(v)
        n = run.facts.norm(length(o.data))
        p = run.index_pos(n, i)
        if p is None:
            run.throw('IndexError', 'pop')
        d = run.facts.norm(o.data)
        r = byte(d, p)
        o.data = cat(seg(d, ZERO, p), seg(d, add(p, C(1)), n))
        return r
    f = {'append': append, 'extend': extend, 'reverse': reverse, 'pop': pop}.get(name)
    if f:
        return Builtin('bytearray.' + name, f)
    return bytes_method(run, run.facts.norm(run.get(v).data), name)


def itr_method(run, v, name):
    from .interp import MISSING
    if name == '__next__':
        def nxt(run, a, k):
            r = run.itr_next(v)
            if r is MISSING:
                run.throw('StopIteration', '')
            return r
        return Builtin(name, nxt)
    if name == '__iter__':
        return Builtin(name, lambda run, a, k: v)
    if name in ('close', 'send'):
        return Builtin(name, _none)
    return None


def tup_method(run, v, name):
    if name == 'index':
        def index(run, a, k):
            for i, x in enumerate(v.items):
                if run.equal(x, a[0]):
                    return C(i)
            run.throw('ValueError', 'not in tuple')
        return Builtin(name, index)
    if name == 'count':
        return Builtin(name, lambda run, a, k: C(sum(1 for x in v.items if run.equal(x, a[0]))))
    if name == '__len__':
        return Builtin(name, lambda run, a, k: C(len(v.items)))
    if name == '__getitem__':
        return Builtin(name, lambda run, a, k: run.getitem(v, a[0]))
    if name == '__iter__':
        return Builtin(name, lambda run, a, k: run.mkiter(run.iterate(v)))
    if name == '__contains__':
        return Builtin(name, lambda run, a, k: pybool(run.contains(v, a[0])))
    if name == '__hash__':
        return Builtin(name, lambda run, a, k: mk('hashof', run.reify(v), sort='int'))
    if name == '__eq__':
        return Builtin(name, lambda run, a, k: eq_or_ni(run, v, a[0], tuple))
    return None


# ------------------------------------------------------------------ object protocol
def object_method(run, v, name):
    if name == '__setattr__':
        return Builtin(name, lambda run, a, k: (run.setattr_raw(v, a[0].args[0], a[1]), NONE)[1])
    if name == '__delattr__':
        return Builtin(name, lambda run, a, k: (delattr_raw(run, v, a[0].args[0]), NONE)[1])
    if name == '__getattribute__':
        return Builtin(name, lambda run, a, k: run.getattr_(v, a[0].args[0]))
    if name == '__init__':
        return Builtin(name, lambda run, a, k: init_builtin(run, v, a, k))
    if name == '__eq__':
        return Builtin(name, lambda run, a, k: pybool(run.is_same(v, a[0])) if run.is_same(v, a[0]) else C_NI)
    if name == '__ne__':
        return Builtin(name, lambda run, a, k: pybool(not run.equal(v, a[0])))
    if name == '__hash__':
        return Builtin(name, lambda run, a, k: mk('idhash', run.reify(v), sort='int'))
    if name in ('__repr__', '__str__'):
        return Builtin(name, lambda run, a, k: mk('repr', run.reify(v), sort='str'))
    if name == '__init_subclass__':
        return Builtin(name, _none)
    if name in ('__reduce__', '__dir__', '__sizeof__', '__format__'):
        return Builtin(name, lambda run, a, k: mk('objmeth', name, run.reify(v)))
    if name == '__doc__':
        return NONE
    if name == '__module__':
        ty = run.type_of(v)
        return C(ty.module.name if ty is not None and ty.module else 'builtins')
    return None


def init_builtin(run, v, a, k):
    if v.__class__ is Ref and v.kind == 'inst':
        o = run.get(v)
        if o.cls.issub(run.B(BaseException)):
            run.mut(v).attrs['args'] = Tup(a)
        elif o.payload is not None and o.payload.__class__ is Ref and a:
            p = o.payload
            if p.kind == 'list':
                run.lget(p, True).items = list(run.iterate(a[0]))
            elif p.kind == 'dict':
                dict_method(run, p, 'update').fn(run, list(a), k)
    return NONE


def delattr_raw(run, v, name):
    if v.__class__ is Ref and v.kind == 'inst':
        o = run.mut(v)
        if name not in o.attrs:
            run.throw('AttributeError', name)
        del o.attrs[name]
        return
    from .interp import MISSING
    if v.__class__ is T:
        run.symattrs.setdefault(run.facts.norm(v), {})[name] = MISSING
        return
    raise Undecided('delattr')


def builtin_method(run, v, name):
    """bound method `name` of a builtin object, or None"""
    r = _builtin_method(run, v, name)
    if r is None:
        r = object_method(run, v, name)
    return r


def _builtin_method(run, v, name):
    if v.__class__ is Ref:
        if v.kind == 'inst':
            o = run.get(v)
            if o.payload is not None:
                p = run.unwrap(v)
                return _builtin_method(run, p, name)
            if o.cls.issub(run.B(BaseException)):
                if name == 'args':
                    return o.attrs.get('args', Tup(()))
                if name in ('__cause__', '__context__', '__traceback__'):
                    return NONE
                if name == 'with_traceback':
                    return Builtin(name, lambda run, a, k: v)
                if name in ('errno', 'strerror', 'message', 'reason'):
                    return mk('attr', run.reify(v), name)
            return None
        return {'list': list_method, 'dict': dict_method, 'set': set_method, 'bytearray': bytearray_method,
                'hasher': hasher_method, 'bio': bio_method, 'iter': itr_method}.get(v.kind, lambda *a: None)(run, v, name)
    if v.__class__ is Tup:
        return tup_method(run, v, name)
    if v.__class__ is T:
        v = run.facts.norm(v)
        if v.op == 'c' and v.args[0] is None:
            return None
        if v.sort == 'stream':
            return bio_method(run, sym_bio(run, v), name)
        if run.is_bytes(v):
            return bytes_method(run, v, name)
        if run.is_str(v):
            return str_method(run, v, name)
        if run.is_int(v):
            return int_method(run, v, name)
        if isinstance(v.sort, tuple):
            if v.sort[0] in ('list', 'stack'):
                return list_method(run, run.sym_to_ref(v), name)
            if v.sort[0] == 'tuple' and hasattr(tuple, name):
                if name == '__len__':
                    return Builtin(name, lambda run, a, k: run.len_(v))
                return tup_method(run, Tup(list(run.iterate(v))), name)
        if v.sort == 'dict':
            return symdict_method(run, v, name)
        if v.op == 'range' and name in ('__len__', '__iter__', '__contains__'):
            return tup_method(run, Tup(list(run.iterate(v))), name)
    return None


def symdict_method(run, v, name):
    """a dict nothing is known about"""
    def get(run, a, k):
        if run.contains(v, a[0]):
            return run.getitem(v, a[0])
        return a[1] if len(a) > 1 else NONE
    if name == 'get':
        return Builtin(name, get)
    if name in ('keys', 'values', 'items'):
        return Builtin(name, lambda run, a, k: mk('meth', name, v))
    if name == 'copy':
        return Builtin(name, lambda run, a, k: mk('meth', name, v))
    return None


PURE_METHODS = {'hex', 'encode', 'decode', 'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'split', 'startswith',
                'endswith', 'keys', 'values', 'items', 'format', 'join', 'digest', 'hexdigest', 'replace', 'bit_length',
                '__len__', '__hash__', '__class__', 'isdigit', 'find', 'index', 'count'}


def unknown_method(run, obj, name, args, kwargs):
    """method call on a value whose class is unknown"""
    if name == 'get' and 1 <= len(args) <= 2 and not kwargs:
        if run.contains(obj, args[0]):
            return run.getitem(obj, args[0])
        return args[1] if len(args) > 1 else NONE
    if name in PURE_METHODS:
        ra = [run.reify(a) for a in args]
        if kwargs:
            ra.append(mk('kw', run.kwreify(kwargs)))
        s = run.cfg.get('method_sorts', {}).get(name)
        if s is None:
            s = {'hex': 'str', 'encode': 'bytes', 'decode': 'str', 'startswith': 'bool', 'endswith': 'bool'}.get(name)
        return mk('meth', name, obj, *ra, sort=s)
    return NotImplemented


# ------------------------------------------------------------------ class-level
def class_method(run, cls, name):
    """unbound attribute `name` of a class whose repository part lacks it"""
    host = None
    for c in cls.mro:
        if c.builtin is not None:
            host = c.builtin
            break
        if getattr(c, 'ext', False):
            if name not in ('__init__', '__new__', '__setattr__', '__eq__', '__hash__', '__ne__', '__repr__',
                            '__str__', '__delattr__', '__init_subclass__'):
                return None
    if host is None:
        host = object
    if name == '__new__':
        def new(run, a, k):
            c = a[0]
            return object_new(run, c, list(a[1:]), k, host)
        return Builtin('__new__', new)
    if name in ('__doc__',):
        return NONE
    if not hasattr(host, name):
        return None
    if host is int or (isinstance(host, type) and issubclass(host, int)):
        if name == 'from_bytes':
            return Builtin(name, lambda run, a, k: int_from_bytes(run, a, k))
    if host is bytes and name == 'fromhex':
        return Builtin(name, lambda run, a, k: unhex(run, a[0], run.exc_class('ValueError')))
    if host is bytearray and name == 'fromhex':
        return Builtin(name, lambda run, a, k: run.alloc(BAR(unhex(run, a[0], run.exc_class('ValueError'))), 'bytearray'))
    if host is dict and name == 'fromkeys':
        return Builtin(name, lambda run, a, k: run.mkdict([(x, a[1] if len(a) > 1 else NONE) for x in run.iterate(a[0])]))
    if host is str and name == 'maketrans':
        return Builtin(name, lambda run, a, k: mk('maketrans', *[run.reify(x) for x in a]))

    def f(run, a, k):
        if not a:
            run.throw('TypeError', 'unbound method needs an argument')
        if cls.issub(run.B(BaseException)) and name == '__init__':
            return init_builtin(run, a[0], list(a[1:]), k)
        if name in ('__setattr__', '__delattr__', '__init__', '__getattribute__', '__init_subclass__') or host is object:
            m = object_method(run, a[0], name)
        else:
            m = builtin_method(run, a[0], name)
        if m is None:
            raise Undecided('%s.%s' % (cls.name, name))
        if isinstance(m, Builtin):
            return m.fn(run, list(a[1:]), k)
        return m
    b = Builtin('%s.%s' % (cls.name, name), f)
    b.isdesc = True
    return b


def object_new(run, cls, args, kw, host=None):
    bb = cls.builtin_base()
    if cls.builtin is not None and cls.builtin is not object and not issubclass(cls.builtin, BaseException):
        return construct(run, cls, args, kw)
    o = INST(cls)
    if bb is not None and issubclass(bb, BaseException):
        o.attrs['args'] = Tup(args)
    elif bb in (bytes, str, int, float, bytearray, tuple, frozenset):
        o.payload = run.unwrap(construct(run, run.B(bb), args, kw))
    elif bb in (list, dict, set):
        o.payload = construct(run, run.B(bb), [], {})
        if run.cls_lookup(cls, '__init__').__class__ is not Func and args:
            o.payload = construct(run, run.B(bb), args, kw)
    return run.alloc(o, 'inst')


def object_init_check(run, cls, args, kw):
    if (args or kw) and cls.builtin_base() in (None,) and not any(getattr(c, 'ext', False) for c in cls.mro):
        run.throw('TypeError', '%s() takes no arguments' % cls.name)


def construct(run, cls, a, k):
    h = cls.builtin
    if h is object:
        return run.alloc(INST(cls), 'inst')
    if h is type:
        if len(a) == 1:
            ty = run.type_of(a[0])
            return ty if ty is not None else mk('class', run.facts.norm(a[0]))
        name, bases, ns = a
        nsr = run.alloc(NS({kk.args[0]: x for kk, x in run.get(ns).items}), 'ns')
        bs = list(run.iterate(bases)) or [run.B(object)]
        q = 'dynamic.' + name.args[0]
        c = ClassObj(name.args[0], q, bs, nsr, None, None, None)
        if not run.loading:
            for b in bs:
                b.subs.remove(c)
        return c
    if h is bool:
        if a and a[0].__class__ is T:
            x = run.facts.norm(a[0])
            if x.sort in ('int', 'uint') and not is_c(x):
                lo, hi = span(*lin_of(x))
                if lo is not None and hi is not None and lo >= 0 and hi <= 1:
                    # a single bit is its own truth value
                    return mk('b01', x, sort='bool')
        return pybool(run.truth(a[0])) if a else FALSE
    if h is int:
        return to_int(run, a, k)
    if h is float:
        if a:
            r = run.user_method(a[0], '__float__')
            if r is not None:
                return run.call(r, [], {})
        v = run.unwrap(a[0]) if a else C(0.0)
        if v.__class__ is T and v.op == 'c':
            return fold(run, float, [v.args[0]])
        if v.__class__ is T and run.is_int(v):
            return mk('float', run.facts.norm(v), sort='float')
        return mk('float', run.reify(v), sort='float')
    if h is bytes:
        return to_bytes(run, a, k)
    if h is bytearray:
        return run.alloc(BAR(to_bytes(run, a, k)), 'bytearray')
    if h is memoryview:
        return a[0]
    if h is str:
        return to_str(run, a, k)
    if h is list:
        if not a:
            return run.mklist([])
        x = a[0]
        if x.__class__ is T and isinstance(run.facts.norm(x).sort, tuple) and x.sort[0] == 'stack':
            x = run.sym_to_ref(x)
        if x.__class__ is Ref and x.kind == 'list' and run.get(x).base is not None:
            l = run.get(x).copy()
            l.dirty = True
            l.origin = l.base
            return run.alloc(l, 'list')
        return run.mklist(list(run.iterate(x)))
    if h is tuple:
        if not a:
            return Tup(())
        x = run.facts.norm(a[0]) if a[0].__class__ is T else a[0]
        if x.__class__ is T and isinstance(x.sort, tuple) and x.sort[0] == 'tuple' and x not in run.symrefs:
            return x
        return Tup(list(run.iterate(x)))
    if h is dict:
        r = run.mkdict()
        dict_method(run, r, 'update').fn(run, list(a), k)
        return r
    if h is set or h is frozenset:
        return run.mkset(list(run.iterate(a[0])) if a else [], frozen=h is frozenset)
    if h is range:
        v = [run.int_of(x) for x in a]
        lo, hi, st = (ZERO, v[0], C(1)) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else C(1))
        for x in (lo, hi, st):
            if x.sort in ('bytes', 'str', 'none', 'float'):
                run.throw('TypeError', 'range')
        return mk('range', lo, hi, st)
    if h is slice:
        v = list(a)
        if len(v) == 1:
            return SliceV(None, v[0], None)
        return SliceV(v[0], v[1], v[2] if len(v) > 2 else None)
    if h is enumerate:
        start = run.int_of(opt(a, k, 1, 'start', ZERO))

        def gen():
            for i, x in enumerate(run.iterate(a[0])):
                yield Tup((run.facts.norm(add(start, C(i))), x))
        return run.mkiter(gen())
    if h is zip:
        its = [iter(run.iterate(x)) for x in a]
        strict = k.get('strict')

        def genz():
            while its:
                row = []
                for i, it in enumerate(its):
                    try:
                        row.append(next(it))
                    except StopIteration:
                        if strict is not None and run.truth(strict):
                            if i:
                                run.throw('ValueError', 'zip() arguments differ in length')
                            for it2 in its[1:]:
                                for _ in it2:
                                    run.throw('ValueError', 'zip() arguments differ in length')
                        return
                yield Tup(row)
        return run.mkiter(genz())
    if h is map:
        def genm():
            its = [iter(run.iterate(x)) for x in a[1:]]
            while True:
                row = []
                for it in its:
                    try:
                        row.append(next(it))
                    except StopIteration:
                        return
                yield run.call(a[0], row, {})
        return run.mkiter(genm())
    if h is filter:
        def genf():
            for x in run.iterate(a[1]):
                if is_c(a[0]) and a[0].args[0] is None:
                    if run.truth(x):
                        yield x
                elif run.truth(run.call(a[0], [x], {})):
                    yield x
        return run.mkiter(genf())
    if h is reversed:
        x = a[0]
        m = run.user_method(x, '__reversed__')
        if m is not None:
            return run.call(m, [], {})

        def genr():
            yield from reversed(list(run.iterate(x)))
        return run.mkiter(genr())
    if h is property:
        g = opt(a, k, 0, 'fget', None)
        s = opt(a, k, 1, 'fset', None)
        clean = lambda x: None if x is None or (is_c(x) and x.args[0] is None) else x
        return Prop(clean(g), clean(s), clean(opt(a, k, 2, 'fdel', None)))
    if h is classmethod:
        return CM(a[0])
    if h is staticmethod:
        return SM(a[0])
    if h is super:
        if len(a) < 2:
            raise Undecided('super() with fewer than two arguments')
        return SuperV(a[0], a[1])
    if issubclass(h, BaseException):
        o = INST(cls)
        o.attrs['args'] = Tup(a)
        if k:
            for n, x in k.items():
                o.attrs[n] = x
        return run.alloc(o, 'inst')
    if h is type(None):
        return NONE
    raise Undecided('constructing %s' % cls.name)


def slice_indices(run, sl, n):
    n = run.int_of(n)
    for x in (sl.lo, sl.hi, sl.step):
        if x.__class__ is Tup or x.__class__ is T and (x.sort in ('bytes', 'str') or x.op == 'c' and isinstance(x.args[0], (str, bytes, float))):
            run.throw('TypeError', 'slice indices must be integers')
    st = run.slice_step(sl)
    cs = []
    const = is_c(n)
    for x in (sl.lo, sl.hi):
        if x is None or x is NONE:
            cs.append(None)
        else:
            x = run.int_of(x)
            if is_c(x):
                cs.append(x.args[0])
            else:
                const = False
    if const:
        lo, hi, s = slice(cs[0], cs[1], st).indices(n.args[0])
        return Tup([C(lo), C(hi), C(s)])
    if st != 1:
        raise Undecided('stepped slice of unknown bounds')

    def clamp(x, default):
        if x is None or x is NONE:
            return default
        x = run.int_of(x)
        if not run.d_ge(x):
            x = add(x, n)
            return run.facts.norm(x) if run.d_ge(x) else ZERO
        return run.facts.norm(x) if run.d_ge(sub(n, x)) else n
    return Tup([clamp(sl.lo, ZERO), clamp(sl.hi, n), C(1)])


# ------------------------------------------------------------------ builtin functions
def b_len(run, a, k):
    return run.len_(a[0])


def b_isinstance(run, a, k):
    return pybool(run.isinstance_(a[0], a[1]))


def b_issubclass(run, a, k):
    c, d = a
    if not isinstance(c, ClassObj):
        if c.__class__ is T:
            return pybool(run.d_lit(mk('issub', c, run.reify(d))))
        run.throw('TypeError', 'issubclass() arg 1 must be a class')
    ds = d.items if d.__class__ is Tup else [d]
    return pybool(any(isinstance(x, ClassObj) and c.issub(x) for x in ds))


def b_getattr(run, a, k):
    from .interp import MISSING
    n = run.unwrap(a[1])
    if not is_c(n):
        return run.opaque_call('getattr', a, k)
    return run.getattr_(a[0], n.args[0], a[2] if len(a) > 2 else MISSING)


def b_hasattr(run, a, k):
    from .interp import MISSING
    n = run.unwrap(a[1])
    if not is_c(n):
        raise Undecided('hasattr of unknown name')
    v = a[0]
    if v.__class__ is T and v.sort is None and run.facts.norm(v).op not in ('c', 'ext'):
        v = run.facts.norm(v)
        if n.args[0] in run.symattrs.get(v, {}):
            return TRUE
        return pybool(run.d_lit(mk('hasattr', v, n.args[0])))
    mark = object()
    r = run.getattr_(a[0], n.args[0], mark)
    return pybool(r is not mark)


def b_setattr(run, a, k):
    n = run.unwrap(a[1])
    if not is_c(n):
        raise Undecided('setattr of unknown name')
    run.setattr_(a[0], n.args[0], a[2])
    return NONE


def b_delattr(run, a, k):
    run.delattr_(a[0], run.unwrap(a[1]).args[0])
    return NONE


def b_iter(run, a, k):
    v = a[0]
    if len(a) == 2:
        raise Undecided('two-argument iter')
    if v.__class__ is Ref and v.kind == 'iter':
        return v
    m = run.user_method(v, '__iter__')
    if m is not None:
        return run.call(m, [], {})
    # errors for non-iterables come at once
    if v.__class__ is T and run.facts.norm(v).sort in ('int', 'uint', 'none', 'bool', 'float'):
        run.throw('TypeError', 'not iterable')
    return run.mkiter(run.iterate(v))


def b_next(run, a, k):
    from .interp import MISSING
    v = a[0]
    m = run.user_method(v, '__next__')
    if m is not None:
        try:
            return run.call(m, [], {})
        except PyExc as e:
            if len(a) > 1 and e.cls.issub(run.B(StopIteration)):
                return a[1]
            raise
    if v.__class__ is Ref and v.kind == 'iter':
        r = run.itr_next(v)
        if r is MISSING:
            if len(a) > 1:
                return a[1]
            run.throw('StopIteration', '')
        return r
    if v.__class__ is T and v.sort is None:
        return run.opaque_call('next', a, k, effect=True)
    run.throw('TypeError', 'not an iterator')


def b_sum(run, a, k):
    start = opt(a, k, 1, 'start', ZERO)
    r = start
    for x in run.iterate(a[0]):
        r = run.binop('Add', r, x)
    return r


def b_any(run, a, k):
    for x in run.iterate(a[0]):
        if run.truth(x):
            return TRUE
    return FALSE


def b_all(run, a, k):
    for x in run.iterate(a[0]):
        if not run.truth(x):
            return FALSE
    return TRUE


def minmax(op):
    def f(run, a, k):
        items = list(run.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k:
                return k['default']
            run.throw('ValueError', 'empty sequence')
        key = k.get('key')
        best = items[0]
        kb = run.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            kx = run.call(key, [x], {}) if key is not None else x
            if run.compare(op, kx, kb):
                best, kb = x, kx
        return best
    return f


def b_abs(run, a, k):
    v = run.int_of(a[0])
    if v.sort in ('bytes', 'str', 'none'):
        run.throw('TypeError', 'abs')
    if is_c(v):
        return C(abs(v.args[0]))
    return v if run.d_ge(v) else scale(run.facts.norm(v), -1)


def b_ord(run, a, k):
    v = run.unwrap(a[0])
    if is_c(v):
        return fold(run, ord, [v.args[0]])
    b = run.bytes_of(v)
    if b is not None and (run.is_bytes(b)):
        if not run.d_eq0(sub(length(b), C(1))):
            run.throw('TypeError', 'ord() expected a character')
        return run.facts.norm(byte(run.facts.norm(b), ZERO))
    if v.__class__ is T and v.op == 'text':
        if len(v.args) != 1:
            run.throw('TypeError', 'ord() expected a character')
        return run.facts.norm(v.args[0])
    return mk('ord', run.reify(v), sort='uint')


def b_chr(run, a, k):
    v = run.int_of(a[0])
    if is_c(v):
        return fold(run, chr, [v.args[0]])
    if run.cfg.get('texts'):
        if not run.d_ge(v) or not run.d_ge(sub(C(0x10ffff), v)):
            run.throw('ValueError', 'chr()')
        return text.text([v])
    return mk('chr', v, sort='str')


def b_hash(run, a, k):
    v = a[0]
    run.check_hashable(v)
    m = run.user_method(v, '__hash__')
    if m is not None:
        return run.call(m, [], {})
    return mk('hashof', run.reify(v), sort='int')


def b_repr(run, a, k):
    m = run.user_method(a[0], '__repr__')
    if m is not None:
        return run.call(m, [], {})
    v = run.unwrap(a[0])
    if is_c(v):
        return C(repr(v.args[0]))
    return mk('repr', run.reify(v), sort='str')


def b_sorted(run, a, k):
    return run.mklist(py_sort(run, list(run.iterate(a[0])), k))


def b_divmod(run, a, k):
    return Tup((run.binop('FloorDiv', a[0], a[1]), run.binop('Mod', a[0], a[1])))


def b_pow(run, a, k):
    if len(a) == 2:
        return run.binop('Pow', a[0], a[1])
    return run.opaque_call('pow', a, k, sort='int')


def b_print(run, a, k):
    c = run.prog.ext_consts.get('print')
    if c is not None:
        return run.call(c.make(run), a, k)
    run.effects.setdefault('print', [])
    return NONE


def b_open(run, a, k):
    c = run.prog.ext_consts.get('open')
    if c is not None:
        return run.call(c.make(run), a, k)
    return run.opaque_call('open', a, k, effect=True)


def b_callable(run, a, k):
    v = a[0]
    if isinstance(v, (Func, BM, Builtin, ClassObj, SM, CM)):
        return TRUE
    if run.user_method(v, '__call__') is not None:
        return TRUE
    if v.__class__ is T and v.sort is None and v.op != 'c':
        return pybool(run.d_lit(mk('callable', v)))
    return FALSE


def b_vars(run, a, k):
    v = a[0]
    if v.__class__ is Ref and v.kind == 'inst':
        return run.mkdict([(C(n), x) for n, x in run.get(v).attrs.items()])
    if isinstance(v, (Mod, ClassObj)):
        return run.mkdict([(C(n), x) for n, x in run.get(v.ns).d.items()])
    raise Undecided('vars')


def b_round(run, a, k):
    c = const_args(run, a)
    if c is not None:
        return fold(run, round, c)
    u = run.user_method(a[0], '__round__')
    if u is not None:
        return run.call(u, a[1:], {})
    v = run.int_of(a[0])
    if v.sort in ('int', 'uint', 'bool') and len(a) == 1:
        return v
    return mk('round', *[run.reify(x) for x in a], sort='int')


def b_bin(fn):
    def f(run, a, k):
        v = run.int_of(a[0])
        if is_c(v):
            return fold(run, fn, [v.args[0]])
        if fn is hex and run.cfg.get('texts') and run.d_ge(v):
            r = text.digits(run, v, 16)
            if r is not None:
                return text.text([C(48), C(120)] + r)
        return mk(fn.__name__, v, sort='str')
    return f


BUILTINS = {
    'len': b_len, 'isinstance': b_isinstance, 'issubclass': b_issubclass, 'getattr': b_getattr, 'hasattr': b_hasattr,
    'setattr': b_setattr, 'delattr': b_delattr, 'iter': b_iter, 'next': b_next, 'sum': b_sum, 'any': b_any,
    'all': b_all, 'min': minmax('Lt'), 'max': minmax('Gt'), 'abs': b_abs, 'ord': b_ord, 'chr': b_chr, 'hash': b_hash,
    'repr': b_repr, 'sorted': b_sorted, 'divmod': b_divmod, 'pow': b_pow, 'print': b_print, 'open': b_open,
    'callable': b_callable, 'vars': b_vars, 'round': b_round, 'bin': b_bin(bin), 'hex': b_bin(hex), 'oct': b_bin(oct),
    'id': lambda run, a, k: C(0x7f0000000000 + 16 * a[0].id) if a[0].__class__ is Ref else mk('id', run.reify(a[0]), sort='int'),
    'input': lambda run, a, k: run.opaque_call('input', a, k, effect=True, sort='str'),
    'format': lambda run, a, k: mk('format', *[run.reify(x) for x in a], sort='str'),
    'globals': lambda run, a, k: mk('globals'),
    'locals': lambda run, a, k: mk('locals'),
    'exit': lambda run, a, k: run.throw('SystemExit', ''),
    'ascii': b_repr,
    'dir': lambda run, a, k: mk('dir', *[run.reify(x) for x in a]),
}
_bobjs = {n: Builtin(n, f) for n, f in BUILTINS.items()}


def builtin_name(run, name):
    b = _bobjs.get(name)
    if b is not None:
        return b
    if name == 'NotImplemented':
        return C_NI
    if name == 'Ellipsis':
        return mk('c', Ellipsis)
    if name == '__debug__':
        return TRUE
    if name == '__builtins__':
        return None
    v = getattr(_b, name, None)
    if isinstance(v, type):
        return run.prog.bclass(v)
    if v is not None:
        return mk('ext', 'builtins.' + name)
    return None


# ------------------------------------------------------------------ library modules
def ft_total_ordering(run, a, k):
    c = a[0]
    d = run.mut(c.ns).d
    have = [n for n in ('__lt__', '__gt__', '__le__', '__ge__') if run.cls_lookup(c, n).__class__ in (Func,)]
    if not have:
        return c
    root = have[0]
    op = {'__lt__': 'Lt', '__gt__': 'Gt', '__le__': 'LtE', '__ge__': 'GtE'}[root]

    def mkop(n):
        def f(run, x, k):
            s, o = x
            r = run.call(run.getattr_(s, root), [o], {})
            if r is C_NI:
                return C_NI
            base = run.truth(r)
            eq = lambda: run.equal(s, o)
            table = {
                ('__lt__', '__gt__'): lambda: not base and not eq(), ('__lt__', '__le__'): lambda: base or eq(),
                ('__lt__', '__ge__'): lambda: not base,
                ('__le__', '__ge__'): lambda: not base or eq(), ('__le__', '__lt__'): lambda: base and not eq(),
                ('__le__', '__gt__'): lambda: not base,
                ('__gt__', '__lt__'): lambda: not base and not eq(), ('__gt__', '__ge__'): lambda: base or eq(),
                ('__gt__', '__le__'): lambda: not base,
                ('__ge__', '__le__'): lambda: not base or eq(), ('__ge__', '__gt__'): lambda: base and not eq(),
                ('__ge__', '__lt__'): lambda: not base,
            }
            return pybool(table[root, n]())
        b = Builtin(n, f)
        b.isdesc = True
        return b
    for n in ('__lt__', '__gt__', '__le__', '__ge__'):
        if n != root and n not in d:
            d[n] = mkop(n)
    return c


def ft_wraps(run, a, k):
    return Builtin('wraps', lambda run, x, kk: x[0])


def ft_reduce(run, a, k):
    it = iter(run.iterate(a[1]))
    if len(a) > 2:
        r = a[2]
    else:
        try:
            r = next(it)
        except StopIteration:
            run.throw('TypeError', 'reduce() of empty iterable')
    for x in it:
        r = run.call(a[0], [r, x], {})
    return r


def ft_partial(run, a, k):
    f, pre = a[0], list(a[1:])
    return Builtin('partial', lambda run, x, kk: run.call(f, pre + list(x), dict(k, **kk)))


def it_islice(run, a, k):
    v = [None if is_c(x) and x.args[0] is None else run.int_of(x) for x in a[1:]]
    if any(x is not None and not is_c(x) for x in v):
        raise Undecided('islice')
    v = [None if x is None else x.args[0] for x in v]
    import itertools
    return run.mkiter(itertools.islice(run.iterate(a[0]), *v))


def it_chain(run, a, k):
    def gen():
        for x in a:
            yield from run.iterate(x)
    return run.mkiter(gen())


def it_chain_fi(run, a, k):
    def gen():
        for x in run.iterate(a[0]):
            yield from run.iterate(x)
    return run.mkiter(gen())


def it_repeat(run, a, k):
    def gen():
        if len(a) > 1:
            n = run.int_of(a[1])
            if not is_c(n):
                raise Undecided('repeat')
            for _ in range(n.args[0]):
                yield a[0]
        else:
            while True:
                yield a[0]
    return run.mkiter(gen())


def it_count(run, a, k):
    def gen():
        i = run.int_of(a[0]) if a else ZERO
        st = run.int_of(a[1]) if len(a) > 1 else C(1)
        while True:
            yield i
            i = add(i, st)
    return run.mkiter(gen())


def it_zip_longest(run, a, k):
    fill = k.get('fillvalue', NONE)
    import itertools
    its = [run.iterate(x) for x in a]

    def gen():
        for row in itertools.zip_longest(*its, fillvalue=fill):
            yield Tup(row)
    return run.mkiter(gen())


def it_takewhile(run, a, k):
    def gen():
        for x in run.iterate(a[1]):
            if not run.truth(run.call(a[0], [x], {})):
                return
            yield x
    return run.mkiter(gen())


def it_accumulate(run, a, k):
    def gen():
        r = None
        for x in run.iterate(a[0]):
            r = x if r is None else (run.call(a[1], [r, x], {}) if len(a) > 1 else run.binop('Add', r, x))
            yield r
    return run.mkiter(gen())


def cp_copy(run, a, k):
    v = a[0]
    m = run.user_method(v, '__copy__')
    if m is not None:
        return run.call(m, [], {})
    if v.__class__ is Ref and v.kind != 'inst':
        run.force_lazy(v) if v.kind == 'list' else None
        o = run.get(v).copy()
        if isinstance(o, LST):
            o.dirty = True
            o.origin = o.base
        return run.alloc(o, v.kind)
    if v.__class__ is Ref:
        return run.alloc(run.get(v).copy(), 'inst')
    if v.__class__ is T and isinstance(v.sort, ClassObj):
        ty = v.sort
        if ty.builtin_base() in (bytes, int, str):
            return v
        o = INST(ty)
        for f in sorted(run.fields(ty)):
            x = run.getattr_(v, f, None) if not run.unset_field(v, ty, f) else None
            if x is not None:
                o.attrs[f] = x
        return run.alloc(o, 'inst')
    if v.__class__ is T and isinstance(v.sort, tuple) and v.sort[0] in ('list', 'stack'):
        return construct(run, run.B(list), [v], {})
    return v


def cp_deepcopy(run, a, k):
    return run.opaque_call('copy.deepcopy', a[:1], {})


def col_namedtuple(run, a, k):
    raise Undecided('namedtuple')


def op_fn(name):
    def f(run, a, k):
        return run.binop(name, a[0], a[1])
    return f


def op_cmp(name):
    def f(run, a, k):
        return pybool(run.compare(name, a[0], a[1]))
    return f


def op_index(run, a, k):
    v = a[0]
    m = run.user_method(v, '__index__')
    if m is not None:
        return run.call(m, [], {})
    v = run.unwrap(v)
    if v.__class__ is T and (run.is_int(v) and v.sort != 'float' or v.sort is None):
        return run.facts.norm(v)
    run.throw('TypeError', 'cannot be interpreted as an integer')


def op_itemgetter(run, a, k):
    return Builtin('itemgetter', lambda run, x, kk: run.getitem(x[0], a[0]) if len(a) == 1 else
                   Tup([run.getitem(x[0], i) for i in a]))


def op_attrgetter(run, a, k):
    def get(run, o):
        for n in a[0].args[0].split('.'):
            o = run.getattr_(o, n)
        return o
    return Builtin('attrgetter', lambda run, x, kk: get(run, x[0]))


def os_urandom(run, a, k):
    n = run.effects.get('urandom', 0)
    run.effects['urandom'] = n + 1
    return mk('urandom', run.int_of(a[0]), n, sort='bytes')


def inet_ntoa(run, a, k):
    b = run.facts.norm(run.bytes_of(a[0]))
    if not run.d_eq0(sub(length(b), C(4))):
        run.throw('OSError', 'packed IP wrong length')
    if is_c(b):
        return C('.'.join(str(x) for x in b.args[0]))
    return mk('ntoa', b, sort='str')


def inet_aton(run, a, k):
    s = run.facts.norm(run.unwrap(a[0]))
    if s.__class__ is T and s.op == 'ntoa':
        return s.args[0]
    if is_c(s):
        p = s.args[0].split('.')
        if len(p) == 4 and all(x.isdigit() and int(x) < 256 for x in p):
            return C(bytes(int(x) for x in p))
    return mk('aton', s, sort='bytes')


def uuid_UUID(run, a, k):
    v = opt(a, k, 0, 'hex', NONE)
    if is_c(v) and isinstance(v.args[0], str):
        u = _uuid.UUID(v.args[0])
        b = Builtin('UUID', lambda run, x, kk: run.throw('TypeError', 'not callable'))
        b.attrs = {'bytes': C(u.bytes), 'hex': C(u.hex), 'int': C(u.int)}
        return b
    return run.opaque_call('uuid.UUID', a, k)


def compare_digest(run, a, k):
    return pybool(run.equal(a[0], a[1]))


def math_fn(name):
    import math

    def f(run, a, k):
        c = const_args(run, a)
        if c is not None:
            return fold(run, getattr(math, name), c)
        u = run.user_method(a[0], '__%s__' % name) if name in ('ceil', 'floor', 'trunc') else None
        if u is not None:
            return run.call(u, [], {})
        return mk('call', 'math.' + name, *[run.reify(x) for x in a],
                  sort='int' if name in ('ceil', 'floor', 'trunc') else 'float')
    return f


def time_time(run, a, k):
    return mk('now', sort='float')


class _FakeT(object):
    pass


def install(prog):
    ext = prog.ext_models
    for n in DIGEST:
        ext['hashlib.' + n] = mk_hasher(n)
    add_ = {
        'hashlib.new': hashlib_new, 'hmac.new': hmac_new, 'hmac.HMAC': hmac_new,
        'hmac.compare_digest': compare_digest, 'secrets.compare_digest': compare_digest,
        'struct.pack': struct_pack, 'struct.unpack': struct_unpack, 'struct.calcsize': struct_calcsize,
        'struct.unpack_from': struct_unpack_from, 'struct.Struct': struct_struct,
        'io.BytesIO': bio_new, 'cStringIO.StringIO': bio_new,
        'binascii.hexlify': hexlify, 'binascii.unhexlify': unhexlify, 'binascii.b2a_hex': hexlify,
        'binascii.a2b_hex': unhexlify,
        'os.urandom': os_urandom, 'secrets.token_bytes': os_urandom,
        'socket.inet_ntoa': inet_ntoa, 'socket.inet_aton': inet_aton, 'uuid.UUID': uuid_UUID, 'time.time': time_time,
        'functools.total_ordering': ft_total_ordering, 'functools.wraps': ft_wraps, 'functools.reduce': ft_reduce,
        'functools.partial': ft_partial,
        'functools.lru_cache': lambda run, a, k: a[0] if a and isinstance(a[0], Func) else Builtin('lru', lambda r, x, kk: x[0]),
        'itertools.islice': it_islice, 'itertools.chain': it_chain, 'itertools.chain.from_iterable': it_chain_fi,
        'itertools.repeat': it_repeat, 'itertools.count': it_count, 'itertools.zip_longest': it_zip_longest,
        'itertools.takewhile': it_takewhile, 'itertools.accumulate': it_accumulate,
        'copy.copy': cp_copy, 'copy.deepcopy': cp_deepcopy,
        'operator.index': op_index, 'operator.itemgetter': op_itemgetter, 'operator.attrgetter': op_attrgetter,
        'collections.OrderedDict': lambda run, a, k: construct(run, run.B(dict), a, k),
        'contextlib.contextmanager': lambda run, a, k: a[0],
    }
    for n, o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'),
                 ('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor'), ('lshift', 'LShift'), ('rshift', 'RShift')):
        add_['operator.' + n] = op_fn(o)
    for n, o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'),
                 ('is_', 'Is'), ('is_not', 'IsNot')):
        add_['operator.' + n] = op_cmp(o)
    for n in ('ceil', 'floor', 'log', 'sqrt', 'trunc', 'log2'):
        add_['math.' + n] = math_fn(n)
    for n, f in add_.items():
        if not isinstance(f, Builtin):
            f = Builtin(n, f)
        ext[n] = f
    ext['itertools.chain'].attrs = {'from_iterable': Builtin('chain.from_iterable', it_chain_fi)}
    od = ext['collections.OrderedDict']
    od.ascls = prog.bclass(dict)
    for h in DIGEST:
        ext['hashlib.' + h].hashname = h
    prog.ext_consts.update({
        'sys.version': C('3.12.3 (main)'), 'sys.version_info': Tup([C(3), C(12), C(3), C('final'), C(0)]),
        'sys.maxsize': C((1 << 63) - 1), 'sys.byteorder': C('little'), 'math.pi': C(3.141592653589793),
        'typing.TYPE_CHECKING': FALSE,
    })
    prog.may_raise = {
        'json.loads': ['ValueError'], 'json.load': ['ValueError'],
        'decimal.Decimal': ['decimal.InvalidOperation'],
        'int': ['ValueError'],
        'open': ['OSError'],
    }
    prog.effectful = {'open', 'os.remove', 'os.unlink', 'os.rename', 'os.write', 'os.open', 'random.random',
                      'random.randrange', 'random.randint', 'random.getrandbits', 'time.sleep', 'socket.socket',
                      'sys.exit', 'logging.debug', 'logging.info'}
    prog.ext_sorts = {'json.dumps': 'str', 'random.getrandbits': 'uint', 'time.strftime': 'str',
                      'socket.inet_pton': 'bytes', 'socket.inet_ntop': 'str', 'socket.inet_aton': 'bytes',
                      'base64.b64encode': 'bytes', 'base64.b64decode': 'bytes', 'random.random': 'float',
                      'datetime.datetime.fromtimestamp': None}
    excs = {'struct.error': 'Exception', 'binascii.Error': 'ValueError', 'socket.error': 'OSError',
            'socket.timeout': 'OSError', 'json.JSONDecodeError': 'ValueError', 'decimal.InvalidOperation': 'ArithmeticError',
            'io.UnsupportedOperation': 'OSError', 'json.decoder.JSONDecodeError': 'ValueError'}

    def exc_by_name(n):
        if isinstance(n, ClassObj):
            return n
        v = getattr(_b, n, None)
        if isinstance(v, type) and issubclass(v, BaseException):
            return prog.bclass(v)
        if n in excs:
            if excs[n] == 'OSError' and n.startswith('socket.'):
                return prog.bclass(OSError)
            return prog.ext_class(n, excs[n])
        r = prog.lookup(n)
        if isinstance(r, ClassObj):
            return r
        return None
    prog.exc_by_name = exc_by_name
