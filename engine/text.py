"""Strings of a known number of characters, each a value number.

A character is a code point: a constant, an unknown (`sym`), or the entry of a
constant table at an unknown place, `codeat(table, i)`.  An unknown character
that is known to be in a table of distinct characters is compared through its
place in the table, `indexof(table, code)`.
"""
from .terms import *

HEX = '0123456789abcdef'


def codeat(table, i):
    if is_c(i):
        return C(ord(table[i.args[0]]))
    return mk('codeat', C(table), i, sort='uint')


def indexof(table, code):
    if is_c(code):
        return C(table.find(chr(code.args[0])))
    if code.op == 'codeat' and code.args[0].args[0] == table and len(set(table)) == len(table):
        return code.args[1]
    return mk('indexof', C(table), code, sort='uint')


def text(codes):
    if all(is_c(c) for c in codes):
        return C(''.join(chr(c.args[0]) for c in codes))
    return mk('text', *codes, sort='str')


def codes(run, t):
    """the characters of a string, or None"""
    if t.__class__ is not T:
        return None
    t = run.facts.norm(t)
    if t.op == 'c':
        return [C(ord(x)) for x in t.args[0]] if isinstance(t.args[0], str) else None
    if t.op == 'text':
        return list(t.args)
    if t.op in ('hex', 'hexb'):
        b = t.args[0]
        n = run.facts.norm(length(b))
        if not is_c(n):
            return None
        out = []
        for i in range(n.args[0]):
            x = run.facts.norm(byte(b, C(i)))
            h = floordiv(x, 16)
            out += [codeat(HEX, h), codeat(HEX, sub(x, scale(h, 16)))]
        return out
    if t.op == 'str+':
        l, r = codes(run, t.args[0]), codes(run, t.args[1])
        return None if l is None or r is None else l + r
    return None


def among(run, code, table):
    """is the character one of the table"""
    if is_c(code):
        return chr(code.args[0]) in table
    if code.op == 'codeat':
        t = code.args[0].args[0]
        if set(t) <= set(table):
            return True
        if not set(t) & set(table):
            return False
        for i, c in enumerate(t):
            if c not in table and run.d_eq0(sub(code.args[1], C(i))):
                return False
        return True
    # the same table, however its entries are ordered
    return run.d_lit(mk('among', code, C(''.join(sorted(set(table))))))


def home(run, code):
    """a table the character is known to be in"""
    if code.op == 'codeat':
        return code.args[0].args[0]
    for a, v in run.facts.lits.items():
        if v and a.op == 'among' and a.args[0] is code:
            return a.args[1].args[0]
    return None


def same(run, a, b):
    """are two characters the same"""
    if a is b:
        return True
    if is_c(a) and is_c(b):
        return a.args[0] == b.args[0]
    for x, y in ((a, b), (b, a)):
        t = x.args[0].args[0] if x.op == 'codeat' else None
        if t is None and y.op != 'codeat':
            t = home(run, x)
        if t is None or len(set(t)) != len(t):
            continue
        if is_c(y):
            return place(run, t, x, t.find(chr(y.args[0])))
        if not among(run, y, t):
            return False
        return run.d_eq0(sub(where(run, t, x), where(run, t, y)))
    return run.d_eq0(sub(a, b))


def place(run, t, x, i):
    return i >= 0 and run.d_eq0(sub(where(run, t, x), C(i)))


def where(run, t, x):
    """the place of a character known to be in a table"""
    return run.facts.norm(indexof(t, x))


def equal(run, a, b):
    """equality of strings of known characters; None when one is not"""
    if not (a.op == 'text' or b.op == 'text'):
        return None
    x, y = codes(run, a), codes(run, b)
    if x is None or y is None:
        return None
    if len(x) != len(y):
        return False
    if x != y:
        run.facts.pin(x + y)
    for p, q in zip(x, y):
        if not same(run, run.facts.norm(p), run.facts.norm(q)):
            return False
    return True


def contains(run, c, x):
    """a string in a string; None when it is not known"""
    if not (c.op == 'text' or x.op == 'text'):
        return None
    xs, cs = codes(run, x), codes(run, c)
    if xs is None or cs is None:
        return None
    if len(xs) == 1 and c.op == 'c':
        return among(run, run.facts.norm(xs[0]), c.args[0])
    for i in range(len(cs) - len(xs) + 1):
        if equal(run, text(cs[i:i + len(xs)]), text(xs)) if any(not is_c(k) for k in cs[i:i + len(xs)] + xs) else cs[i:i + len(xs)] == xs:
            return True
    return False


def find(run, v, x, exc):
    """v.find(x) or v.index(x); None when it is not known"""
    if not (v.op == 'text' or x.op == 'text'):
        return None
    xs = codes(run, x)
    if xs is not None and len(xs) == 1 and v.op == 'c' and len(set(v.args[0])) == len(v.args[0]):
        c = run.facts.norm(xs[0])
        if among(run, c, v.args[0]):
            if c.op == 'codeat' and c.args[0].args[0] != v.args[0]:
                return None
            return where(run, v.args[0], c)
    else:
        vs = codes(run, v)
        if vs is None or xs is None:
            return None
        for i in range(len(vs) - len(xs) + 1):
            if all(same(run, p, q) for p, q in zip(vs[i:i + len(xs)], xs)):
                return C(i)
    if exc:
        run.throw('ValueError', 'substring not found')
    return C(-1)


def digits(run, n, base, least=1, up=False):
    """the digits of n >= 0 in base 16 or 10 as codes; None when it may have too many"""
    table = HEX if not up else HEX.upper()
    limit = None
    for k in range(1, 25):
        if run.facts.entails_ge(sub(C(base ** k - 1), n)):
            limit = k
            break
    if limit is None:
        return None
    k = 1
    while k < limit and run.d_ge(sub(n, C(base ** k))):
        k += 1
    out = []
    for i in reversed(range(max(k, least))):
        q = run.facts.norm(floordiv(n, base ** i))
        d = run.facts.norm(sub(q, scale(floordiv(q, base), base)))
        if i == k - 1:
            d = run.facts.quotients(q)
        out.append(codeat(table, d))
    return out


def number(run, cs, base):
    """int() of characters: (value, every character a digit)"""
    r = ZERO
    for c in cs:
        c = run.facts.norm(c)
        if is_c(c):
            try:
                d = C(int(chr(c.args[0]), base))
            except ValueError:
                return None
        elif c.op == 'codeat' and c.args[0].args[0] in (HEX, HEX.upper()) and base == 16:
            d = c.args[1]
        elif c.op == 'codeat' and c.args[0].args[0] in (HEX, HEX.upper()) and base == 10:
            if not run.d_ge(sub(C(9), c.args[1])):
                return None
            d = c.args[1]
        else:
            return False
        r = add(scale(r, base), d)
    return r


def unhex(run, cs):
    """the bytes some hex digits stand for; None when they are not known to be digits"""
    out = []
    if len(cs) % 2:
        return False
    for i in range(0, len(cs), 2):
        r = number(run, cs[i:i + 2], 16)
        if r is None or r is False:
            return r
        out.append(enc(1, 'le', run.facts.norm(r)))
    return cat(*out)
