"""Facts of one abstract path and what follows from them.

The facts are literals over value numbers.  Linear integer facts are combined
by Fourier-Motzkin elimination with integer tightening, equalities between
value numbers by substitution, class facts by the class hierarchy.  Anything
the procedure cannot refute is taken to be possible.
"""
from math import gcd
from .terms import *

FM_LIMIT = 400


def _norm_ge(d, c):
    """d + c >= 0, integer-tightened; returns (tuple key) or True/False"""
    if not d:
        return c >= 0
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g
    return d, c


class Facts:
    def __init__(self):
        self.ge = []        # (dict, const): sum + const >= 0
        self.eq = []
        self.ne = []
        self.sub = {}
        self.memo = {}
        self.lits = {}      # atom -> bool
        self.log = []       # human readable, in order
        self.ver = 0
        self.qmemo = {}

    # -------------------------------------------------------- substitution
    def norm(self, t):
        if t.__class__ is not T or not self.sub:
            return t
        return subst(t, self.sub, self.memo)

    def _add_sub(self, old, new):
        if old is new or old in self.sub:
            return
        self.sub[old] = new
        self.memo = {}
        ge, eq, ne = self.ge, self.eq, self.ne
        self.ge, self.eq, self.ne = [], [], []
        for kind, lst in (('ge', ge), ('eq', eq), ('ne', ne)):
            for d, c in lst:
                t = self.norm(from_lin(d, c))
                d2, c2 = lin_of(t)
                if d2 or (kind == 'ge' and c2 < 0) or (kind == 'eq' and c2 != 0) or (kind == 'ne' and c2 == 0):
                    getattr(self, kind).append((d2, c2))
        lits, self.lits = self.lits, {}
        for a, v in lits.items():
            a = self.norm(a)
            if self.lits.get(a, v) != v or a.op == 'eq' and len(a.args) == 2 and a.args[0] is a.args[1] and not v:
                self.ge.append(({}, -1))
            self.lits[a] = v
        if old.op == 'slice' and new.op == 'c' and isinstance(new.args[0], bytes) and len(new.args[0]) <= 80:
            for i, k in enumerate(new.args[0]):
                b = self.norm(byte(old, C(i)))
                if not is_c(b):
                    self.assume_eq0(sub(b, C(k)), True)
                elif b.args[0] != k:
                    self.ge.append(({}, -1))
        # what is known of a term is known of the form it now takes
        one = {old: new}
        for k, v in list(self.sub.items()):
            if k is not old and any(_contains(a, old) for a in k.args if a.__class__ in (T, tuple)):
                k2, v2 = subst(k, one, {}), self.norm(v)
                if k2 is k or k2 in self.sub:
                    continue
                k3 = self.norm(k2)
                if k3 is v2 or k3.op == 'lin' or v2.op == 'lin':
                    continue
                if is_c(k3):
                    if is_c(v2):
                        if k3.args[0] != v2.args[0]:
                            self.ge.append(({}, -1))
                        continue
                    k3, v2 = v2, k3
                if not _contains(v2, k3):
                    self._add_sub(k3, v2)

    # -------------------------------------------------------- implied bounds
    def implied(self, t):
        out = []
        op = t.op
        if t.sort == 'uint':
            out.append(({t: 1}, 0))
        if op == 'byte' or op == '^' and is_byte(t):
            out.append(({t: 1}, 0))
            out.append(({t: -1}, 255))
        elif op == 'indexof':
            out.append(({t: -1}, len(t.args[0].args[0]) - 1))
        elif op in ('bit', 'xor1', 'and1'):
            out.append(({t: 1}, 0))
            out.append(({t: -1}, 1))
        elif op == '//' and isinstance(t.args[1], int):
            a, k = t.args
            d, c = lin_of(a)
            d[t] = d.get(t, 0) - k
            out.append((d, c))
            out.append(({x: -v for x, v in d.items()}, k - 1 - c))
        elif op == '^' and t.args[1].op == 'c':
            a, k = t.args
            k = int(k.args[0])
            if k >= 0 and self.entails_ge(a):
                out.append(({t: 1}, 0))
                for n in (8, 16, 32, 64):
                    m = (1 << n) - 1
                    if k <= m and self.entails_ge(sub(C(m), a)):
                        out.append(({t: -1}, m))
                        break
        elif op == 'len':
            out.append(({t: 1}, 0))
        elif op == '*':
            a, b = t.args
            if self.entails_ge(a) and self.entails_ge(b):
                out.append(({t: 1}, 0))
        elif op == 'mod' and len(t.args) == 2:
            out.append(({t: 1}, 0))
        return out

    def _component(self, seeds):
        vars_ = set()
        todo = list(seeds)
        cons = []
        used = [False] * len(self.ge)
        usede = [False] * len(self.eq)
        while todo:
            t = todo.pop()
            if t in vars_:
                continue
            vars_.add(t)
            for d, c in self.implied(t):
                cons.append((d, c))
                todo.extend(x for x in d if x not in vars_)
            for i, (d, c) in enumerate(self.ge):
                if not used[i] and (t in d or divs_over(d, t)):
                    used[i] = True
                    cons.append((d, c))
                    todo.extend(x for x in d if x not in vars_)
            for i, (d, c) in enumerate(self.eq):
                if not usede[i] and (t in d or divs_over(d, t)):
                    usede[i] = True
                    cons.append((d, c))
                    cons.append(({x: -v for x, v in d.items()}, -c))
                    todo.extend(x for x in d if x not in vars_)
        return vars_, cons

    @staticmethod
    def _fm(cons, limit=FM_LIMIT):
        """True if the constraints are unsatisfiable over the integers (as far
        as elimination shows); None if there were too many to tell"""
        cur = {}
        for d, c in cons:
            d = {k: v for k, v in d.items() if v}
            r = _norm_ge(d, c)
            if r is False:
                return True
            if r is True:
                continue
            d, c = r
            key = frozenset(d.items())
            if key not in cur or cur[key] > c:
                cur[key] = c
        while cur:
            # quick contradiction: x + c1 >= 0 and -x + c2 >= 0 with c1 + c2 < 0
            best = None
            for key, c in cur.items():
                neg = frozenset((k, -v) for k, v in key)
                if neg in cur:
                    if cur[neg] + c < 0:
                        return True
                    if cur[neg] + c == 0 and (best is None or len(key) < len(best)) and any(abs(v) == 1 for k, v in key):
                        best = key
            if best is not None:
                # an equality solved for one atom, which is replaced everywhere
                d0, c0 = dict(best), cur[best]
                var = min((k for k, v in d0.items() if abs(v) == 1), key=lambda k: k.id)
                s = -d0.pop(var)
                rest = {}
                for key, c in cur.items():
                    d = dict(key)
                    w = d.pop(var, 0)
                    if w:
                        for k, v in d0.items():
                            d[k] = d.get(k, 0) + w * s * v
                        d = {k: v for k, v in d.items() if v}
                        r = _norm_ge(d, c + w * s * c0)
                        if r is False:
                            return True
                        if r is True:
                            continue
                        d, c = r
                        key = frozenset(d.items())
                    if key not in rest or rest[key] > c:
                        rest[key] = c
                cur = rest
                continue
            occ = {}
            for key in cur:
                for k, v in key:
                    p, n = occ.get(k, (0, 0))
                    occ[k] = (p + 1, n) if v > 0 else (p, n + 1)
            var = min(occ, key=lambda k: (occ[k][0] * occ[k][1] - occ[k][0] - occ[k][1], k.id))
            pos, neg, rest = [], [], {}
            for key, c in cur.items():
                d = dict(key)
                v = d.get(var, 0)
                if v > 0:
                    pos.append((d, c, v))
                elif v < 0:
                    neg.append((d, c, -v))
                else:
                    rest[key] = c
            if len(pos) * len(neg) + len(rest) > limit:
                return None
            for d1, c1, v1 in pos:
                for d2, c2, v2 in neg:
                    d = {}
                    for k, v in d1.items():
                        if k is not var:
                            d[k] = v * v2
                    for k, v in d2.items():
                        if k is not var:
                            d[k] = d.get(k, 0) + v * v1
                    d = {k: v for k, v in d.items() if v}
                    r = _norm_ge(d, c1 * v2 + c2 * v1)
                    if r is False:
                        return True
                    if r is True:
                        continue
                    d, c = r
                    key = frozenset(d.items())
                    if key not in rest or rest[key] > c:
                        rest[key] = c
            cur = rest
        return False

    @staticmethod
    def _intervals(cons, rounds=4):
        """constant bounds (lo, hi) of single atoms, by integer propagation; None
        if the constraints are contradictory"""
        lo, hi = {}, {}
        for _ in range(rounds):
            changed = False
            for d, c in cons:
                # sum v*x + c >= 0; the largest value of the others bounds x
                tot, inf = c, None
                for x, v in d.items():
                    b = hi.get(x) if v > 0 else lo.get(x)
                    if b is None:
                        if inf is not None:
                            inf = False
                            break
                        inf = x
                    else:
                        tot += v * b
                if inf is False:
                    continue
                if inf is None and tot < 0:
                    return None
                for x, v in d.items():
                    if inf is not None and x is not inf:
                        continue
                    b = hi.get(x) if v > 0 else lo.get(x)
                    rest = tot - (v * b if inf is None else 0)
                    if v > 0:
                        n = -(rest // v)
                        if x not in lo or lo[x] < n:
                            lo[x] = n
                            changed = True
                    else:
                        n = rest // -v
                        if x not in hi or hi[x] > n:
                            hi[x] = n
                            changed = True
            if not changed:
                break
        for x, b in lo.items():
            if x in hi and hi[x] < b:
                return None
        return lo, hi

    @staticmethod
    def _bounds(cons):
        r = Facts._intervals(cons)
        if r is None:
            return None
        return [({x: 1}, -b) for x, b in r[0].items()] + [({x: -1}, b) for x, b in r[1].items()]

    def quotients(self, t):
        """t with the quotients replaced whose value the facts determine"""
        t = self.norm(t)
        for x in lin_of(t)[0]:
            if x.op == '//' and isinstance(x.args[1], int):
                if self.qmemo.get(x) == self.ver:
                    continue
                r = self._intervals(self._component([x])[1])
                if r is not None and x in r[0] and r[0][x] == r[1].get(x):
                    self.assume_eq0(sub(x, C(r[0][x])), True)
                    t = self.norm(t)
                    continue
                if r is not None and x in r[0] and x in r[1] and r[1][x] - r[0][x] <= 2:
                    # the bounds are close: do the sums say which it is
                    v = r[0][x] if self.infeasible([({x: 1}, -r[0][x] - 1)]) else \
                        r[1][x] if self.infeasible([({x: -1}, r[1][x] - 1)]) else None
                    if v is not None:
                        self.assume_eq0(sub(x, C(v)), True)
                        t = self.norm(t)
                        continue
                d, c = lin_of(x.args[0])
                if any(y.op == '//' for y in d):
                    # the quotient of a remainder
                    k = x.args[1]
                    if self.infeasible([({y: -v for y, v in d.items()}, -c - 1)]) and self.infeasible([(dict(d), c - k)]):
                        self.assume_eq0(x, True)
                        t = self.norm(t)
                        continue
                self.qmemo[x] = self.ver
        return t

    def pin(self, terms):
        """note the bytes in these terms whose value the bounds determine"""
        todo, seen = list(terms), set()
        while todo:
            t = todo.pop()
            if t.__class__ is not T or t in seen:
                continue
            seen.add(t)
            if t.op == 'byte':
                if self.qmemo.get(t) == self.ver:
                    continue
                r = self._intervals(self._component([t])[1])
                if r is not None and t in r[0] and r[0][t] == r[1].get(t):
                    self.assume_eq0(sub(t, C(r[0][t])), True)
                else:
                    self.qmemo[t] = self.ver
            elif t.op == 'lin':
                todo.extend(lin_of(t)[0])
            elif t.op != 'c':
                todo.extend(t.args)

    def infeasible(self, extra, depth=2):
        seeds = set()
        for d, c in extra:
            seeds |= set(d)
        vars_, cons = self._component(seeds)
        cons = cons + list(extra)
        b = self._bounds(cons)
        if b is None:
            return True
        cons = cons + b
        if self._fm(cons):
            return True
        if depth:
            for d, c in self.ne:
                if d and all(k in vars_ for k in d):
                    # split the disequality
                    if (self._fm(cons + [(d, c - 1)]) and
                            self._fm(cons + [({k: -v for k, v in d.items()}, -c - 1)])):
                        return True
        return False

    def refuted(self):
        """are the facts as a whole contradictory; None: too many to tell"""
        for a, v in self.lits.items():
            # told apart as wholes, but alike in every byte
            if not v and a.op == 'eq' and len(a.args) == 2 and a.args[0].__class__ is T and a.args[1].__class__ is T:
                for p, q in (a.args, a.args[::-1]):
                    if q.op == 'c' and isinstance(q.args[0], bytes) and p.op in ('slice', 'sym') and len(q.args[0]) <= 80 and \
                            all(self.query_eq0(sub(self.norm(byte(p, C(i))), C(k))) is True for i, k in enumerate(q.args[0])):
                        return True
        atoms = set()
        for l in (self.ge, self.eq, self.ne):
            for d, c in l:
                atoms |= set(d)
        todo, out = set(atoms), False
        while todo:
            vars_, cons = self._component([min(todo, key=lambda k: k.id)])
            todo -= vars_
            b = self._bounds(cons)
            if b is None:
                return True
            r = self._fm(cons + b, 4000)
            if r:
                return True
            if r is None:
                out = None
        return out

    def entails_ge(self, t):
        t = self.quotients(t)
        d, c = lin_of(t)
        if not d:
            return c >= 0
        return self.infeasible([({k: -v for k, v in d.items()}, -c - 1)])

    def entails_eq(self, t):
        t = self.quotients(t)
        d, c = lin_of(t)
        if not d:
            return c == 0
        return self.entails_ge(t) and self.entails_ge(scale(t, -1))

    def entails_ne(self, t):
        t = self.quotients(t)
        d, c = lin_of(t)
        if not d:
            return c != 0
        g = 0
        for v in d.values():
            g = gcd(g, v)
        if g > 1 and c % g:
            return True
        for d2, c2 in self.ne:
            if (d2 == d and c2 == c) or (c2 == -c and d2 == {k: -v for k, v in d.items()}):
                return True
        return self.infeasible([(d, c), ({k: -v for k, v in d.items()}, -c)])

    # -------------------------------------------------------- queries
    def query_ge(self, t):
        """truth of t >= 0, or None"""
        t = self.quotients(t)
        d, c = lin_of(t)
        if not d:
            return c >= 0
        if self.infeasible([(d, c)]):
            return False
        if self.infeasible([({k: -v for k, v in d.items()}, -c - 1)]):
            return True
        return None

    def query_eq0(self, t):
        t = self.quotients(t)
        d, c = lin_of(t)
        if not d:
            return c == 0
        if self.entails_ne(t):
            return False
        if self.entails_eq(t):
            return True
        return None

    def assume_ge(self, t, val):
        t = self.norm(t)
        d, c = lin_of(t)
        if not val:
            d, c = {k: -v for k, v in d.items()}, -c - 1
        r = _norm_ge(d, c)
        if r is True:
            return
        if r is False:
            self.ge.append(({}, c))
            return
        self.ge.append(r)
        self.ver += 1
        if len(r[0]) == 1:
            (x, v), = r[0].items()
            # the bounds meet: the value is known
            if abs(v) == 1 and self.entails_ge(from_lin({x: -v}, -r[1])):
                self.assume_eq0(from_lin(r[0], r[1]), True)

    def assume_eq0(self, t, val):
        t = self.norm(t)
        d, c = lin_of(t)
        g = 0
        for v in d.values():
            g = gcd(g, v)
        if g > 1 and c % g == 0:
            d, c = {k: v // g for k, v in d.items()}, c // g
        if not val:
            if len(d) == 2 and all(k.op in ('bit', 'xor1', 'and1') for k in d):
                # two different bits: one is not the other
                (x, v), (y, w) = d.items()
                if abs(v) == 1 and abs(w) == 1 and c in (0, 1, -1):
                    if v == -w and c == 0:
                        return self.assume_eq0(from_lin({x: 1, y: 1}, -1), True)
                    if v == w and c == -v:
                        return self.assume_eq0(from_lin({x: 1, y: -1}, 0), True)
            if len(d) == 1 or any(k.op == '//' for k in d):
                t = from_lin(d, c)
                if self.entails_ge(t):
                    self.assume_ge(sub(t, C(1)), True)
                elif self.entails_ge(scale(t, -1)):
                    self.assume_ge(sub(scale(t, -1), C(1)), True)
            self.ne.append((d, c))
            self.ver += 1
            return
        # solve for an atom with unit coefficient, preferring simple atoms
        best = None
        for k, v in d.items():
            if abs(v) == 1 and (k.op != '//' or len(d) == 1):
                occurs = any(_contains(o, k) for o in d if o is not k)
                if not occurs:
                    # prefer eliminating the most recent atom
                    if best is None or k.id > best.id:
                        best = k
        self.ver += 1
        if best is not None:
            v = d[best]
            rest = {k: (-w if v == 1 else w) for k, w in d.items() if k is not best}
            val_t = from_lin(rest, -c if v == 1 else c)
            # keep the bounds the eliminated atom carried
            imp = self.implied(best)
            self._add_sub(best, val_t)
            for dd, cc in imp:
                t2 = self.norm(from_lin(dd, cc))
                d3, c3 = lin_of(t2)
                if d3:
                    self.ge.append((d3, c3))
                elif c3 < 0:
                    self.ge.append(({}, c3))
        else:
            self.eq.append((d, c))

    def query_eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if is_c(a) and is_c(b):
            return a.args[0] == b.args[0]
        key = mk('eq', a, b) if a.id < b.id else mk('eq', b, a)
        return self.lits.get(key)

    def assume_eq(self, a, b, val):
        a, b = self.norm(a), self.norm(b)
        self.ver += 1
        if not val:
            key = mk('eq', a, b) if a.id < b.id else mk('eq', b, a)
            self.lits[key] = False
            return
        # orient: constants are representatives, otherwise the older term
        if is_c(a):
            old, new = b, a
        elif is_c(b):
            old, new = a, b
        elif _contains(a, b):
            old, new = a, b
        elif _contains(b, a):
            old, new = b, a
        elif a.id < b.id:
            old, new = b, a
        else:
            old, new = a, b
        if _contains(new, old):
            key = mk('eq', a, b) if a.id < b.id else mk('eq', b, a)
            self.lits[key] = True
            return
        lo, ln = None, None
        if old.sort in ('bytes', 'str') or new.sort in ('bytes', 'str'):
            lo, ln = length(old), length(new)
        self._add_sub(old, new)
        if lo is not None and lo is not ln:
            t = sub(self.norm(lo), self.norm(ln))
            if lin_of(t)[0]:
                self.assume_eq0(t, True)
            elif lin_of(t)[1] != 0:
                self.ge.append(({}, -1))

    def query_lit(self, atom):
        return self.lits.get(self.norm(atom))

    def assume_lit(self, atom, val):
        atom = self.norm(atom)
        self.lits[atom] = val
        self.ver += 1
        if atom.op == 'truth' and atom.args[0].__class__ is T and atom.args[0].sort == 'bool' and not is_c(atom.args[0]):
            self._add_sub(atom.args[0], C(val))

    def contradictory(self):
        for d, c in self.ge:
            if not d and c < 0:
                return True
        for d, c in self.eq:
            if not d and c != 0:
                return True
        for d, c in self.ne:
            if not d and c == 0:
                return True
        return False


def divs_over(d, t):
    """does a quotient among these atoms have t in its dividend"""
    for x in d:
        if x.op == '//' and isinstance(x.args[1], int):
            e = lin_of(x.args[0])[0]
            if t in e or divs_over(e, t):
                return True
    return False


def _contains(t, x):
    if t is x:
        return True
    if t.__class__ is tuple:
        return any(_contains(a, x) for a in t)
    if t.__class__ is not T:
        return False
    for a in t.args:
        if a.__class__ in (T, tuple) and _contains(a, x):
            return True
    return False
