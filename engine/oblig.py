"""Obligations: what the analysis compares, and how an answer is reached.

An Equiv obligation compares the table of guarded outcomes the analysis
computes for a piece of the repository with the table it computes for a
reference description (a function in /verif/specs, written from the property,
never from the code).  Both are evaluated over the same value numbers, path by
path; on every path both are feasible on, the outcomes have to agree.
"""
import time
import traceback

from .terms import *
from .objects import *
from .interp import explore, Limits, Run, MISSING
from .theory import _contains
from . import text

ANY = mk('any')         # any outcome
SOME = mk('some')       # any value, but no exception

FOREIGN = {'op', 'bmeth', 'smeth', 'imeth', 'stepslice', 'getslice', 'strget', 'deep', 'obj', 'localfn', 'unknown',
           '|', '&', '^', '>>', 'pow', 'pow2', 'div', 'fmul', 'encn', 'decn', 'str%', 'strformat', 'fstr', 'repr', 'str',
           'str+', 'strjoin', 'strrep', 'call', 'meth', 'objmeth', 'bytesof', 'trunc', 'round', 'float', 'int',
           'bit_length', '*', 'mod', 'floordiv', 'id', 'idhash', 'format', 'chr', 'ord', 'hashof', 'fmt', 'globals',
           'locals', 'ext', 'hasattr', 'callable', 'is', 'issub', 'dir', 'maketrans', 'bin'}


# a piece of something put together from parts, where the analysis could not
# tell which part it is a piece of
PIECES = {'slice', 'byte'}
COMPOSITE = {'cat', 'enc', 'rev'}


def foreign_terms(t, acc, seen):
    if t.__class__ is tuple:
        for x in t:
            foreign_terms(x, acc, seen)
        return
    if t.__class__ is not T or t in seen:
        return
    seen.add(t)
    if t.op in FOREIGN or t.op in PIECES and t.args[0].op in COMPOSITE:
        acc.add(t)
    for a in t.args:
        if a.__class__ in (T, tuple):
            foreign_terms(a, acc, seen)


def same(run, a, b, depth=0):
    """may the two value numbers be taken as equal on this path"""
    if a is b or a is ANY or b is ANY or a is SOME or b is SOME:
        return True
    if a.__class__ is not T or b.__class__ is not T:
        if a.__class__ is tuple and b.__class__ is tuple:
            return len(a) == len(b) and all(same(run, x, y, depth + 1) for x, y in zip(a, b))
        return a == b
    f = run.facts
    a, b = f.norm(a), f.norm(b)
    if a is b:
        return True
    if depth > 60:
        return False
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        if x is None or y is None:
            return x is y
        return x == y
    ints = ('int', 'uint', 'bool')
    if (a.sort in ints and b.sort in ints) or (a.op == 'lin' or b.op == 'lin'):
        if a.sort in ints + (None,) and b.sort in ints + (None,):
            q = f.query_eq0(sub(a, b))
            if q is not None:
                return q
            if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('lin', 'sym', 'c') and \
                    a.op in ('call', 'meth', 'elem', 'attr', 'byte', 'len', 'hashof', 'upd'):
                if all(same_arg(run, x, y, depth) for x, y in zip(a.args, b.args)):
                    return True
            return run.d_eq0(sub(a, b))
    if a.sort == 'bytes' and b.sort == 'bytes':
        if a.op in ('hash', 'hmac') and b.op == a.op:
            if same(run, a.args, b.args, depth + 1):
                return True
            return False
        if a.op in ('call', 'meth') and b.op == a.op and len(a.args) == len(b.args) and \
                all(same_arg(run, x, y, depth) for x, y in zip(a.args, b.args)):
            return True
        a, b = run.full(a), run.full(b)
        if a is b:
            return True
        sa, sb = segments(a), segments(b)
        if len(sa) == len(sb) and len(sa) > 1 and \
                all(x is y or (x.op == y.op and f.query_eq0(sub(length(x), length(y))) is True) for x, y in zip(sa, sb)):
            return all(same(run, x, y, depth + 1) for x, y in zip(sa, sb))
        if a.op == 'enc' and b.op == 'enc' and a.args[:2] == b.args[:2]:
            q = f.query_eq0(sub(a.args[2], b.args[2]))
            if q:
                return True
        return run.equal_bytes(a, b)
    if a.op == 'text' or b.op == 'text':
        r = text.equal(run, a, b)
        if r is not None:
            return r
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('sym', 'c'):
        return all(same_arg(run, x, y, depth) for x, y in zip(a.args, b.args))
    if a.op == 'isnone' or b.op == 'isnone':
        return False
    if (a.sort is None or b.sort is None) and ('tuple' in (a.op, b.op) or 'list' in (a.op, b.op)):
        # a symbolic sequence against its items
        for x, y in ((a, b), (b, a)):
            if y.op in ('tuple', 'list') and x.op not in ('tuple', 'list', 'c', 'inst'):
                if all(same(run, mk('elem', x, C(i)), z, depth + 1) for i, z in enumerate(y.args)):
                    q = f.query_eq0(sub(mk('len', x, sort='uint'), C(len(y.args))))
                    if q is True:
                        return True
    for x, y in ((a, b), (b, a)):
        if y.op in ('tuple', 'list') and isinstance(x.sort, tuple):
            q = f.query_eq0(sub(f.norm(mk('len', x, sort='uint')), C(len(y.args))))
            if q is True and all(same(run, run.elem(x, C(i)), z, depth + 1) for i, z in enumerate(y.args)):
                return True
    if a.op == 'inst' and b.sort is a.args[0] or b.op == 'inst' and a.sort is b.args[0]:
        x, y = (a, b) if a.op == 'inst' else (b, a)
        # an object rebuilt from all of y's fields
        return False
    return False


def same_arg(run, x, y, depth):
    if x is y:
        return True
    if x.__class__ is T and y.__class__ is T:
        return same(run, x, y, depth + 1)
    if x.__class__ is tuple and y.__class__ is tuple:
        return len(x) == len(y) and all(same_arg(run, p, q, depth) for p, q in zip(x, y))
    return x == y and type(x) is type(y)


class Out:
    """outcome of one side on one path"""
    def __init__(self, kind, val, where, exc=None):
        self.kind, self.val, self.where, self.exc = kind, val, where, exc

    def text(self):
        if self.kind == 'exc':
            return 'raises %s' % self.exc.qualname
        return 'returns %s' % show(self.val)[:600]


class Mismatch(Exception):
    def __init__(self, msg, code, spec):
        self.msg, self.code, self.spec = msg, code, spec


class Equiv:
    kind = 'equivalence'

    def __init__(self, name, code, spec, inputs, cfg=None, K=2, post=(), effects=True, compare=None, limits=None,
                 site=None, exc='sub', Kt=None, pre=None, value=None, keyed=False, need_ret=True):
        self.need_ret = need_ret
        self.keyed = keyed
        self.name, self.code, self.spec = name, code, spec
        self.inputs = inputs            # callable(run, P) -> list of args
        self.cfg = cfg or {}
        self.K = K
        self.Kt = Kt
        self.post = post                # input positions whose final state is compared
        self.effects = effects
        self.compare = compare
        self.limits = limits
        self.site = site
        self.exc = exc
        self.pre = pre
        self.value = value              # projection of the code's outcome (run, v) -> v

    def outcome(self, run, fn, P, side):
        try:
            args = self.inputs(run, P)
            if self.pre is not None:
                self.pre(run, P, args)
            run.last_args = args
            v = run.call(fn, list(args), {}) if not callable(fn) or isinstance(fn, (Func, BM)) else fn(run, P, args)
            if self.value is not None and side == 'code':
                v = self.value(run, v)
            if v.__class__ is Ref and v.kind == 'iter':
                v = run.mklist(list(run.iterate(v)))
            r = run.reify(v)
            return Out('ret', r, getattr(run, 'ret_where', None)), v, args
        except PyExc as e:
            return Out('exc', None, e.where, e.cls), None, args
        except (ReturnSig, BreakSig, ContinueSig):
            raise Undecided('stray control flow')

    def resolve(self, P, f):
        if isinstance(f, str):
            v = P.lookup(f)
            if v is None:
                raise AnchorMissing(f)
            if isinstance(v, SM):
                v = v.f
            if isinstance(v, CM):
                v = v.f
            if isinstance(v, Prop):
                v = v.fget
            return v
        return f

    def run(self, P, tier='quick'):
        res = Result(self.name)
        res.kind = self.kind
        res.need_ret = self.need_ret
        code = self.resolve(P, self.code)
        spec = self.resolve(P, self.spec)
        res.site = self.site or (self.code if isinstance(self.code, str) else getattr(code, 'qualname', self.name))
        K = self.K if tier == 'quick' or self.Kt is None else self.Kt
        cfg = dict(P.base_cfg)
        for k, v in self.cfg.items():
            if isinstance(v, dict) and isinstance(cfg.get(k), dict):
                cfg[k] = {**cfg[k], **v}
            else:
                cfg[k] = v

        def body(run):
            co, cv, cargs = self.outcome(run, code, P, 'code')
            cpost = [run.reify(cargs[i]) for i in self.post]
            ceff = snapshot(run)
            cforks = list(run.forklog)
            run.restart()
            so, sv, sargs = self.outcome(run, spec, P, 'spec')
            spost = [run.reify(sargs[i]) for i in self.post]
            seff = snapshot(run)
            sforks = run.forklog[len(cforks):]
            m = self.diff(run, co, so, cpost, spost, ceff, seff)
            run.summary = (co, so)
            if m:
                # can the difference be blamed on something the analysis does
                # not interpret?
                fc, fs = set(), set()
                seen = set()
                for t, _ in cforks:
                    for x in t[1:]:
                        foreign_terms(x, fc, seen)
                if co.kind == 'ret':
                    foreign_terms(co.val, fc, seen)
                for x in cpost:
                    foreign_terms(x, fc, seen)
                for t in eff_terms(ceff):
                    foreign_terms(t, fc, seen)
                seen = set()
                for t, _ in sforks:
                    for x in t[1:]:
                        foreign_terms(x, fs, seen)
                if so.kind == 'ret':
                    foreign_terms(so.val, fs, seen)
                for x in spost:
                    foreign_terms(x, fs, seen)
                for t in eff_terms(seff):
                    foreign_terms(t, fs, seen)
                nfs = {run.facts.norm(x) for x in fs}
                extra = {x for x in fc if x not in fs and run.facts.norm(x) not in nfs and not self.understood(P, x, cfg)
                         and not self.understood(P, run.facts.norm(x), cfg)}
                if extra:
                    x = sorted(extra, key=lambda t: t.id)[0]
                    raise Undecided('uninterpreted operation %s' % show(x)[:160])
                r = run.facts.refuted()
                if r:
                    raise CutPath('infeasible')
                if r is None:
                    raise Undecided('the conditions of a path were too many to decide')
                raise Mismatch(m, co, so)
            return 'agree'

        def guarded(run):
            try:
                return body(run)
            except Mismatch as e:
                return e
        t0 = time.monotonic()
        lim = self.limits or Limits(4000, 60 if tier == 'quick' else 240)
        for run, (st, v) in explore(P, guarded, cfg, K, lim):
            res.paths += 1
            if st == 'cut':
                res.cut += 1
            elif st == 'undecided':
                res.undecided.append(v)
            elif isinstance(v, Mismatch):
                res.violations.append(self.describe(P, run, v))
                if len(res.violations) >= 3:
                    break
            else:
                res.agree += 1
                co, so = run.summary
                key = (co.kind, so.kind)
                res.outcomes[key] = res.outcomes.get(key, 0) + 1
                if co.where:
                    res.lines.add(co.where)
                if len(res.samples) < 2:
                    res.samples.append('[%s] code %s; reference %s' % (
                        '; '.join(cond_text(f) for f in run.forklog[:6]), co.text()[:200], so.text()[:200]))
        res.wall = time.monotonic() - t0
        return res

    def understood(self, P, t, cfg):
        """operations whose meaning the rule itself fixes"""
        if t.op in self.cfg.get('understood_ops', ()):
            return True
        if t.op not in ('call', 'meth'):
            return False
        if t.args[0] in ('random.getrandbits', 'random.random', 'random.randint', 'random.randrange'):
            return True                  # an arbitrary value: any choice of it is a real run
        if str(t.args[0]).startswith('crypto '):
            return True                  # likewise
        return t.args[0] in self.cfg.get('vocabulary', ())

    def diff(self, run, co, so, cpost, spost, ceff, seff):
        if so.val is ANY and so.kind == 'ret':
            return None
        if co.kind != so.kind:
            return 'outcomes differ: the code %s, the reference %s' % (co.text(), so.text())
        if co.kind == 'exc':
            if self.exc == 'any':
                return None
            if not co.exc.issub(so.exc):
                return 'exception differs: the code %s, the reference %s' % (co.text(), so.text())
            return None
        if self.compare is not None:
            m = self.compare(run, co.val, so.val)
            if m:
                return m
        elif not same(run, co.val, so.val):
            return 'results differ: the code %s, the reference %s' % (co.text(), so.text())
        for i, (a, b) in enumerate(zip(cpost, spost)):
            if not same(run, a, b):
                return 'argument %d is left as %s, the reference leaves %s' % (self.post[i], show(a)[:400], show(b)[:400])
        if self.effects:
            for k in sorted(set(ceff) | set(seff), key=str):
                if k in ('print', 'urandom'):
                    continue
                a, b = ceff.get(k), seff.get(k)
                if not eff_same(run, a, b):
                    return 'effect %s differs: the code %s, the reference %s' % (eff_name(k), eff_text(a), eff_text(b))
        return None

    def describe(self, P, run, m):
        w = m.code.where or run.where
        path = '?'
        if w:
            f = P.files.get(w[0])
            path = '%s:%s' % (f[0] if f else w[0], w[1])
        if w is None or w[0].startswith('spec'):
            path = self.site or path
        else:
            path += ' (%s)' % self.site if self.site else ''
        key = m.code.exc.qualname if m.code.kind == 'exc' else 'value'
        return {'rule': self.name, 'at': path, 'what': m.msg, 'key': key if self.keyed else '',
                'path': [cond_text(f) for f in run.forklog]}


class AnchorMissing(Exception):
    pass


def snapshot(run):
    out = {}
    for k, v in run.effects.items():
        if isinstance(v, list):
            out[k] = tuple(run.facts.norm(x) for x in v)
        elif v.__class__ is T:
            out[k] = run.facts.norm(v)
        else:
            out[k] = v
    return out


def eff_terms(e):
    for v in e.values():
        if v.__class__ is T:
            yield v
        elif isinstance(v, tuple):
            for x in v:
                if x.__class__ is T:
                    yield x


def eff_same(run, a, b):
    if a is b:
        return True
    if a is None or b is None:
        x = a if b is None else b
        if isinstance(x, tuple):
            return len(x) == 0
        if x.__class__ is T:
            return x is EMPTY or x is ZERO
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(run, x, y) for x, y in zip(a, b))
    if a.__class__ is T and b.__class__ is T:
        return same(run, a, b)
    return a == b


def eff_name(k):
    if isinstance(k, tuple):
        return '%s of %s' % ({'out': 'bytes written to', 'pos': 'bytes read from'}.get(k[0], k[0]), show(k[1]))
    return str(k)


def eff_text(v):
    if v is None:
        return 'nothing'
    if isinstance(v, tuple):
        return '[%s]' % ', '.join(show(x)[:200] for x in v)
    return show(v)[:400] if v.__class__ is T else str(v)


def cond_text(f):
    (k, *ts), v = f
    if k == 'ge':
        s = '%s >= 0' % show(ts[0])
    elif k == 'eq0':
        s = '%s == 0' % show(ts[0])
    elif k == 'eq':
        s = '%s == %s' % (show(ts[0]), show(ts[1]))
    else:
        s = show(ts[0])
    return (s if v else 'not(%s)' % s)[:300]


class Result:
    def __init__(self, name):
        self.name = name
        self.kind = ''
        self.site = ''
        self.paths = self.cut = self.agree = 0
        self.undecided = []
        self.violations = []
        self.samples = []
        self.outcomes = {}
        self.lines = set()
        self.wall = 0.0
        self.count = 0
        self.broken = None
        self.need_ret = False

    @property
    def status(self):
        if self.violations:
            return 'violated'
        if self.undecided:
            return 'undecided'
        if self.kind == 'equivalence' and not (self.outcomes.get(('ret', 'ret')) if self.need_ret else self.agree):
            return 'empty'
        if self.kind == 'table' and not self.count:
            return 'empty'
        return 'held'


class Table:
    """a rule over the resolved program: fn(P, report) calls
    report(site, ok, message) once per instance"""
    kind = 'table'

    def __init__(self, name, fn, site='', minimum=1):
        self.name, self.fn, self.site, self.minimum = name, fn, site, minimum

    def run(self, P, tier='quick'):
        res = Result(self.name)
        res.kind = self.kind
        res.site = self.site
        t0 = time.monotonic()

        def report(site, ok, msg='', at=None, key=''):
            res.count += 1
            res.paths += 1
            if ok is None:
                res.undecided.append('%s: %s' % (site, msg))
            elif ok:
                res.agree += 1
                if len(res.samples) < 3:
                    res.samples.append('%s: %s' % (site, msg or 'ok'))
            else:
                res.violations.append({'rule': self.name, 'at': at or site, 'what': '%s: %s' % (site, msg), 'path': [], 'key': key})
        try:
            self.fn(P, report)
        except Undecided as e:
            res.undecided.append(str(e))
        if res.count < self.minimum and not res.undecided:
            res.broken = 'only %d instances, at least %d expected' % (res.count, self.minimum)
        res.wall = time.monotonic() - t0
        return res


def sym(name, sort=None):
    return mk('sym', name, sort, sort=sort)
