"""Abstract interpreter for the repository's Python source.

Nothing of the repository is executed: the syntax trees are walked over value
numbers (terms.py).  Branches whose condition the facts of the current path do
not decide split the path (trace partitioning); explore() enumerates the
partition by replaying with the next unexplored decision flipped.  Loops over
unknown sequences are split by the sequence's length, up to a bound per rule.
"""
import ast
import time
import os
import re
import builtins as _b
import warnings

from . import text
from .terms import *
from .theory import Facts, _contains
from .objects import *

MISSING = object()


# ------------------------------------------------------------------ scopes
class _ScopeVisitor(ast.NodeVisitor):
    def __init__(self):
        self.bound, self.globals, self.nonlocals = set(), set(), set()
        self.isgen = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.bound.add(n.name)
        for d in n.decorator_list + n.bases:
            self.visit(d)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)

    def _comp(self, n):
        # only the walrus leaks out of a comprehension; yields inside are errors
        for sub in ast.walk(n):
            if isinstance(sub, ast.NamedExpr):
                self.bound.add(sub.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name != '*':
                self.bound.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.isgen = True
        self.generic_visit(n)
    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.bound.add(n.name)


_codes = {}


def code_of(node):
    c = _codes.get(node)
    if c is None:
        v = _ScopeVisitor()
        if isinstance(node, ast.Lambda):
            v.visit(node.body)
        else:
            for s in node.body:
                v.visit(s)
        if not isinstance(node, (ast.ClassDef, ast.Module)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                v.bound.add(x.arg)
            if a.vararg:
                v.bound.add(a.vararg.arg)
            if a.kwarg:
                v.bound.add(a.kwarg.arg)
        v.bound -= v.globals | v.nonlocals
        c = _codes[node] = Code(v.bound, v.globals, v.nonlocals, v.isgen)
    return c


# ------------------------------------------------------------------ program
class Lazy:
    """a name outside the repository, standing for something of a reference module"""
    def __init__(self, make):
        self.make = make


class Program:
    def __init__(self, roots, scripts=()):
        """roots: list of directories in which packages are found;
        scripts: dict module name -> path"""
        self.roots = roots
        self.scripts = dict(scripts)
        self.modules = {}
        self.base = {}          # heap after loading
        self.nid = 0
        self.builtin_classes = {}
        self.ext_classes = {}
        self.loading = False
        self.files = {}
        self.problems = []
        self.models = {}
        self.ext_models = {}
        self.ext_consts = {}
        self.fields_cache = {}
        self.slots_cache = {}
        self._mk_builtins()
        from . import models
        models.install(self)

    def new_id(self):
        self.nid += 1
        return self.nid

    # builtin classes mirror the host's class hierarchy
    def bclass(self, host):
        c = self.builtin_classes.get(host)
        if c is None:
            bases = [self.bclass(b) for b in host.__bases__] if host is not object else []
            ref = Ref(self.new_id(), 'ns')
            self.base[ref.id] = NS()
            c = ClassObj(host.__name__, host.__name__, bases, ref, builtin=host)
            self.builtin_classes[host] = c
        return c

    def _mk_builtins(self):
        for n in dir(_b):
            v = getattr(_b, n)
            if isinstance(v, type):
                self.bclass(v)
        self.bclass(type(None))
        self.bclass(type(lambda: 0))
        self.bclass(type(os))

    def ext_class(self, dotted, base='object'):
        c = self.ext_classes.get(dotted)
        if c is None:
            ref = Ref(self.new_id(), 'ns')
            self.base[ref.id] = NS()
            b = base if isinstance(base, ClassObj) else self.bclass(getattr(_b, base))
            c = ClassObj(dotted.split('.')[-1], dotted, [b], ref, module=None)
            c.ext = True
            self.ext_classes[dotted] = c
        return c

    def find_module(self, name):
        if name in self.scripts:
            return self.scripts[name]
        rel = name.replace('.', '/')
        for r in self.roots:
            for cand in (rel + '/__init__.py', rel + '.py'):
                p = os.path.join(r, cand)
                if os.path.isfile(p):
                    return p
        return None

    def load(self, names):
        run = Run(self, loading=True)
        self.load_run = run
        for n in names:
            run.import_module(n)
        self.loading = False
        return self

    def cls(self, dotted):
        """class object by module-qualified name"""
        return self.lookup(dotted)

    def lookup(self, dotted):
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            m = self.modules.get('.'.join(parts[:i]))
            if m is not None:
                v = m
                for p in parts[i:]:
                    ns = self.base[v.ns.id].d if isinstance(v, (Mod, ClassObj)) else {}
                    if p not in ns:
                        return None
                    v = ns[p]
                return v
        return None


EXC_SORTS = ('int', 'uint', 'bool', 'float')


class Run:
    """one abstract execution; decisions are replayed from a prefix"""

    def __init__(self, prog, prefix=(), loading=False, K=2, cfg=None):
        self.prog = prog
        self.loading = loading
        self.prefix = list(prefix)
        self.trace = list(prefix)
        self.pos = 0
        self.facts = Facts()
        self.heap = {}
        self.symattrs = {}
        self.symitems = {}
        self.symrefs = {}
        self.effects = {}
        self.K = K
        self.cfg = cfg or {}
        self.opaque = self.cfg.get('opaque', {})
        self.steps = 0
        self.max_steps = self.cfg.get('max_steps', 600000)
        self.nforks = 0
        self.depth = 0
        self.where = None
        self.stack = []
        self.trys = []
        self.counter = 0
        self.forklog = []
        self.used_opaque = set()
        self.invs = set()

    # reset everything but the facts (second half of a joint run)
    def restart(self):
        self.heap = {}
        self.symattrs = {}
        self.symitems = {}
        self.symrefs = {}
        self.effects = {}
        self.stack = []
        self.trys = []
        self.depth = 0
        self.counter = 0

    # -------------------------------------------------------------- heap
    def alloc(self, obj, kind):
        r = Ref(self.prog.new_id() if self.loading else self._rid(), kind)
        if self.loading:
            self.prog.base[r.id] = obj
        else:
            self.heap[r.id] = obj
        return r

    def _rid(self):
        self.counter += 1
        return -self.counter - self.cfg.get('_epoch', 0)

    def get(self, ref):
        o = self.heap.get(ref.id)
        if o is None:
            o = self.prog.base[ref.id]
        return o

    def mut(self, ref):
        if self.loading:
            return self.prog.base[ref.id]
        o = self.heap.get(ref.id)
        if o is None:
            o = self.heap[ref.id] = self.prog.base[ref.id].copy()
        return o

    def mklist(self, items):
        return self.alloc(LST(items), 'list')

    # -------------------------------------------------------------- decisions
    def choose(self, text):
        if self.loading:
            raise Undecided('branch on %s while importing' % (show(text[1]),))
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.trace.append(True)
        self.pos += 1
        self.nforks += 1
        self.forklog.append((text, v))
        return v

    def d_ge(self, t):
        """decide t >= 0"""
        r = self.facts.query_ge(t)
        if r is None:
            bl = self._bit_length(t)
            if bl is not None:
                return bl
            r = self.choose(('ge', t))
            self.facts.assume_ge(t, r)
        return r

    def _bit_length(self, t):
        """decide t >= 0 for t = +-bit_length(x) + constant by the magnitude of x; None: not of that form"""
        d, c = lin_of(t)
        if len(d) != 1:
            return None
        (a, k), = d.items()
        if a.op != 'bit_length' or k not in (1, -1):
            return None
        x, n = a.args[0], (-c if k == 1 else c + 1)      # bit_length(x) >= n, or not
        if n <= 0:
            big = True
        elif n > 4096:
            return None
        else:
            big = self.d_ge(sub(x, C(1 << (n - 1)))) or self.d_ge(sub(C(-(1 << (n - 1))), x))
        return big if k == 1 else not big

    def d_bits(self, t):
        """decide t == 0 for a sum of single bits, bit by bit from the lowest; None: not of that form"""
        t = self.facts.norm(t)
        d, c = lin_of(t)
        if not d or not all(a.op in ('bit', 'xor1', 'and1') for a in d):
            return None
        if len(d) == 1:
            (a, v), = d.items()
            if a.op == 'bit':
                return None
            if c not in (0, -v):
                return False
            x, y = a.args
            if a.op == 'xor1':
                r = not self.d_eq0(sub(x, y))
            else:
                r = not self.d_eq0(x) and not self.d_eq0(y)
            self.facts.assume_eq0(sub(a, C(int(r))), True)
            return r == (c != 0)
        low = min(abs(v) & -abs(v) for v in d.values())
        part = {a: v for a, v in d.items() if abs(v) & -abs(v) == low}
        if len(part) == len(d):
            return None
        k = c % (2 * low)
        if k % low:
            return False
        for c0 in (k, k - 2 * low):
            lo, hi = span(part, c0)
            if -2 * low < lo and hi < 2 * low:
                break
        else:
            return None
        rest = {a: v for a, v in d.items() if a not in part}
        return self.d_eq0(from_lin({a: v // low for a, v in part.items()}, c0 // low)) and self.d_eq0(from_lin(rest, c - c0))

    def bitwise(self, op, a, b):
        """and, or, exclusive or of two numbers made of single bits; None: not of that form"""
        x, y = bits_of(a), bits_of(b)
        if x is None or y is None:
            return None
        r = ZERO
        for k in set(x) | set(y):
            p, q = x.get(k, ZERO), y.get(k, ZERO)
            v = and1(p, q) if op == 'BitAnd' else xor1(p, q) if op == 'BitXor' else sub(add(p, q), and1(p, q))
            r = add(r, scale(v, 1 << k))
        return r

    def digits(self, t):
        """a number made of bytes at distinct places: {place: byte term}, or None"""
        d, c = lin_of(t)
        out = {}
        for a, v in d.items():
            if not is_byte(a):
                return None
            k = (abs(v).bit_length() - 1) // 8
            if v != 256 ** k or k in out:
                return None
            out[k] = a
        if c < 0:
            return None
        for k in range((c.bit_length() + 7) // 8):
            if c >> 8 * k & 255:
                if k in out:
                    return None
                out[k] = C(c >> 8 * k & 255)
        return out

    def d_eq0(self, t):
        r = self.facts.query_eq0(t)
        if r is None:
            r = self.d_bits(t)
            if r is not None:
                return r
            r = self.choose(('eq0', t))
            self.facts.assume_eq0(t, r)
            if self.facts.contradictory():
                raise CutPath('infeasible')
        return r

    def d_lit(self, atom):
        r = self.facts.query_lit(atom)
        if r is None:
            r = self.choose(('lit', atom))
            self.facts.assume_lit(atom, r)
        return r

    def d_eq(self, a, b):
        """decide equality of two non-numeric value numbers"""
        r = self.facts.query_eq(a, b)
        if r is None:
            r = self.choose(('eq', a, b))
            self.facts.assume_eq(a, b, r)
            if self.facts.contradictory():
                raise CutPath('infeasible')
        return r

    # -------------------------------------------------------------- classes
    def B(self, host):
        return self.prog.builtin_classes[host]

    _host = {'int': int, 'uint': int, 'bool': bool, 'str': str, 'bytes': bytes, 'none': type(None), 'float': float,
             'list': list, 'tuple': tuple, 'dict': dict, 'stack': list}

    def type_of(self, v):
        """class object of a value, or None when unknown"""
        if v.__class__ is T:
            s = v.sort
            if s is None:
                k = self.facts.lits
                for a, val in list(k.items()):
                    if val and a.op == 'isexact' and a.args[0] is self.facts.norm(v):
                        return a.args[1]
                return None
            if isinstance(s, ClassObj):
                return s
            if isinstance(s, tuple):
                s = {'list': 'list', 'tuple': 'tuple', 'stack': 'list'}.get(s[0], s[0])
            h = self._host.get(s)
            return self.B(h) if h is not None else None
        if v.__class__ is Ref:
            o = self.get(v)
            if isinstance(o, INST):
                return o.cls
            h = {'list': list, 'dict': dict, 'set': set, 'bytearray': bytearray}.get(v.kind)
            if v.kind == 'set' and o.frozen:
                h = frozenset
            return self.B(h) if h else self.B(object)
        if v.__class__ is Tup:
            return self.B(tuple)
        if v.__class__ is SliceV:
            return self.B(slice)
        if isinstance(v, ClassObj):
            return self.B(type)
        if isinstance(v, Mod):
            return self.B(type(os))
        return self.B(type(lambda: 0))

    def cls_lookup(self, cls, name):
        for c in cls.mro:
            d = self.get(c.ns).d
            if name in d:
                return d[name]
        return MISSING

    def user_method(self, v, name):
        """method `name` defined in the repository for v's class, or None"""
        ty = self.type_of(v)
        if ty is None or ty.builtin is not None:
            return None
        a = self.cls_lookup(ty, name)
        if isinstance(a, Builtin) and getattr(a, 'isdesc', False):
            return Builtin(a.name, lambda run, x, k: a.fn(run, [v] + list(x), k))
        if a is MISSING or isinstance(a, Builtin):
            return None
        return self.bind(a, v, ty)

    def bind(self, a, obj, cls):
        if isinstance(a, Func):
            return BM(a, obj)
        if isinstance(a, CM):
            return BM(a.f, cls)
        if isinstance(a, SM):
            return a.f
        if isinstance(a, Prop):
            if a.fget is None:
                self.throw('AttributeError', 'unreadable attribute')
            return self.call(a.fget, [obj], {})
        if isinstance(a, Builtin) and getattr(a, 'isdesc', False):
            return BM(a, obj)
        return a

    def slots(self, cls):
        """the only attributes objects of cls can have; None: any"""
        r = self.prog.slots_cache.get(cls, MISSING)
        if r is not MISSING or self.loading:
            return None if self.loading else r
        r = set()
        for c in cls.mro:
            if c.builtin is object:
                continue
            sl = self.get(c.ns).d.get('__slots__') if c.node is not None else None
            if sl is None:
                r = None
                break
            try:
                names = [x.args[0] for x in ([sl] if sl.__class__ is T and sl.sort == 'str' else list(self.iterate(sl)))]
            except (Undecided, AttributeError, IndexError):
                r = None
                break
            for n in names:
                if n.__class__ is not str or n == '__dict__':
                    r = None
                    break
                r.add('_%s%s' % (c.name.lstrip('_'), n) if n.startswith('__') and not n.endswith('__') else n)
            if r is None:
                break
        self.prog.slots_cache[cls] = r
        return r

    def fields(self, cls):
        """instance attributes the source shows objects of cls to have"""
        r = self.prog.fields_cache.get(cls)
        if r is None:
            r = set()
            for c in cls.mro:
                d = self.get(c.ns).d
                sl = d.get('__slots__')
                if sl is not None:
                    try:
                        for x in ([sl] if sl.__class__ is T else list(self.iterate(sl))):
                            n = x.args[0]
                            if n.startswith('__') and not n.endswith('__'):
                                n = '_%s%s' % (c.name.lstrip('_'), n)
                            r.add(n)
                    except Undecided:
                        pass
                sa = d.get('SERIALIZED_ATTRS')
                if sa is not None:
                    for x in self.iterate(sa):
                        r.add(x.items[0].args[0])
                if c.node is not None:
                    for n in ast.walk(c.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                isinstance(n.value, ast.Name) and n.value.id == 'self':
                            a = n.attr
                            if a.startswith('__') and not a.endswith('__'):
                                a = '_%s%s' % (c.name.lstrip('_'), a)
                            r.add(a)
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                                n.func.attr == '__setattr__' and len(n.args) == 3 and \
                                isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                            r.add(n.args[1].value)
            if not self.loading:
                self.prog.fields_cache[cls] = r
        return r

    # -------------------------------------------------------------- exceptions
    def exc_class(self, name):
        if isinstance(name, ClassObj):
            return name
        return self.B(getattr(_b, name))

    def throw(self, cls, msg=''):
        cls = self.exc_class(cls)
        o = INST(cls)
        o.attrs['args'] = Tup([C(msg)])
        raise PyExc(self.alloc(o, 'inst'), cls, self.here())

    def here(self):
        return self.where

    # -------------------------------------------------------------- truth
    def truth(self, v):
        if v.__class__ is T:
            if v.op == 'c':
                return bool(v.args[0])
            if self.facts.sub:
                v = self.facts.norm(v)
                if v.op == 'c':
                    return bool(v.args[0])
            s = v.sort
            if v.op == 'b01':
                return not self.d_eq0(v.args[0])
            if s in ('int', 'uint', 'float'):
                return not self.d_eq0(v)
            if s in ('bytes', 'str') or (isinstance(s, tuple)):
                return self.d_ge(sub(self.len_(v), C(1)))
            if s == 'none':
                return False
            if isinstance(s, ClassObj):
                return self._inst_truth(v, s)
            if v.op in ('ext', 'py'):
                return True
            return self.d_lit(mk('truth', v))
        if v.__class__ is Tup:
            return len(v.items) > 0
        if v.__class__ is Ref:
            o = self.get(v)
            if isinstance(o, LST):
                if o.items:
                    return True
                return self.d_ge(sub(self.len_(v), C(1)))
            if isinstance(o, (DCT, SET)):
                return len(o.items) > 0
            if isinstance(o, BAR):
                return self.d_ge(sub(length(o.data), C(1)))
            if isinstance(o, INST):
                return self._inst_truth(v, o.cls)
            return True
        return True

    def _inst_truth(self, v, cls):
        m = self.user_method(v, '__bool__')
        if m is not None:
            return self.truth(self.call(m, [], {}))
        m = self.user_method(v, '__len__')
        if m is not None:
            return self.truth(self.call(m, [], {}))
        p = self.unwrap(v)
        if p is not v:
            return self.truth(p)
        if v.__class__ is T and cls.builtin_base() in (bytes, str, tuple, list):
            return self.d_ge(sub(self.len_(v), C(1)))
        if v.__class__ is T and cls.builtin_base() is int:
            return not self.d_eq0(v)
        return True

    # -------------------------------------------------------------- sorts
    def unwrap(self, v):
        """payload of an instance of a builtin subclass"""
        while v.__class__ is Ref and v.kind == 'inst':
            o = self.get(v)
            if o.payload is None:
                return v
            v = o.payload
        return v

    def is_int(self, v):
        if v.__class__ is T:
            s = v.sort
            if s in EXC_SORTS:
                return True
            if isinstance(s, ClassObj):
                return s.builtin_base() in (int, float)
            return v.op == 'ext' and False
        return False

    def is_bytes(self, v):
        if v.__class__ is T:
            s = v.sort
            return s == 'bytes' or (isinstance(s, ClassObj) and s.builtin_base() is bytes)
        return False

    def is_str(self, v):
        return v.__class__ is T and (v.sort == 'str' or (isinstance(v.sort, ClassObj) and v.sort.builtin_base() is str))

    def bytes_of(self, v):
        """bytes value number of a bytes-like value, or None"""
        v = self.unwrap(v)
        if v.__class__ is Ref and v.kind == 'bytearray':
            return self.get(v).data
        if v.__class__ is T and (self.is_bytes(v) or v.sort is None):
            return self.facts.norm(v)
        return None

    def int_of(self, v):
        v = self.unwrap(v)
        if v.__class__ is T:
            return self.facts.norm(v)
        raise Undecided('integer expected, got %r' % (v,))

    # -------------------------------------------------------------- reify
    def reify(self, v, depth=0):
        """value number describing a value's current contents"""
        if depth > 40:
            return mk('deep')
        d = depth + 1
        if v.__class__ is T:
            v = self.facts.norm(v)
            if v in self.symrefs and self.symrefs[v].kind == 'list':
                o = self.get(self.symrefs[v])
                if o.dirty:
                    return self.reify(self.symrefs[v], d)
            if v in self.symattrs or v in self.symitems:
                at = tuple(sorted(((k, self.reify(x, d) if x is not MISSING else mk('deleted'))
                                   for k, x in self.symattrs.get(v, {}).items()
                                   if not self.ignored_attr(k)), key=lambda kv: kv[0]))
                it = self.symitems.get(v)
                its = ()
                if it:
                    its = tuple(sorted(((k, self.reify(x, d) if x is not MISSING else mk('deleted'))
                                        for k, x in it.items()), key=lambda kv: kv[0].id))
                # updates that restate the base value are no updates
                at = tuple((k, x) for k, x in at if x is not self.facts.norm(mk('attr', v, k)))
                if at or its:
                    return mk('upd', v, at, its)
                return v
            return v
        if v.__class__ is Tup:
            return mk('tuple', *[self.reify(x, d) for x in v.items])
        if v.__class__ is Ref:
            o = self.get(v)
            if isinstance(o, LST):
                if o.origin is not None and not o.dirty:
                    return self.facts.norm(o.origin)
                items = [self.reify(x, d) for x in o.items]
                if o.origin is not None and not o.base:
                    og = self.facts.norm(o.origin)
                    n = self.facts.norm(mk('len', og, sort='uint'))
                    if is_c(n) and n.args[0] == len(items) and \
                            all(x is self.facts.norm(self.elem(og, C(i))) for i, x in enumerate(items)):
                        return og
                if o.base is not None:
                    # put back items merely looked at
                    pop = o.popped
                    while items and pop > 0 and items[0] is self.facts.norm(mk('fromend', self.facts.norm(o.base), pop)):
                        items.pop(0)
                        pop -= 1
                    return mk('list+', self.facts.norm(o.base), pop, *items)
                return mk('list', *items)
            if isinstance(o, DCT):
                return mk('dict', *[mk('kv', self.reify(k, d), self.reify(x, d)) for k, x in o.items])
            if isinstance(o, SET):
                return mk('set', *sorted((self.reify(x, d) for x in o.items), key=lambda t: t.id))
            if isinstance(o, INST):
                p = self.reify(o.payload, d) if o.payload is not None else NONE
                if o.payload is not None and not o.attrs and False:
                    return p
                at = tuple(sorted(((k, self.reify(x, d)) for k, x in o.attrs.items() if not self.ignored_attr(k)),
                                  key=lambda kv: kv[0]))
                return mk('inst', o.cls, p, at)
            if isinstance(o, BAR):
                return mk('bytearray', self.facts.norm(o.data))
            if isinstance(o, BIO):
                return mk('stream', self.facts.norm(o.data), o.pos)
            if isinstance(o, HSH):
                return mk('hasher', o.alg, self.facts.norm(o.data))
            if isinstance(o, ITR):
                items = list(self.iterate(v))
                return mk('list', *[self.reify(x, d) for x in items])
            return mk('obj', v.kind)
        if isinstance(v, BM):
            return mk('bm', self.reify(v.func, d), self.reify(v.self_, d))
        if isinstance(v, Func):
            if '<locals>' in v.qualname or v.name == '<lambda>':
                return mk('localfn')
            return mk('py', v)
        if isinstance(v, SliceV):
            return mk('sliceobj', *[self.reify(x, d) for x in (v.lo, v.hi, v.step)])
        if isinstance(v, (CM, SM)):
            return mk('wrapfn', self.reify(v.f, d))
        if isinstance(v, Prop):
            return mk('prop')
        return mk('py', v)

    def ignored_attr(self, k):
        return k in self.cfg.get('ignore_attrs', ()) or k.startswith('_cached')

    # -------------------------------------------------------------- symbolic sequences
    def elem(self, base, i):
        s = base.sort
        es = None
        if isinstance(s, tuple) and len(s) > 1:
            es = s[1]
        if es == 'bytes' and False:
            pass
        return mk('elem', base, i, sort=es)

    def symlen(self, t):
        """number of items of a symbolic sequence, split into 0..K"""
        n = self.facts.norm(self.len_(t))
        if is_c(n):
            if n.args[0] > 5000:
                raise Undecided('sequence of %d items' % n.args[0])
            return n.args[0]
        for k in range(self.K + 1):
            if self.d_eq0(sub(n, C(k))):
                return k
        raise CutPath('sequence longer than %d' % self.K)

    def sym_to_ref(self, t):
        """heap list for a symbolic list value (one per value number)"""
        t = self.facts.norm(t)
        r = self.symrefs.get(t)
        if r is None:
            if t.sort[0] == 'stack':
                l = LST([], t, 0, t)
            else:
                l = LST([], None, 0, t)
                l.lazy = True
            r = self.alloc(l, 'list')
            self.symrefs[t] = r
        return r

    def lget(self, ref, write=False):
        o = self.mut(ref) if write else self.get(ref)
        if write:
            o.dirty = True
        return o

    # -------------------------------------------------------------- len
    def len_(self, v):
        if v.__class__ is Tup:
            return C(len(v.items))
        if v.__class__ is T:
            v = self.facts.norm(v)
            if v.op == 'c':
                if isinstance(v.args[0], (str, bytes)):
                    return C(len(v.args[0]))
                self.throw('TypeError', 'object has no len()')
            if isinstance(v.sort, ClassObj):
                m = self.user_method(v, '__len__')
                if m is not None:
                    return self.int_of(self.call(m, [], {}))
                if v.sort.builtin_base() is bytes:
                    return self.facts.norm(length(v))
            if v.sort == 'bytes' or v.op == 'text':
                return self.facts.norm(length(v))
            if isinstance(v.sort, tuple) and v in self.symrefs and v.sort[0] in ('list', 'stack'):
                return self.len_(self.symrefs[v])
            if v.op == 'map':
                return self.len_(v.args[0])
            return self.facts.norm(mk('len', v, sort='uint'))
        if v.__class__ is Ref:
            o = self.get(v)
            if isinstance(o, LST):
                if getattr(o, 'lazy', False) and not o.dirty and not o.items and o.base is None:
                    return self.facts.norm(mk('len', o.origin, sort='uint'))
                n = C(len(o.items))
                if o.base is not None:
                    n = add(n, sub(mk('len', o.base, sort='uint'), C(o.popped)))
                return self.facts.norm(n)
            if isinstance(o, (DCT, SET)):
                return C(len(o.items))
            if isinstance(o, BAR):
                return self.facts.norm(length(o.data))
            if isinstance(o, INST):
                m = self.user_method(v, '__len__')
                if m is not None:
                    return self.int_of(self.call(m, [], {}))
                p = self.unwrap(v)
                if p is not v:
                    return self.len_(p)
                self.throw('TypeError', 'object has no len()')
        if isinstance(v, SliceV) or isinstance(v, (Func, ClassObj, Mod)):
            self.throw('TypeError', 'object has no len()')
        raise Undecided('len of %r' % (v,))

    # -------------------------------------------------------------- iteration
    def force_list(self, ref):
        """make every item of a heap list explicit"""
        o = self.get(ref)
        if getattr(o, 'lazy', False) and not o.dirty and not o.items:
            t = o.origin
            n = self.symlen_t(t)
            o = self.mut(ref)
            o.items = [self.elem(t, C(i)) for i in range(n)]
            o.lazy = False
        if o.base is not None:
            n = None
            ln = self.facts.norm(sub(mk('len', o.base, sort='uint'), C(o.popped)))
            if is_c(ln):
                n = ln.args[0]
            else:
                for k in range(self.K + 1):
                    if self.d_eq0(sub(ln, C(k))):
                        n = k
                        break
                else:
                    raise CutPath('list longer than %d' % self.K)
            o = self.mut(ref)
            front = [mk('fromend', o.base, o.popped + n - i, sort=self.elem(o.base, ZERO).sort) for i in range(n)]
            o.items = front + o.items
            o.popped += n
            o.base = None
            o.dirty = True
        return self.get(ref)

    def symlen_t(self, t):
        n = self.facts.norm(mk('len', t, sort='uint'))
        if is_c(n):
            return n.args[0]
        for k in range(self.K + 1):
            if self.d_eq0(sub(n, C(k))):
                return k
        raise CutPath('sequence longer than %d' % self.K)

    def iterate(self, v):
        if v.__class__ is Tup:
            yield from v.items
            return
        if v.__class__ is T:
            v = self.facts.norm(v)
            if v.op == 'c':
                x = v.args[0]
                if isinstance(x, (bytes, str)):
                    for y in x:
                        yield C(y)
                    return
                self.throw('TypeError', 'not iterable')
            if isinstance(v.sort, ClassObj):
                m = self.user_method(v, '__iter__')
                if m is not None:
                    yield from self.iterate(self.call(m, [], {}))
                    return
            if v.op == 'text':
                for x in v.args:
                    yield text.text([self.facts.norm(x)])
                return
            if self.is_bytes(v):
                n = self.symlen(v)
                for i in range(n):
                    yield byte(self.facts.norm(v), C(i))
                return
            if isinstance(v.sort, tuple) and v.sort[0] in ('list', 'stack'):
                yield from self.iterate(self.sym_to_ref(v))
                return
            if v.op == 'range':
                lo, hi, step = v.args
                if is_c(lo) and is_c(hi) and is_c(step):
                    for i in range(lo.args[0], hi.args[0], step.args[0]):
                        yield C(i)
                    return
                k = 0
                cur = lo
                if not is_c(step):
                    raise Undecided('range with symbolic step')
                s = step.args[0]
                while True:
                    more = self.d_ge(sub(sub(hi, cur), C(1))) if s > 0 else self.d_ge(sub(sub(cur, hi), C(1)))
                    if not more:
                        return
                    k += 1
                    if k > max(self.K, self.cfg.get('range_K', 0)):
                        raise CutPath('range longer than %d' % self.K)
                    yield cur
                    cur = self.facts.norm(add(cur, step))
            if v.sort in ('int', 'uint', 'bool', 'none'):
                self.throw('TypeError', 'not iterable')
            n = self.symlen_t(v)
            for i in range(n):
                yield self.elem(self.facts.norm(v), C(i))
            return
        if v.__class__ is Ref:
            o = self.get(v)
            if isinstance(o, LST):
                o = self.force_list(v)
                i = 0
                while True:
                    o = self.get(v)
                    if o.base is not None:
                        o = self.force_list(v)
                    if i >= len(o.items):
                        return
                    yield o.items[i]
                    i += 1
            elif isinstance(o, DCT):
                for k, _ in list(o.items):
                    yield k
            elif isinstance(o, SET):
                yield from list(o.items)
            elif isinstance(o, BAR):
                yield from self.iterate(o.data)
            elif isinstance(o, ITR):
                yield from self.iter_itr(v)
            elif isinstance(o, BIO):
                raise Undecided('iterating a stream')
            elif isinstance(o, INST):
                m = self.user_method(v, '__iter__')
                if m is not None:
                    yield from self.iterate(self.call(m, [], {}))
                    return
                p = self.unwrap(v)
                if p is not v:
                    yield from self.iterate(p)
                    return
                m = self.user_method(v, '__next__')
                self.throw('TypeError', 'not iterable')
            return
        if isinstance(v, ClassObj):
            self.throw('TypeError', 'not iterable')
        raise Undecided('iterating %r' % (v,))

    def run_gen(self, o):
        """evaluate a generator's body, collecting what it yields"""
        func, frame = o.gen
        o.gen = None
        frame.yields = []
        try:
            self.exec_function_body(func, frame)
        except PyExc as e:
            o.exc = e
        o.items = frame.yields

    def itr_next(self, ref):
        """next item, or raises StopIteration as a python-level sentinel"""
        o = self.mut(ref)
        if o.src is not None:
            try:
                return next(o.src)
            except StopIteration:
                o.src = None
                o.items = []
                o.pos = 0
                return MISSING
        if o.gen is not None:
            self.run_gen(o)
        if o.pos < len(o.items):
            v = o.items[o.pos]
            o.pos += 1
            return v
        if o.exc is not None:
            e, o.exc = o.exc, None
            raise e
        return MISSING

    def iter_itr(self, ref):
        while True:
            v = self.itr_next(ref)
            if v is MISSING:
                return
            yield v

    def mkiter(self, pygen):
        return self.alloc(ITR(src=pygen), 'iter')

    # -------------------------------------------------------------- equality
    def equal(self, a, b):
        """decide a == b (Python semantics)"""
        if a is b and not (a.__class__ is T and a.sort == 'float'):
            # same value number; user __eq__ of the library is reflexive
            if self.user_method(a, '__eq__') is None:
                return True
        for x, y in ((a, b), (b, a)):
            m = self.user_method(x, '__eq__')
            if m is not None:
                r = self.call(m, [y], {})
                if not (r.__class__ is T and r.op == 'c' and r.args[0] is NotImplemented):
                    return self.truth(r)
        return self.equal_raw(a, b)

    def equal_raw(self, a, b):
        a0, b0 = a, b
        a, b = self.unwrap(a), self.unwrap(b)
        ba = self.get(a).data if a.__class__ is Ref and a.kind == 'bytearray' else None
        bb = self.get(b).data if b.__class__ is Ref and b.kind == 'bytearray' else None
        if ba is not None:
            a = ba
        if bb is not None:
            b = bb
        if a.__class__ is T and isinstance(a.sort, tuple) and a.sort[0] in ('list', 'stack') and b.__class__ is Ref:
            a = self.sym_to_ref(a)
        if b.__class__ is T and isinstance(b.sort, tuple) and b.sort[0] in ('list', 'stack') and a.__class__ is Ref:
            b = self.sym_to_ref(b)
        if a.__class__ is T and b.__class__ is T:
            a, b = self.facts.norm(a), self.facts.norm(b)
            if a is b:
                return True
            if a.op == 'c' and b.op == 'c':
                return a.args[0] == b.args[0]
            ia, ib = self.is_int(a), self.is_int(b)
            if ia and ib:
                return self.d_eq0(sub(a, b))
            ya, yb = self.is_bytes(a), self.is_bytes(b)
            if ya and yb:
                return self.equal_bytes(a, b)
            sa, sb = self.is_str(a), self.is_str(b)
            if sa and sb:
                r = text.equal(self, a, b)
                if r is not None:
                    return r
            known = [ia, ya, sa, a.sort == 'none', isinstance(a.sort, ClassObj), isinstance(a.sort, tuple)]
            knownb = [ib, yb, sb, b.sort == 'none', isinstance(b.sort, ClassObj), isinstance(b.sort, tuple)]
            if any(known) and any(knownb) and not any(x and y for x, y in zip(known, knownb)):
                return False
            if (ia or ib) and a.sort != 'none' and b.sort != 'none':
                return self.d_eq0(sub(a, b))
            if ya or yb:
                if a.sort is None or b.sort is None:
                    return self.equal_bytes(a, b)
            if (a.op in ('hex', 'hexb') and a.op == b.op):
                return self.equal_bytes(a.args[0], b.args[0])
            if a.op == 'class' or b.op == 'class':
                return self.is_same(a, b)
            if (is_c(a) and a.args[0] is None) or (is_c(b) and b.args[0] is None):
                return self.is_same(a, b)
            return self.d_eq(a, b)
        if a.__class__ is Tup and b.__class__ is Tup:
            if len(a.items) != len(b.items):
                return False
            for x, y in zip(a.items, b.items):
                if not self.equal(x, y):
                    return False
            return True
        if a.__class__ is Ref and b.__class__ is Ref:
            if a.id == b.id:
                return True
            oa, ob = self.get(a), self.get(b)
            if isinstance(oa, LST) and isinstance(ob, LST):
                if oa.base is not None or ob.base is not None:
                    return self.d_eq(self.reify(a), self.reify(b))
                oa, ob = self.force_list(a), self.force_list(b)
                if len(oa.items) != len(ob.items):
                    return False
                for x, y in zip(list(oa.items), list(ob.items)):
                    if not self.equal(x, y):
                        return False
                return True
            if isinstance(oa, DCT) and isinstance(ob, DCT):
                if len(oa.items) != len(ob.items):
                    return False
                for k, x in oa.items:
                    y = self.dict_get(b, k)
                    if y is MISSING or not self.equal(x, y):
                        return False
                return True
            if isinstance(oa, SET) and isinstance(ob, SET):
                return len(oa.items) == len(ob.items) and all(self.contains(b, x) for x in oa.items)
            return False
        if isinstance(a, (ClassObj, Func, Mod, Builtin)) and isinstance(b, (ClassObj, Func, Mod, Builtin)):
            return a is b
        if a.__class__ is T and a.op in ('class',) or b.__class__ is T and b.op in ('class',):
            return self.is_same(a, b)
        for p, q in ((a, b), (b, a)):
            if p.__class__ is T and p.sort is None and p.op != 'c':
                return self.d_eq(p, self.reify(q))
            if p.__class__ is T and isinstance(p.sort, tuple) and p.sort[0] == 'tuple' and q.__class__ is Tup:
                its = list(self.iterate(p))
                if len(its) != len(q.items):
                    return False
                return all(self.equal(x, y) for x, y in zip(its, q.items))
        return False

    def full(self, t):
        """t with whole slices replaced by what they are slices of"""
        if t.op == 'slice':
            b, lo, hi = t.args
            if lo is ZERO and b.sort == 'bytes' and self.facts.query_eq0(sub(self.facts.norm(length(b)), hi)) is True:
                return self.facts.norm(b)
        elif t.op == 'cat' and any(s.op == 'slice' for s in t.args):
            return cat(*[self.full(s) for s in t.args])
        return t

    def part(self, t, lo, hi):
        """t[lo:hi], using the known lengths of the pieces of t"""
        f = self.facts
        if t.op == 'slice' and t.args[0].op == 'cat' and f.entails_ge(sub(hi, lo)) and f.entails_ge(lo) and \
                f.entails_ge(sub(length(t), hi)) and f.entails_ge(t.args[1]):
            return self.part(t.args[0], f.norm(add(t.args[1], lo)), f.norm(add(t.args[1], hi)))
        if t.op == 'cat':
            pos, out, ok = ZERO, [], True
            for s in t.args:
                n = f.norm(length(s))
                a, b = f.norm(sub(lo, pos)), f.norm(sub(hi, pos))
                pos = f.norm(add(pos, n))
                if f.entails_ge(sub(a, n)):
                    continue
                if f.entails_ge(scale(b, -1)):
                    break
                if f.entails_ge(scale(a, -1)):
                    a = ZERO
                elif not (f.entails_ge(a) and f.entails_ge(sub(n, a))):
                    ok = False
                    break
                if f.entails_ge(sub(b, n)):
                    b = n
                elif not (f.entails_ge(sub(b, a)) and f.entails_ge(sub(n, b))):
                    ok = False
                    break
                out.append(s if a is ZERO and b is n else self.part(s, a, b) if s.op == 'slice' else seg(s, a, b))
            if ok:
                return cat(*out)
        return seg(t, lo, hi)

    def pick(self, p, n):
        """which of 0..n-1 the number p, known to be among them, is"""
        if is_c(p):
            return p
        for j in range(n - 1):
            if self.d_eq0(sub(p, C(j))):
                return C(j)
        return C(n - 1)

    def byte_at(self, t, p):
        """t[p], 0 <= p < len(t), using the known lengths of the pieces of t"""
        f = self.facts
        if not is_c(p):
            p = f.quotients(p)
        r = f.norm(byte(t, p))
        if t.op == 'cat' and r.op == 'byte' and r.args[0] is t:
            pos = ZERO
            for s in t.args:
                n = f.norm(length(s))
                a = f.norm(sub(p, pos))
                pos = f.norm(add(pos, n))
                if f.entails_ge(sub(a, n)):
                    continue
                if f.entails_ge(a) and f.entails_ge(sub(sub(n, a), C(1))):
                    r = f.norm(byte(s, a))
                break
        if r.op == 'byte' and r.args[0].op == 'c' and len(r.args[0].args[0]) <= 16 and not self.cfg.get('no_pick'):
            return f.norm(byte(r.args[0], self.pick(r.args[1], len(r.args[0].args[0]))))
        return r

    def equal_bytes(self, a, b):
        """equality of byte strings, decided segment by segment"""
        a, b = self.facts.norm(a), self.facts.norm(b)
        if a is b:
            return True
        r = self.facts.query_eq(a, b)
        if r is not None:
            return r
        la, lb = length(a), length(b)
        if not self.d_eq0(sub(la, lb)):
            return False
        a, b = self.facts.norm(a), self.facts.norm(b)
        sa, sb = list(segments(a)), list(segments(b))

        def nonempty(l):
            return [s for s in l if not (self.facts.query_eq0(length(s)) is True)]
        sa, sb = nonempty(sa), nonempty(sb)
        # peel equal-length segments from both ends
        for end in (0, -1):
            while sa and sb:
                x, y = sa[end], sb[end]
                if x is y:
                    sa.pop(end)
                    sb.pop(end)
                    continue
                lx_, ly_ = self.facts.norm(length(x)), self.facts.norm(length(y))
                d = self.facts.norm(sub(lx_, ly_))
                q = self.facts.query_eq0(d)
                if q is True and (len(sa) > 1 or len(sb) > 1):
                    if not self._eq_seg(x, y):
                        return False
                    sa.pop(end)
                    sb.pop(end)
                    sa = [self.facts.norm(s) for s in sa]
                    sb = [self.facts.norm(s) for s in sb]
                    continue
                # split a longer segment of constant length
                if is_c(lx_) and is_c(ly_) and x.op in ('c', 'slice', 'sym', 'attr') and \
                        lx_.args[0] > ly_.args[0] and len(sb) > 1:
                    n, m = lx_.args[0], ly_.args[0]
                    parts = [seg(x, ZERO, C(m)), seg(x, C(m), C(n))] if end == 0 else \
                        [seg(x, ZERO, C(n - m)), seg(x, C(n - m), C(n))]
                    sa[end:(end + 1 or None)] = parts if end == 0 else parts
                    continue
                if is_c(lx_) and is_c(ly_) and y.op in ('c', 'slice', 'sym', 'attr') and \
                        ly_.args[0] > lx_.args[0] and len(sa) > 1:
                    n, m = ly_.args[0], lx_.args[0]
                    parts = [seg(y, ZERO, C(m)), seg(y, C(m), C(n))] if end == 0 else \
                        [seg(y, ZERO, C(n - m)), seg(y, C(n - m), C(n))]
                    sb[end:(end + 1 or None)] = parts
                    continue
                # split a segment of variable length that is at least as long
                # as the constant-length one facing it
                if self._split_long(sa, end, ly_, len(sb)) or self._split_long(sb, end, lx_, len(sa)):
                    continue
                break
        a, b = self.full(cat(*sa)), self.full(cat(*sb))
        if a is b:
            return True
        return self._eq_seg(a, b)

    def _split_long(self, l, end, m, others):
        x = l[end]
        n = length(x)
        if x.op != 'slice' or not is_c(m) or m.args[0] <= 0 or is_c(n) or others < 2 or not self.facts.entails_ge(sub(n, m)):
            return False
        cut = m if end == 0 else sub(n, m)
        l[end:(end + 1 or None)] = [self.part(x, ZERO, cut), self.part(x, cut, n)]
        return True

    def _eq_seg(self, x, y):
        if x is y:
            return True
        if x.op == 'c' and y.op == 'c':
            return x.args[0] == y.args[0]
        if self.cfg.get('injective') and (x.op in ('hash', 'hmac') or y.op in ('hash', 'hmac')):
            # no two messages have the same digest
            from .models import DIGESTS
            p, q = [('hash',) + DIGESTS[z] if z in DIGESTS else (z.op,) + z.args for z in (x, y)]
            if p[0] == q[0] and p[0] in ('hash', 'hmac'):
                return p[1:-1] == q[1:-1] and self.equal_bytes(p[-1], q[-1])
            if p[0] in ('hash', 'hmac', 'c') and q[0] in ('hash', 'hmac', 'c'):
                return False
        if x.op == 'enc' and y.op == 'enc' and x.args[0] == y.args[0] and x.args[1] == y.args[1]:
            m = 256 ** x.args[0]
            return self.d_eq0(sub(mod(x.args[2], m), mod(y.args[2], m))) if not self._inrange2(x, y) else \
                self.d_eq0(sub(x.args[2], y.args[2]))
        for p, q in ((x, y), (y, x)):
            if p.op == 'enc' and q.op == 'c':
                n, e, v = p.args
                k = int.from_bytes(q.args[0], 'little' if e == 'le' else 'big')
                f = self.facts
                if f.entails_ge(v) and f.entails_ge(sub(C(256 ** n - 1), v)):
                    return self.d_eq0(sub(v, C(k)))
            # a single byte
            if (q.op == 'c' and len(q.args[0]) == 1 or q.op == 'enc' and q.args[0] == 1) and self.facts.norm(length(p)) is C(1):
                return self.d_eq0(sub(byte(p, ZERO), byte(q, ZERO)))
            if q.op == 'c' and p.op in ('slice', 'sym') and 1 < len(q.args[0]) <= 32 and self.facts.norm(length(p)) is C(len(q.args[0])):
                # what is known of the single bytes may decide it
                r = [self.facts.query_eq0(sub(byte(p, C(i)), C(q.args[0][i]))) for i in range(len(q.args[0]))]
                if False in r:
                    return False
                if None not in r:
                    return True
                if len(r) <= 4:
                    # a few bytes: one by one
                    if all(self.d_eq0(sub(self.facts.norm(byte(p, C(i))), C(q.args[0][i]))) for i in range(len(r))):
                        self.facts.assume_eq(p, q, True)
                        return True
                    return False
        if x.op == 'rev' and y.op == 'rev':
            return self.equal_bytes(x.args[0], y.args[0])
        if x.op == 'slice' and y.op == 'slice' and x.args[0] is y.args[0] and \
                self.facts.query_eq0(sub(x.args[1], y.args[1])) is True and \
                self.facts.query_eq0(sub(x.args[2], y.args[2])) is True:
            return True
        return self.d_eq(x, y)

    def _inrange2(self, x, y):
        f = self.facts
        n = x.args[0]
        return all(f.entails_ge(v) and f.entails_ge(sub(C(256 ** n - 1), v)) for v in (x.args[2], y.args[2]))

    def is_same(self, a, b):
        """decide `a is b`"""
        if a is b:
            return True
        if a.__class__ is T and b.__class__ is T:
            a, b = self.facts.norm(a), self.facts.norm(b)
            if a is b:
                return True
            for x, y in ((a, b), (b, a)):
                if x.op == 'c' and x.args[0] is None:
                    if y.op == 'c':
                        return False
                    if y.sort is not None and y.sort != 'none':
                        return False
                    # a value other facts show to be an object
                    for at, val in self.facts.lits.items():
                        if val and at.op in ('isinst', 'isexact') and at.args[0] is y:
                            return at.args[1].builtin is type(None)
                        if val and at.op == 'truth' and at.args[0] is y:
                            return False
                    return self.d_lit(mk('isnone', y))
            if a.op == 'c' and b.op == 'c':
                return type(a.args[0]) is type(b.args[0]) and a.args[0] == b.args[0]
            for x, y in ((a, b), (b, a)):
                if x.op == 'c' and isinstance(x.args[0], bool):
                    if y.sort not in (None, 'bool'):
                        return False
                    if y.sort == 'bool':
                        t = self.truth(y)
                        return t == x.args[0]
                    return self.d_lit(mk('is', y, x))
            if a.op == 'class' or b.op == 'class':
                for x, y in ((a, b), (b, a)):
                    if x.op == 'class' and y.op == 'class':
                        return self.d_lit(mk('sameclass', x.args[0], y.args[0]) if x.id < y.id else
                                          mk('sameclass', y.args[0], x.args[0]))
                return False
            if a.sort in EXC_SORTS and b.sort in EXC_SORTS:
                return self.d_eq0(sub(a, b))
            if (a.op == 'py' or b.op == 'py'):
                return False
            return self.d_lit(mk('is', a, b) if a.id < b.id else mk('is', b, a))
        for x, y in ((a, b), (b, a)):
            if x.__class__ is T and x.op == 'class' and isinstance(y, ClassObj):
                return self.d_exact(x.args[0], y)
        if a.__class__ is Ref and b.__class__ is Ref:
            return a.id == b.id
        return False

    def d_exact(self, v, cls):
        v = self.facts.norm(v)
        for at, val in list(self.facts.lits.items()):
            if at.args and at.args[0] is v:
                if at.op == 'isexact' and val:
                    return at.args[1] is cls
                if at.op == 'isinst' and not val and cls.issub(at.args[1]):
                    return False
                if at.op == 'isinst' and val and not cls.issub(at.args[1]):
                    return False
                if at.op == 'isnone' and val:
                    return cls.builtin is type(None)
        return self.d_lit(mk('isexact', v, cls))

    def isinstance_(self, v, cls):
        if cls.__class__ is Tup:
            return any(self.isinstance_(v, c) for c in cls.items)
        if not isinstance(cls, ClassObj):
            if cls.__class__ is T:
                return self.d_lit(mk('isinst', self.reify(v), cls))
            raise Undecided('isinstance against %r' % (cls,))
        ty = self.type_of(v)
        if ty is not None:
            return ty.issub(cls)
        v = self.facts.norm(v)
        if v.op == 'ext':
            return cls.builtin is object
        solid = (int, str, bytes, list, tuple, dict, set, frozenset, bytearray, type(None), float)
        for at, val in list(self.facts.lits.items()):
            if at.args and at.args[0] is v:
                if at.op == 'isinst' and val:
                    k = at.args[1]
                    if k.issub(cls):
                        return True
                    bk, bc = k.builtin_base(), cls.builtin_base()
                    if bk in solid and bc in solid and bk is not bc and not issubclass(bk, bc) and not issubclass(bc, bk):
                        return False
                if at.op == 'isinst' and not val and cls.issub(at.args[1]):
                    return False
                if at.op == 'isexact' and val:
                    return at.args[1].issub(cls)
                if at.op == 'isnone' and val:
                    return cls.builtin in (object, type(None))
        if cls.builtin is object:
            return True
        return self.d_lit(mk('isinst', v, cls))

    # -------------------------------------------------------------- ordering
    def compare(self, op, a, b):
        if op == 'Eq':
            return self.equal(a, b)
        if op == 'NotEq':
            m = self.user_method(a, '__ne__')
            if m is not None:
                r = self.call(m, [b], {})
                if not (r.__class__ is T and r.op == 'c' and r.args[0] is NotImplemented):
                    return self.truth(r)
            return not self.equal(a, b)
        if op == 'Is':
            return self.is_same(a, b)
        if op == 'IsNot':
            return not self.is_same(a, b)
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return not self.contains(b, a)
        dn = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        rn = {'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}[op]
        refused = 0
        for x, y, n in ((a, b, dn), (b, a, rn)):
            m = self.user_method(x, n)
            if m is not None:
                r = self.call(m, [y], {})
                if not (r.__class__ is T and r.op == 'c' and r.args[0] is NotImplemented):
                    return self.truth(r)
                refused += 1
            elif y.__class__ in (Ref, T, Tup) and isinstance(x, T) and (x.op == 'c' or x.sort in ('bytes', 'str', 'int', 'uint', 'bool', 'none')) or x.__class__ is Tup:
                refused += 1
        if refused == 2 and any(x.__class__ is Ref and x.kind == 'inst' for x in (a, b)):
            self.throw('TypeError', 'no ordering of these')
        a, b = self.unwrap(a), self.unwrap(b)
        if a.__class__ is T and b.__class__ is T:
            a, b = self.facts.norm(a), self.facts.norm(b)
            if a.op == 'c' and b.op == 'c':
                x, y = a.args[0], b.args[0]
                try:
                    return {'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[op]()
                except TypeError as e:
                    self.throw('TypeError', str(e))
            nums = self.is_int(a) or self.is_int(b)
            if nums and not (self.is_bytes(a) or self.is_bytes(b) or self.is_str(a) or self.is_str(b)):
                for x in (a, b):
                    if x.sort == 'none':
                        self.throw('TypeError', 'ordering None')
                # non-integral float constants
                a, b = self._floats(op, a, b)
                if op == 'Lt':
                    return self.d_ge(sub(sub(b, a), C(1)))
                if op == 'LtE':
                    return self.d_ge(sub(b, a))
                if op == 'Gt':
                    return self.d_ge(sub(sub(a, b), C(1)))
                return self.d_ge(sub(a, b))
            # canonical form: a < b
            if op == 'Gt':
                return self.d_lit(mk('<', b, a))
            if op == 'Lt':
                return self.d_lit(mk('<', a, b))
            if op == 'LtE':
                return not self.d_lit(mk('<', b, a))
            return not self.d_lit(mk('<', a, b))
        la, lb = self.ordered_items(a), self.ordered_items(b)
        if la is not None and lb is not None and a.__class__ is b.__class__:
            for x, y in zip(la, lb):
                if not self.equal(x, y):
                    return self.compare(op, x, y)
            n, m = len(la), len(lb)
            return {'Lt': n < m, 'LtE': n <= m, 'Gt': n > m, 'GtE': n >= m}[op]
        if isinstance(a, (ClassObj, Func, Tup)) or isinstance(b, (ClassObj, Func, Tup)):
            self.throw('TypeError', 'unorderable')
        if a.__class__ is Ref and isinstance(self.get(a), (LST, SET, DCT)):
            raise Undecided('an ordering of containers')
        ra, rb = self.reify(a), self.reify(b)
        if op in ('Gt', 'LtE'):
            r = self.d_lit(mk('<', rb, ra))
            return r if op == 'Gt' else not r
        r = self.d_lit(mk('<', ra, rb))
        return r if op == 'Lt' else not r

    def ordered_items(self, v):
        if v.__class__ is Tup:
            return v.items
        if v.__class__ is Ref and isinstance(self.get(v), LST):
            self.force_list(v)
            o = self.get(v)
            return o.items if o.base is None else None
        return None

    def _floats(self, op, a, b):
        import math
        if a.op == 'c' and isinstance(a.args[0], float) and not a.args[0].is_integer():
            f = a.args[0]
            # f < b  <=> b >= floor(f)+1 ; f <= b likewise; f > b <=> b <= floor(f)
            a = C(math.floor(f)) if op in ('Lt', 'GtE') else C(math.floor(f) + 1)
            return a, b
        if b.op == 'c' and isinstance(b.args[0], float) and not b.args[0].is_integer():
            f = b.args[0]
            b = C(math.floor(f)) if op in ('Gt', 'LtE') else C(math.floor(f) + 1)
            return a, b
        return a, b

    # -------------------------------------------------------------- containers
    def hkey(self, v):
        """hashable key of a constant, or MISSING"""
        v = self.unwrap(v)
        if v.__class__ is T:
            v = self.facts.norm(v)
            if v.op == 'c':
                return v.args[0]
            return MISSING
        if v.__class__ is Tup:
            ks = tuple(self.hkey(x) for x in v.items)
            return MISSING if MISSING in ks else ks
        if isinstance(v, (ClassObj, Func, Builtin, Mod)):
            return v
        return MISSING

    def check_hashable(self, v):
        if v.__class__ is Ref and v.kind in ('list', 'dict', 'bytearray'):
            self.throw('TypeError', 'unhashable')

    def dict_find(self, ref, key):
        """position of key, or -1"""
        o = self.get(ref)
        k = self.hkey(key)
        if k is not MISSING:
            p = o.index.get(k, -1)
            if p >= 0:
                return p
            cand = [i for i, (kk, _) in enumerate(o.items) if self.hkey(kk) is MISSING]
        else:
            cand = list(range(len(o.items)))
        if len(cand) > 60:
            raise Undecided('lookup of an unknown key in a table of %d entries' % len(cand))
        for i in cand:
            if self.equal(o.items[i][0], key):
                return i
        return -1

    def dict_get(self, ref, key):
        self.check_hashable(key)
        p = self.dict_find(ref, key)
        return MISSING if p < 0 else self.get(ref).items[p][1]

    def dict_set(self, ref, key, val):
        self.check_hashable(key)
        p = self.dict_find(ref, key)
        o = self.mut(ref)
        if p >= 0:
            o.items[p] = [o.items[p][0], val]
        else:
            k = self.hkey(key)
            if k is not MISSING:
                o.index[k] = len(o.items)
            o.items.append([key, val])

    def dict_del(self, ref, key):
        p = self.dict_find(ref, key)
        if p < 0:
            return False
        o = self.mut(ref)
        del o.items[p]
        o.index = {}
        for i, (k, _) in enumerate(o.items):
            h = self.hkey(k)
            if h is not MISSING:
                o.index[h] = i
        return True

    def mkdict(self, pairs=()):
        r = self.alloc(DCT(), 'dict')
        for k, v in pairs:
            self.dict_set(r, k, v)
        return r

    def mkset(self, items=(), frozen=False):
        r = self.alloc(SET(frozen=frozen), 'set')
        for x in items:
            self.set_add(r, x)
        return r

    def set_has(self, ref, x):
        o = self.get(ref)
        k = self.hkey(x)
        if k is not MISSING and k in o.index:
            return True
        cand = [y for y in o.items if k is MISSING or self.hkey(y) is MISSING]
        if len(cand) > 60:
            # a table of constants: membership as a range/equality partition
            return self.in_consts(cand, x)
        for y in cand:
            if self.equal(y, x):
                return True
        return False

    def in_consts(self, cand, x):
        vals = sorted(self.hkey(y) for y in cand)
        raise Undecided('membership of an unknown value in a set of %d' % len(cand))

    def set_add(self, ref, x):
        self.check_hashable(x)
        if self.set_has(ref, x):
            return
        o = self.mut(ref)
        k = self.hkey(x)
        if k is not MISSING:
            o.index.add(k)
        o.items.append(x)

    def contains(self, c, x):
        m = self.user_method(c, '__contains__')
        if m is not None:
            return self.truth(self.call(m, [x], {}))
        c = self.unwrap(c)
        if c.__class__ is Ref:
            o = self.get(c)
            if isinstance(o, DCT):
                self.check_hashable(x)
                return self.dict_find(c, x) >= 0
            if isinstance(o, SET):
                return self.set_has(c, x)
            if isinstance(o, LST) and o.base is not None:
                raise Undecided('membership in a list of unknown length')
        if c.__class__ is T:
            c = self.facts.norm(c)
            if self.is_str(c):
                xx = self.unwrap(x)
                if self.is_str(xx):
                    r = text.contains(self, c, self.facts.norm(xx))
                    if r is not None:
                        return r
            if c.op == 'c' and isinstance(c.args[0], (str, bytes)):
                xx = self.unwrap(x)
                if is_c(xx):
                    try:
                        return xx.args[0] in c.args[0]
                    except TypeError as e:
                        self.throw('TypeError', str(e))
                if self.is_str(xx) or self.is_bytes(xx):
                    return self.d_lit(mk('in', xx, c))
            if self.is_str(c) or (self.is_bytes(c) and not self.is_int(self.unwrap(x))):
                return self.d_lit(mk('in', self.reify(x), c))
            if c.op == 'range':
                lo, hi, step = c.args
                if step is C(1):
                    x = self.int_of(x)
                    return self.d_ge(sub(x, lo)) and self.d_ge(sub(sub(hi, x), C(1)))
            if c.sort is None or c.sort == 'dict':
                k = self.reify(x)
                it = self.symitems.get(c)
                if it and k in it:
                    return it[k] is not MISSING
                return self.d_lit(mk('in', k, c))
        for y in self.iterate(c):
            if x is y or self.equal(y, x):
                return True
        return False

    # -------------------------------------------------------------- indexing
    def index_pos(self, n, i):
        """position 0 <= p < n for python index i, or None when out of range"""
        i = self.facts.norm(i)
        if is_c(i):
            k = i.args[0]
            if k >= 0:
                return i if self.d_ge(sub(sub(n, i), C(1))) else None
            p = add(n, i)
            return self.facts.norm(p) if self.d_ge(p) else None
        if self.d_ge(i):
            return i if self.d_ge(sub(sub(n, i), C(1))) else None
        p = add(n, i)
        return self.facts.norm(p) if self.d_ge(p) else None

    def slice_bounds(self, n, sl):
        """lo <= hi within [0, n] for a step-1 slice"""
        def clamp(x, default):
            if x is None or (x.__class__ is T and x.op == 'c' and x.args[0] is None):
                return default
            x = self.int_of(x)
            if x.sort is None and self.is_same(x, NONE):
                return default
            if is_c(x) and x.args[0] < 0 or (not is_c(x) and not self.d_ge(x)):
                x = add(n, x)
                if not self.d_ge(x):
                    return ZERO
                return self.facts.norm(x)
            if not self.d_ge(sub(n, x)):
                return n
            return self.facts.norm(x)
        lo = clamp(sl.lo, ZERO)
        hi = clamp(sl.hi, n)
        if not self.d_ge(sub(hi, lo)):
            hi = lo
        return self.facts.norm(lo), self.facts.norm(hi)

    def slice_step(self, sl):
        s = sl.step
        if s is None or (s.__class__ is T and s.op == 'c' and s.args[0] is None):
            return 1
        s = self.int_of(s)
        if not is_c(s):
            raise Undecided('symbolic slice step')
        return s.args[0]

    def getitem(self, v, k):
        m = self.user_method(v, '__getitem__')
        if m is not None:
            return self.call(m, [k], {})
        v = self.unwrap(v)
        if isinstance(v, ClassObj):
            m = self.cls_lookup(v, '__class_getitem__')
            return v
        if v.__class__ is Tup:
            if isinstance(k, SliceV):
                lo, hi, st = (None if x is None else self._cint(x) for x in (k.lo, k.hi, k.step))
                return Tup(v.items[lo:hi:st])
            i = self.int_of(k)
            if is_c(i):
                try:
                    return v.items[i.args[0]]
                except IndexError:
                    self.throw('IndexError', 'tuple index out of range')
            n = len(v.items)
            for j in range(n):
                if self.d_eq0(sub(i, C(j))):
                    return v.items[j]
            for j in range(1, n + 1):
                if self.d_eq0(add(i, C(j))):
                    return v.items[-j]
            self.throw('IndexError', 'tuple index out of range')
        if v.__class__ is Ref:
            o = self.get(v)
            if isinstance(o, LST):
                return self.list_get(v, k)
            if isinstance(o, DCT):
                r = self.dict_get(v, k)
                if r is MISSING:
                    self.throw('KeyError', 'key')
                return r
            if isinstance(o, BAR):
                r = self.getitem(o.data, k)
                if isinstance(k, SliceV):
                    return self.alloc(BAR(r), 'bytearray')
                return r
            if isinstance(o, INST):
                self.throw('TypeError', 'not subscriptable')
            raise Undecided('subscript of %s' % v.kind)
        if v.__class__ is T:
            v = self.facts.norm(v)
            if self.is_bytes(v) or (v.op == 'c' and isinstance(v.args[0], (bytes, str))):
                if v.op == 'c' and not isinstance(v.args[0], bytes):
                    return self.str_getitem(v, k)
                if isinstance(k, SliceV):
                    st = self.slice_step(k)
                    if st == -1 and k.lo in (None, NONE) and k.hi in (None, NONE):
                        return rev(v)
                    if st != 1:
                        if v.op == 'c':
                            return C(v.args[0][self._cint(k.lo):self._cint(k.hi):st])
                        return mk('stepslice', v, self.reify(k.lo or NONE), self.reify(k.hi or NONE), st, sort='bytes')
                    n = length(v)
                    lo, hi = self.slice_bounds(self.facts.norm(n), k)
                    return self.facts.norm(self.part(self.facts.norm(v), lo, hi))
                i = self.int_of(k)
                p = self.index_pos(self.facts.norm(length(v)), i)
                if p is None:
                    self.throw('IndexError', 'index out of range')
                if v.op == 'c' and len(v.args[0]) <= 16 and not self.cfg.get('no_pick'):
                    p = self.pick(p, len(v.args[0]))
                return self.byte_at(self.facts.norm(v), p)
            if self.is_str(v):
                return self.str_getitem(v, k)
            if isinstance(v.sort, tuple) and v.sort[0] in ('list', 'stack'):
                return self.list_get(self.sym_to_ref(v), k)
            if isinstance(v.sort, tuple) and v.sort[0] == 'tuple':
                if isinstance(k, SliceV):
                    its = list(self.iterate(v))
                    return Tup(its[self._cint(k.lo):self._cint(k.hi):self._cint(k.step)])
                p = self.index_pos(self.len_(v), self.int_of(k))
                if p is None:
                    self.throw('IndexError', 'tuple index out of range')
                return self.elem(self.facts.norm(v), p)
            if v.sort == 'none' or v.sort in EXC_SORTS:
                self.throw('TypeError', 'not subscriptable')
            # unknown container
            kk = self.reify(k)
            it = self.symitems.get(v)
            if it and kk in it:
                if it[kk] is MISSING:
                    self.throw('KeyError', 'deleted key')
                return it[kk]
            if isinstance(k, SliceV):
                return mk('getslice', v, kk)
            lit = self.facts.query_lit(mk('in', kk, v))
            if lit is False:
                self.throw('KeyError', 'missing key')
            return mk('elem', v, kk, sort=self.item_sort(v, kk))
        raise Undecided('subscript of %r' % (v,))

    def item_sort(self, v, kk):
        f = self.cfg.get('item_sorts')
        if f and is_c(kk):
            return f.get(kk.args[0])
        return None

    def str_getitem(self, v, k):
        if v.op == 'text':
            if isinstance(k, SliceV):
                if all(x is None or is_c(self.unwrap(x)) for x in (k.lo, k.hi, k.step)):
                    return text.text(v.args[self._cint(k.lo):self._cint(k.hi):self._cint(k.step)])
            else:
                p = self.index_pos(C(len(v.args)), self.int_of(k))
                if p is None:
                    self.throw('IndexError', 'string index out of range')
                return text.text([self.facts.norm(v.args[self.pick(p, len(v.args)).args[0]])])
        if v.op == 'c' and self.cfg.get('texts') and not isinstance(k, SliceV):
            i = self.int_of(k)
            if not is_c(i):
                p = self.index_pos(C(len(v.args[0])), i)
                if p is None:
                    self.throw('IndexError', 'string index out of range')
                return text.text([text.codeat(v.args[0], self.facts.norm(p))])
        if v.op == 'c':
            if isinstance(k, SliceV):
                return C(v.args[0][self._cint(k.lo):self._cint(k.hi):self._cint(k.step)])
            i = self.int_of(k)
            if is_c(i):
                try:
                    return C(v.args[0][i.args[0]])
                except IndexError:
                    self.throw('IndexError', 'string index out of range')
        return mk('strget', v, self.reify(k), sort='str')

    def _cint(self, x):
        if x is None:
            return None
        x = self.unwrap(x)
        x = self.facts.norm(x)
        if is_c(x):
            return x.args[0]
        raise Undecided('symbolic bound')

    # lists: access from the end works on unknown prefixes
    def need_from_end(self, ref, k):
        """make at least k trailing items explicit; False when there are fewer"""
        o = self.get(ref)
        if getattr(o, 'lazy', False) and not o.dirty and not o.items:
            o = self.force_list(ref)
        while len(o.items) < k:
            if o.base is None:
                return False
            ln = sub(mk('len', o.base, sort='uint'), C(o.popped))
            need = k - len(o.items)
            if not self.d_ge(sub(ln, C(need))):
                # fewer than needed: how many exactly does not matter to the
                # caller beyond the comparison already made
                return False
            o = self.mut(ref)
            es = self.elem(o.base, ZERO).sort
            o.items.insert(0, mk('fromend', o.base, o.popped + 1, sort=es))
            o.popped += 1
        return True

    def list_pos(self, ref, k):
        """python position into .items for index k; raises IndexError"""
        o = self.get(ref)
        i = self.int_of(k)
        if o.base is None:
            o = self.force_list(ref)
            n = len(o.items)
            if is_c(i):
                p = i.args[0]
                if p < 0:
                    p += n
                if 0 <= p < n:
                    return p
                self.throw('IndexError', 'list index out of range')
            for j in range(n):
                if self.d_eq0(sub(i, C(j))):
                    return j
            for j in range(1, n + 1):
                if self.d_eq0(add(i, C(j))):
                    return n - j
            self.throw('IndexError', 'list index out of range')
        # unknown prefix: only positions relative to the end
        n = self.len_(ref)
        rel = None
        if is_c(i) and i.args[0] < 0:
            rel = -i.args[0]
        else:
            d = self.facts.norm(sub(n, i))
            if is_c(d) and d.args[0] >= 0:
                if d.args[0] == 0:
                    self.throw('IndexError', 'list index out of range')
                rel = d.args[0]
        if rel is None and not is_c(i):
            # a symbolic distance from the end, small cases
            if not self.d_ge(i):
                for j in range(1, self.K + 4):
                    if self.d_eq0(add(i, C(j))):
                        rel = j
                        break
                else:
                    raise CutPath('deep stack index')
            else:
                nn = sub(n, i)
                for j in range(1, self.K + 4):
                    if self.d_eq0(sub(nn, C(j))):
                        rel = j
                        break
                else:
                    raise CutPath('deep stack index')
        if rel is None:
            self.force_list(ref)
            return self.list_pos(ref, k)
        if not self.need_from_end(ref, rel):
            self.throw('IndexError', 'list index out of range')
        return len(self.get(ref).items) - rel

    def list_slice(self, ref, sl):
        """(lo, hi) positions into .items after making enough explicit"""
        o = self.get(ref)
        st = self.slice_step(sl)
        if o.base is not None and st == 1:
            n = self.len_(ref)

            def rel(x, default):
                if x is None or x is NONE:
                    return default
                x = self.int_of(x)
                if is_c(x) and x.args[0] < 0:
                    return -x.args[0]
                d = self.facts.norm(sub(n, x))
                if is_c(d):
                    return max(0, d.args[0])
                return None
            lo_none = sl.lo is None or sl.lo is NONE
            lo = None if lo_none else rel(sl.lo, None)
            hi = rel(sl.hi, 0)
            if hi is not None and (lo_none or lo is not None):
                k = max(hi, lo or 0)
                if self.need_from_end(ref, k):
                    m = len(self.get(ref).items)
                    return (None if lo_none else m - lo), m - hi, 1
        o = self.force_list(ref)
        m = len(o.items)

        def conv(x):
            if x is None or x is NONE:
                return None
            x = self.int_of(x)
            if is_c(x):
                return x.args[0]
            if not self.d_ge(x):
                for j in range(1, m + 1):
                    if self.d_eq0(add(x, C(j))):
                        return -j
                return -m - 1
            for j in range(0, m):
                if self.d_eq0(sub(x, C(j))):
                    return j
            return m
        lo, hi, st = slice(conv(sl.lo), conv(sl.hi), st).indices(m)
        return lo, hi, st

    def list_get(self, ref, k):
        if isinstance(k, SliceV):
            lo, hi, st = self.list_slice(ref, k)
            o = self.get(ref)
            if lo is None:
                if hi == len(o.items) or True:
                    l = LST(o.items[:hi], o.base, o.popped, o.base)
                    l.dirty = True
                    return self.alloc(l, 'list')
            if st < 0 and hi < 0:
                hi = None
            return self.mklist(o.items[lo:hi:st])
        p = self.list_pos(ref, k)
        return self.get(ref).items[p]

    def setitem(self, v, k, val):
        m = self.user_method(v, '__setitem__')
        if m is not None:
            self.call(m, [k, val], {})
            return
        v = self.unwrap(v)
        if v.__class__ is T:
            v = self.facts.norm(v)
            if isinstance(v.sort, tuple) and v.sort[0] in ('list', 'stack'):
                v = self.sym_to_ref(v)
            elif v.sort in ('bytes', 'str', 'none') or v.sort in EXC_SORTS or \
                    (isinstance(v.sort, tuple) and v.sort[0] == 'tuple') or isinstance(v.sort, ClassObj):
                self.throw('TypeError', 'item assignment')
            else:
                self.symitems.setdefault(v, {})[self.reify(k)] = val
                return
        if v.__class__ is Ref:
            o = self.get(v)
            if isinstance(o, LST):
                if isinstance(k, SliceV):
                    new = list(self.iterate(val))
                    lo, hi, st = self.list_slice(v, k)
                    o = self.lget(v, True)
                    if lo is None:
                        o.items[:hi] = new
                        o.base = None
                        return
                    o.items[lo:hi:st] = new
                    return
                p = self.list_pos(v, k)
                self.lget(v, True).items[p] = val
                return
            if isinstance(o, DCT):
                self.dict_set(v, k, val)
                return
            if isinstance(o, BAR):
                o = self.mut(v)
                if isinstance(k, SliceV):
                    raise Undecided('bytearray slice assignment')
                n = self.facts.norm(length(o.data))
                p = self.index_pos(n, self.int_of(k))
                if p is None:
                    self.throw('IndexError', 'bytearray index')
                if is_c(n) and n.args[0] <= 16:
                    p = self.pick(p, n.args[0])
                o.data = cat(seg(o.data, ZERO, p), enc(1, 'le', self.int_of(val)), seg(o.data, add(p, C(1)), n))
                return
        if v.__class__ is Tup or isinstance(v, (Func, ClassObj, Mod)):
            self.throw('TypeError', 'item assignment')
        self.throw('TypeError', 'item assignment')

    def delitem(self, v, k):
        m = self.user_method(v, '__delitem__')
        if m is not None:
            self.call(m, [k], {})
            return
        v = self.unwrap(v)
        if v.__class__ is T:
            v = self.facts.norm(v)
            if isinstance(v.sort, tuple) and v.sort[0] in ('list', 'stack'):
                v = self.sym_to_ref(v)
            else:
                self.symitems.setdefault(v, {})[self.reify(k)] = MISSING
                return
        if v.__class__ is Ref:
            o = self.get(v)
            if isinstance(o, LST):
                if isinstance(k, SliceV):
                    lo, hi, st = self.list_slice(v, k)
                    o = self.lget(v, True)
                    if lo is None:
                        del o.items[:hi]
                        o.base = None
                        return
                    del o.items[lo:hi:st]
                    return
                p = self.list_pos(v, k)
                del self.lget(v, True).items[p]
                return
            if isinstance(o, DCT):
                if not self.dict_del(v, k):
                    self.throw('KeyError', 'key')
                return
            if isinstance(o, BAR):
                o = self.mut(v)
                n = self.facts.norm(length(o.data))
                if isinstance(k, SliceV):
                    lo, hi = self.slice_bounds(n, k)
                    o.data = cat(seg(o.data, ZERO, lo), seg(o.data, hi, n))
                    return
                p = self.index_pos(n, self.int_of(k))
                if p is None:
                    self.throw('IndexError', 'bytearray index')
                o.data = cat(seg(o.data, ZERO, p), seg(o.data, add(p, C(1)), n))
                return
        self.throw('TypeError', 'item deletion')

    # -------------------------------------------------------------- attributes
    def attr_sort(self, v, name):
        ty = self.type_of(v)
        fs = self.cfg.get('field_sorts', {})
        if ty is not None:
            for c in ty.mro:
                s = fs.get((c.name, name))
                if s is not None:
                    return s
            for c in ty.mro:
                d = self.get(c.ns).d
                sa = d.get('SERIALIZED_ATTRS')
                if sa is not None:
                    for x in self.iterate(sa):
                        if x.items[0].args[0] == name:
                            return self.ser_sort(x.items[1])
        return fs.get(name)

    def ser_sort(self, ser):
        f = self.cfg.get('ser_sorts')
        if f:
            for c in ser.mro:
                if c.qualname in f:
                    return f[c.qualname]
        if isinstance(ser, ClassObj):
            pr = self.prog.lookup('proofmarshal.proof.Proof')
            if pr is not None and ser.issub(pr):
                return ser
        return None

    def getattr_(self, v, name, default=MISSING):
        try:
            return self._getattr(v, name)
        except PyExc as e:
            if default is not MISSING and e.cls.issub(self.B(AttributeError)):
                return default
            raise

    def _getattr(self, v, name):
        from . import models
        if v.__class__ is T:
            if self.facts.sub:
                v = self.facts.norm(v)
            if v.op == 'ext':
                return self.ext_attr(v, name)
            s = v.sort
            if name == '__class__':
                ty = self.type_of(v)
                return ty if ty is not None else mk('class', v)
            if isinstance(s, ClassObj):
                over = self.symattrs.get(v)
                a = self.cls_lookup(s, name)
                if isinstance(a, Prop):
                    return self.bind(a, v, s)
                if over is not None and name in over:
                    if over[name] is MISSING:
                        self.throw('AttributeError', name)
                    return over[name]
                if name in self.fields(s) and not self.unset_field(v, s, name):
                    return self.symfield(v, name)
                if a is not MISSING:
                    return self.bind(a, v, s)
                bm = models.builtin_method(self, v, name)
                if bm is not None:
                    return bm
                ga = self.cls_lookup(s, '__getattr__')
                if isinstance(ga, Func):
                    return self.call(ga, [v, C(name)], {})
                self.throw('AttributeError', '%s has no attribute %s' % (s.name, name))
            if s is None:
                over = self.symattrs.get(v)
                if over is not None and name in over:
                    if over[name] is MISSING:
                        self.throw('AttributeError', name)
                    return over[name]
                if v.op == 'class':
                    if name in ('__name__', '__qualname__', '__module__'):
                        return mk('clsname', v, sort='str')
                    if name == '__base__':
                        return mk('attr', v, name)
                h = self.cfg.get('attr_hook')
                if h is not None:
                    r = h(self, v, name)
                    if r is not None:
                        return r
                return self.symfield(v, name)
            if s == 'dict' or s == 'stream':
                bm = models.builtin_method(self, v, name)
                if bm is not None:
                    return bm
                return self.symfield(v, name)
            bm = models.builtin_method(self, v, name)
            if bm is not None:
                return bm
            self.throw('AttributeError', '%s has no attribute %s' % (s, name))
        if v.__class__ is Ref:
            if v.kind == 'inst':
                o = self.get(v)
                if name == '__class__':
                    return o.cls
                a = self.cls_lookup(o.cls, name)
                if isinstance(a, Prop):
                    return self.bind(a, v, o.cls)
                if name in o.attrs:
                    return o.attrs[name]
                if name == '__dict__':
                    return self.mkdict([(C(k), x) for k, x in o.attrs.items()])
                if a is not MISSING:
                    return self.bind(a, v, o.cls)
                bm = models.builtin_method(self, v, name)
                if bm is not None:
                    return bm
                if name == '__new__':
                    return self.class_attr(o.cls, name)
                ga = self.cls_lookup(o.cls, '__getattr__')
                if isinstance(ga, Func):
                    return self.call(ga, [v, C(name)], {})
                self.throw('AttributeError', '%r object has no attribute %r' % (o.cls.name, name))
            if name == '__class__':
                return self.type_of(v)
            bm = models.builtin_method(self, v, name)
            if bm is not None:
                return bm
            self.throw('AttributeError', '%s has no attribute %s' % (v.kind, name))
        if isinstance(v, ClassObj):
            return self.class_attr(v, name)
        if isinstance(v, Mod):
            d = self.get(v.ns).d
            if name in d:
                return d[name]
            if name == '__name__':
                return C(v.name)
            if name == '__dict__':
                return self.mkdict([(C(k), x) for k, x in d.items()])
            self.throw('AttributeError', 'module %s has no attribute %s' % (v.name, name))
        if isinstance(v, SuperV):
            return self.super_attr(v, name)
        if isinstance(v, Func):
            if name in v.attrs:
                return v.attrs[name]
            if name in ('__name__',):
                return C(v.name)
            if name in ('__qualname__',):
                n = v.module.name + '.'
                return C(v.qualname[len(n):] if v.qualname.startswith(n) else v.qualname)
            if name == '__doc__':
                return NONE
            if name == '__module__':
                return C(v.module.name)
            if name == '__class__':
                return self.type_of(v)
            if name == '__get__':
                return Builtin('__get__', lambda run, a, k: BM(v, a[0]))
            self.throw('AttributeError', 'function has no attribute %s' % name)
        if isinstance(v, BM):
            if name == '__func__':
                return v.func
            if name == '__self__':
                return v.self_
            return self._getattr(v.func, name)
        if isinstance(v, Builtin):
            at = getattr(v, 'attrs', None)
            if at and name in at:
                return at[name]
            if name in ('__name__', '__qualname__'):
                return C(v.name)
            if name == '__class__':
                return self.type_of(v)
            raise Undecided('attribute %s of builtin %s' % (name, v.name))
        if isinstance(v, Tup):
            if name == '__class__':
                return self.B(tuple)
            bm = models.builtin_method(self, v, name)
            if bm is not None:
                return bm
            self.throw('AttributeError', name)
        if isinstance(v, SliceV):
            if name in ('start', 'stop', 'step'):
                x = {'start': v.lo, 'stop': v.hi, 'step': v.step}[name]
                return NONE if x is None else x
            if name == '__class__':
                return self.B(slice)
            if name == 'indices':
                return Builtin('indices', lambda run, a, k: models.slice_indices(run, v, a[0]))
        if isinstance(v, Prop):
            if name in ('getter', 'setter', 'deleter'):
                def f(run, a, k, v=v, name=name):
                    p = Prop(v.fget, v.fset, v.fdel)
                    setattr(p, {'getter': 'fget', 'setter': 'fset', 'deleter': 'fdel'}[name], a[0])
                    return p
                return Builtin(name, f)
            if name == 'fget':
                return v.fget
        if isinstance(v, (CM, SM)) and name == '__func__':
            return v.f
        raise Undecided('attribute %s of %r' % (name, v))

    def unset_field(self, v, cls, name):
        if name.startswith('_cached'):
            return True
        u = self.cfg.get('unset')
        return bool(u) and name in u

    def symfield(self, v, name):
        t = mk('attr', v, name, sort=self.attr_sort(v, name))
        inv = self.cfg.get('invariants')
        if inv and (v, name) not in self.invs:
            self.invs.add((v, name))
            ty = self.type_of(v)
            for c in (ty.mro if ty is not None else ()):
                f = inv.get((c.name, name))
                if f is not None:
                    f(self.facts, t)
                    break
        return t

    def class_attr(self, c, name, strict=True):
        from . import models
        if name in ('__name__',):
            return self.get(c.ns).d.get('__name__', C(c.name))
        if name == '__qualname__':
            n = c.module.name + '.' if c.module else ''
            return C(c.qualname[len(n):] if n and c.qualname.startswith(n) else c.qualname)
        if name == '__module__':
            return C(c.module.name if c.module else 'builtins')
        if name == '__mro__':
            return Tup(c.mro)
        if name == '__bases__':
            return Tup(c.bases)
        if name == '__base__':
            return c.bases[0] if c.bases else NONE
        if name == '__class__':
            return self.B(type)
        if name == '__dict__':
            return self.mkdict([(C(k), x) for k, x in self.get(c.ns).d.items()])
        if name == '__subclasses__':
            return Builtin('__subclasses__', lambda run, a, k: run.mklist(c.subs))
        if name == 'mro':
            return Builtin('mro', lambda run, a, k: run.mklist(c.mro))
        a = self.cls_lookup(c, name)
        if a is not MISSING:
            if isinstance(a, CM):
                return BM(a.f, c)
            if isinstance(a, SM):
                return a.f
            return a
        bm = models.class_method(self, c, name)
        if bm is not None:
            return bm
        if any(getattr(k, 'ext', False) for k in c.mro):
            return mk('ext', '%s.%s' % (c.qualname, name))
        self.throw('AttributeError', 'type object %r has no attribute %r' % (c.name, name))

    def super_attr(self, s, name):
        from . import models
        obj = s.obj
        ty = obj if isinstance(obj, ClassObj) else self.type_of(obj)
        if isinstance(obj, ClassObj) and not obj.issub(s.cls):
            raise Undecided('super of a metaclass')
        mro = ty.mro
        i = mro.index(s.cls) if s.cls in mro else -1
        for c in mro[i + 1:]:
            d = self.get(c.ns).d
            if name in d:
                a = d[name]
                if isinstance(a, CM):
                    return BM(a.f, ty)
                if isinstance(a, SM):
                    return a.f
                if name == '__new__':
                    return a
                if isinstance(obj, ClassObj):
                    return a
                return self.bind(a, obj, ty)
            if c.builtin is not None:
                bm = models.class_method(self, c, name)
                if bm is not None:
                    if name == '__new__' or isinstance(obj, ClassObj):
                        return bm
                    return BM(bm, obj)
            if getattr(c, 'ext', False):
                return mk('ext', '%s.%s' % (c.qualname, name))
        self.throw('AttributeError', 'super has no attribute %s' % name)

    def setattr_(self, v, name, val):
        ty = None
        if v.__class__ is T:
            v = self.facts.norm(v)
        if (v.__class__ is Ref and v.kind == 'inst') or (v.__class__ is T and isinstance(v.sort, ClassObj)):
            ty = self.type_of(v)
            a = self.cls_lookup(ty, '__setattr__')
            if isinstance(a, Func):
                self.call(a, [v, C(name), val], {})
                return
        self.setattr_raw(v, name, val)

    def setattr_raw(self, v, name, val):
        if name == '__class__':
            if v.__class__ is Ref and v.kind == 'inst' and isinstance(val, ClassObj):
                self.mut(v).cls = val
                return
            raise Undecided('change of a class')
        if v.__class__ is T:
            v = self.facts.norm(v)
        if v.__class__ is Ref and v.kind == 'inst':
            o = self.get(v)
            a = self.cls_lookup(o.cls, name)
            if isinstance(a, Prop):
                if a.fset is None:
                    self.throw('AttributeError', "can't set attribute")
                self.call(a.fset, [v, val], {})
                return
            if name not in o.attrs:
                sl = self.slots(o.cls)
                if sl is not None and name not in sl:
                    self.throw('AttributeError', 'no attribute %s to assign' % name)
            self.mut(v).attrs[name] = val
            return
        if v.__class__ is T:
            if isinstance(v.sort, ClassObj):
                a = self.cls_lookup(v.sort, name)
                if isinstance(a, Prop):
                    if a.fset is None:
                        self.throw('AttributeError', "can't set attribute")
                    self.call(a.fset, [v, val], {})
                    return
            if v.op == 'c' or v.sort in ('bytes', 'int', 'uint', 'str', 'bool'):
                self.throw('AttributeError', 'no attribute assignment')
            if self.loading and v.op == 'ext':
                return
            self.symattrs.setdefault(v, {})[name] = val
            return
        if isinstance(v, (ClassObj, Mod)):
            self.mut(v.ns).d[name] = val
            return
        if isinstance(v, Func):
            if self.loading or '<locals>' in v.qualname or v.name == '<lambda>':
                v.attrs[name] = val
            return
        if isinstance(v, (Ref, Tup)):
            self.throw('AttributeError', 'no attribute assignment')
        raise Undecided('attribute assignment on %r' % (v,))

    def delattr_(self, v, name):
        if v.__class__ is T:
            v = self.facts.norm(v)
        ty = self.type_of(v) if v.__class__ in (Ref, T) else None
        if ty is not None and ty.builtin is None:
            a = self.cls_lookup(ty, '__delattr__')
            if isinstance(a, Func):
                self.call(a, [v, C(name)], {})
                return
        if v.__class__ is Ref and v.kind == 'inst':
            o = self.mut(v)
            if name not in o.attrs:
                self.throw('AttributeError', name)
            del o.attrs[name]
            return
        if isinstance(v, (ClassObj, Mod)):
            d = self.mut(v.ns).d
            if name not in d:
                self.throw('AttributeError', name)
            del d[name]
            return
        if v.__class__ is T:
            self.symattrs.setdefault(v, {})[name] = MISSING
            return
        raise Undecided('del attribute of %r' % (v,))

    # -------------------------------------------------------------- externals
    def ext(self, dotted):
        c = self.prog.ext_consts.get(dotted, MISSING)
        if c is not MISSING:
            return c.make(self) if c.__class__ is Lazy else c
        m = self.prog.ext_models.get(dotted)
        if m is not None:
            return m
        return mk('ext', dotted)

    def ext_attr(self, v, name):
        return self.ext(v.args[0] + '.' + name)

    # -------------------------------------------------------------- calls
    def call(self, f, args, kwargs, node=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('analysis budget exhausted')
        if not self.steps & 255 and time.monotonic() > DEADLINE[0]:
            raise Undecided('time limit of the whole check')
        if isinstance(f, BM):
            if isinstance(f.func, (CM, SM)):
                return self.call(f.func.f, args, kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassObj):
            return self.call_class(f, list(args), kwargs)
        if isinstance(f, SM):
            return self.call(f.f, args, kwargs)
        if f.__class__ is T:
            f = self.facts.norm(f)
            if f.op == 'ext':
                return self.call_ext(f.args[0], args, kwargs)
            if f.op == 'c' or f.sort in ('bytes', 'int', 'uint', 'str', 'bool', 'none') or isinstance(f.sort, tuple):
                self.throw('TypeError', 'not callable')
            if isinstance(f.sort, ClassObj):
                m = self.user_method(f, '__call__')
                if m is None:
                    self.throw('TypeError', 'not callable')
                return self.call(m, args, kwargs)
            return self.call_unknown(f, args, kwargs)
        if f.__class__ is Ref and f.kind == 'inst':
            m = self.user_method(f, '__call__')
            if m is None:
                self.throw('TypeError', 'not callable')
            return self.call(m, args, kwargs)
        self.throw('TypeError', 'not callable')

    def kwreify(self, kwargs):
        return tuple((k, self.reify(v)) for k, v in sorted(kwargs.items()))

    def opaque_call(self, name, args, kwargs, sort=None, effect=False):
        """an uninterpreted function of its arguments"""
        ra = [self.reify(a) for a in args]
        if kwargs:
            ra.append(mk('kw', self.kwreify(kwargs)))
        if effect:
            n = self.effects.setdefault('calls', [])
            t = mk('call', name, *ra, len([1 for x in n if x.op == 'call' and x.args[0] == name and x.args[1:-1] == tuple(ra)]), sort=sort)
            n.append(t)
        else:
            t = mk('call', name, *ra, sort=sort)
        self.maybe_raises(name, t)
        return t

    def maybe_raises(self, name, t):
        mr = self.cfg.get('may_raise', {}).get(name)
        if mr is None:
            mr = self.prog.may_raise.get(name)
            if mr is None:
                return
            # known facts apply anywhere; new splits only inside a try that
            # handles the exception
            for cn in mr:
                cls = self.prog.exc_by_name(cn)
                q = self.facts.query_lit(mk('raises', t, cls))
                if q is True:
                    self.throw_opaque(cls, t)
                if q is None and any(self._handles(h, cls) for h in self.trys):
                    if self.d_lit(mk('raises', t, cls)):
                        self.throw_opaque(cls, t)
            return
        for cn in mr:
            cls = self.prog.exc_by_name(cn)
            if self.d_lit(mk('raises', t, cls)):
                self.throw_opaque(cls, t)

    def _handles(self, hs, cls):
        return any(cls.issub(h) or h.issub(cls) for h in hs)

    def throw_opaque(self, cls, t):
        o = INST(cls)
        o.attrs['args'] = Tup([t])
        # instance fields of repository exceptions are unknown functions of the call
        if cls.builtin is None and not getattr(cls, 'ext', False):
            for n in self.fields(cls):
                o.attrs[n] = mk('attr', mk('excof', t, cls), n)
        raise PyExc(self.alloc(o, 'inst'), cls, self.here())

    def call_ext(self, dotted, args, kwargs):
        base = dotted.split('.')[-1]
        eff = dotted in self.prog.effectful
        return self.opaque_call(dotted, args, kwargs, effect=eff, sort=self.prog.ext_sorts.get(dotted))

    def call_unknown(self, f, args, kwargs):
        """call of a value nothing is known about"""
        if f.op == 'attr':
            name, obj = f.args[1], f.args[0]
            from . import models
            r = models.unknown_method(self, obj, name, args, kwargs)
            if r is not NotImplemented:
                return r
            hook = self.cfg.get('method_sorts', {})
            ra = [self.reify(a) for a in args]
            if kwargs:
                ra.append(mk('kw', self.kwreify(kwargs)))
            pure = name in self.cfg.get('pure_methods', ()) or name in hook
            if pure:
                t = mk('meth', name, obj, *ra, sort=hook.get(name))
            else:
                lst = self.effects.setdefault('calls', [])
                n = len([1 for x in lst if x.op == 'meth' and x.args[:-1] == (name, obj) + tuple(ra)])
                t = mk('meth', name, obj, *ra, n, sort=hook.get(name))
                lst.append(t)
            self.maybe_raises('.' + name, t)
            return t
        return self.opaque_call('()', [f] + list(args), kwargs)

    def call_func(self, f, args, kwargs):
        q = f.qualname
        m = self.opaque.get(q, MISSING)
        if m is MISSING and self.opaque:
            m = self.opaque.get(q.rsplit('.', 1)[0] + '.*', MISSING)
        if m is not MISSING:
            self.used_opaque.add(q)
            fr = self.bind_args(f, args, kwargs)
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            vals = [fr.locals[n] for n in names]
            kw = {x.arg: fr.locals[x.arg] for x in a.kwonlyargs}
            if a.vararg:
                vals += list(fr.locals[a.vararg.arg].items)
            if callable(m):
                return m(self, vals, kw)
            t = self.opaque_call(q, vals, kw, sort=m)
            return t
        m = self.prog.models.get(q)
        if m is not None:
            fr = self.bind_args(f, args, kwargs)
            a = f.node.args
            return m(self, [fr.locals[x.arg] for x in a.posonlyargs + a.args], {})
        frame = self.bind_args(f, args, kwargs)
        if f.code.isgen:
            return self.alloc(ITR(gen=(f, frame)), 'iter')
        return self.exec_function_body(f, frame)

    def exec_function_body(self, f, frame):
        self.depth += 1
        if self.depth > self.cfg.get('max_depth', 60):
            self.depth -= 1
            raise Undecided('recursion too deep in %s' % f.qualname)
        saved = self.where
        saved_try = self.trys
        self.stack.append(f.qualname)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, frame)
            try:
                self.exec_block(f.node.body, frame)
            except ReturnSig as r:
                if self.where and not self.where[0].startswith('spec'):
                    self.ret_where = self.where
                return r.v
            if self.where and not self.where[0].startswith("spec"):
                self.ret_where = self.where
            return NONE
        finally:
            self.depth -= 1
            self.where = saved
            self.trys = saved_try
            self.stack.pop()

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        fr = Frame(f.code, f.module, f.frame, f.cls)
        fr.func = f
        loc = fr.locals
        pos = a.posonlyargs + a.args
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if not a.vararg:
                self.throw('TypeError', '%s() takes %d positional arguments but %d were given' %
                           (f.name, len(pos), len(args)))
            loc[a.vararg.arg] = Tup(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg:
            loc[a.vararg.arg] = Tup(())
        for p, v in zip(pos, args):
            loc[p.arg] = v
        if pos:
            fr.first = loc.get(pos[0].arg)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg in loc:
                if p.arg in kwargs and p not in a.posonlyargs:
                    self.throw('TypeError', 'multiple values for argument %s' % p.arg)
                continue
            if p.arg in kwargs:
                loc[p.arg] = kwargs.pop(p.arg)
            elif i >= len(pos) - nd:
                loc[p.arg] = f.defaults[i - (len(pos) - nd)]
            else:
                self.throw('TypeError', '%s() missing required argument %s' % (f.name, p.arg))
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kwargs:
                loc[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                loc[p.arg] = d
            else:
                self.throw('TypeError', '%s() missing keyword argument %s' % (f.name, p.arg))
        if a.kwarg:
            loc[a.kwarg.arg] = self.mkdict([(C(k), v) for k, v in kwargs.items()])
        elif kwargs:
            self.throw('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, sorted(kwargs)[0]))
        return fr

    def call_class(self, cls, args, kwargs):
        from . import models
        if cls.builtin is not None:
            return models.construct(self, cls, args, kwargs)
        h = self.opaque.get(cls.qualname, MISSING)
        if h is not MISSING:
            if callable(h):
                return h(self, [cls] + args, kwargs)
            init = self.cls_lookup(cls, '__init__')
            if isinstance(init, Func):
                fr = self.bind_args(init, [NONE] + args, kwargs)
                a = init.node.args
                vals = [fr.locals[x.arg] for x in (a.posonlyargs + a.args)[1:]]
                return self.opaque_call(cls.qualname, vals, {}, sort=cls)
            return self.opaque_call(cls.qualname, args, kwargs, sort=cls)
        new = self.cls_lookup(cls, '__new__')
        if isinstance(new, SM):
            new = new.f
        if isinstance(new, Func):
            obj = self.call_func(new, [cls] + args, kwargs)
        else:
            obj = models.object_new(self, cls, args, kwargs)
        ty = self.type_of(obj) if not isinstance(obj, ClassObj) else self.B(type)
        if ty is not None and ty.issub(cls):
            init = self.cls_lookup(cls, '__init__')
            if isinstance(init, Func):
                self.call_func(init, [obj] + args, kwargs)
            elif not isinstance(new, Func):
                models.object_init_check(self, cls, args, kwargs)
        return obj

    # -------------------------------------------------------------- modules
    def import_module(self, name):
        """module object for a dotted name, or an external"""
        if name in self.prog.modules:
            return self.prog.modules[name]
        path = self.prog.find_module(name)
        if path is None:
            return self.ext(name)
        if not self.loading:
            raise Undecided('import of %s at run time' % name)
        parent = None
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
            if name in self.prog.modules:
                return self.prog.modules[name]
        with open(path, encoding='utf8') as fd:
            src = fd.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        self.prog.files[name] = (path, src, tree)
        ns = self.alloc(NS(), 'ns')
        mod = Mod(name, ns, path, tree)
        self.prog.modules[name] = mod
        d = self.get(ns).d
        d['__name__'] = C('__main__' if name in self.prog.scripts else name)
        d['__file__'] = C(path)
        fr = Frame(code_of(tree), mod, None)
        fr.ns = ns
        saved = self.where
        self.exec_module(tree, fr)
        self.where = saved
        if isinstance(parent, Mod):
            self.get(parent.ns).d.setdefault(name.rsplit('.', 1)[1], mod)
        return mod

    def exec_module(self, tree, fr):
        for st in tree.body:
            if fr.module.name in self.prog.scripts and isinstance(st, (ast.If, ast.For, ast.While, ast.With)):
                continue
            try:
                self.exec(st, fr)
            except PyExc as e:
                if fr.module.name in self.prog.scripts:
                    # the command line's own action: depends on the outside world
                    return
                self.prog.problems.append((fr.module.name, getattr(st, 'lineno', 0), 'raises %s at import: %s' % (
                    e.cls.name, show(self.reify(e.val)))))
                raise Undecided('module %s raises %s when imported (line %s)' % (fr.module.name, e.cls.name, st.lineno))
            except Undecided as e:
                if fr.module.name in self.prog.scripts:
                    return
                self.prog.problems.append((fr.module.name, getattr(st, 'lineno', 0), str(e)))
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.get(fr.ns).d.setdefault(n.id, mk('unknown', fr.module.name + '.' + n.id))

    # -------------------------------------------------------------- names
    def mangle(self, name, frame):
        if name.startswith('__') and not name.endswith('__'):
            f = frame
            while f is not None:
                if f.cls is not None:
                    return '_%s%s' % (f.cls[0].lstrip('_'), name)
                f = f.parent
        return name

    def load_name(self, name, frame):
        name = self.mangle(name, frame)
        f = frame
        first = True
        while f is not None:
            if f.ns is not None:
                d = self.get(f.ns).d
                if f.isclass:
                    if first and name in d:
                        return d[name]
                else:
                    if name in d:
                        return d[name]
                    break
            elif name in f.locals:
                return f.locals[name]
            elif first and f.code is not None and name in f.code.localset and not f.isclass:
                self.throw('UnboundLocalError', name)
            if f.code is not None and name in f.code.globals:
                f = None
                break
            first = False
            f = f.parent
        d = self.get(frame.module.ns).d
        if name in d:
            return d[name]
        return self.load_builtin(name, frame)

    def load_builtin(self, name, frame):
        from . import models
        v = models.builtin_name(self, name)
        if v is None:
            if name == '__class__':
                return self.lex_class(frame)
            self.throw('NameError', name)
        return v

    def lex_class(self, frame):
        f = frame
        while f is not None:
            if f.cls is not None and not f.isclass:
                return f.cls[1]
            f = f.parent
        raise Undecided('no lexical class')

    def store_name(self, name, v, frame):
        name = self.mangle(name, frame)
        if frame.ns is not None:
            if frame.code is not None and name in frame.code.globals:
                self.mut(frame.module.ns).d[name] = v
            else:
                self.mut(frame.ns).d[name] = v
            return
        if frame.code is not None:
            if name in frame.code.globals:
                self.mut(frame.module.ns).d[name] = v
                return
            if name in frame.code.nonlocals:
                f = frame.parent
                while f is not None:
                    if f.ns is None and (name in f.locals or (f.code and name in f.code.localset)):
                        f.locals[name] = v
                        return
                    f = f.parent
        frame.locals[name] = v

    # -------------------------------------------------------------- statements
    def exec_block(self, body, frame):
        for st in body:
            self.exec(st, frame)

    def exec(self, st, frame):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('analysis budget exhausted')
        self.where = (frame.module.name if frame.module else '?', getattr(st, 'lineno', 0))
        return getattr(self, 'x_' + st.__class__.__name__, self.x_unknown)(st, frame)

    def x_unknown(self, st, frame):
        raise Undecided('statement %s' % st.__class__.__name__)

    def x_Expr(self, st, frame):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, frame)

    def x_Pass(self, st, frame):
        pass

    def x_Return(self, st, frame):
        v = self.eval(st.value, frame) if st.value is not None else NONE
        self.where = (frame.module.name if frame.module else '?', st.lineno)
        raise ReturnSig(v)

    def x_Assign(self, st, frame):
        v = self.eval(st.value, frame)
        for t in st.targets:
            self.assign(t, v, frame)

    def x_AnnAssign(self, st, frame):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, frame), frame)

    def x_AugAssign(self, st, frame):
        t = st.target
        op = st.op.__class__.__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, frame)
            rhs = self.eval(st.value, frame)
            self.store_name(t.id, self.inplace(op, cur, rhs), frame)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, frame)
            name = self.mangle(t.attr, frame)
            cur = self.getattr_(o, name)
            rhs = self.eval(st.value, frame)
            self.setattr_(o, name, self.inplace(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            k = self.eval_index(t.slice, frame)
            cur = self.getitem(o, k)
            rhs = self.eval(st.value, frame)
            self.setitem(o, k, self.inplace(op, cur, rhs))
        else:
            raise Undecided('augmented target')

    def inplace(self, op, a, b):
        if a.__class__ is T and isinstance(a.sort, tuple) and a.sort[0] in ('list', 'stack') and op == 'Add':
            a = self.sym_to_ref(a)
        if a.__class__ is Ref:
            o = self.get(a)
            if isinstance(o, LST) and op == 'Add':
                items = list(self.iterate(b))
                self.force_lazy(a)
                self.lget(a, True).items.extend(items)
                return a
            if isinstance(o, BAR) and op == 'Add':
                bb = self.bytes_of(b)
                o = self.mut(a)
                o.data = cat(o.data, bb)
                return a
            if isinstance(o, SET) and op == 'BitOr':
                for x in list(self.iterate(b)):
                    self.set_add(a, x)
                return a
            if isinstance(o, INST):
                dn = {'Add': '__iadd__', 'Sub': '__isub__', 'BitOr': '__ior__'}.get(op)
                m = self.user_method(a, dn) if dn else None
                if m is not None:
                    return self.call(m, [b], {})
        return self.binop(op, a, b)

    def force_lazy(self, ref):
        o = self.get(ref)
        if getattr(o, 'lazy', False) and not o.dirty and not o.items and o.base is None:
            self.force_list(ref)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, frame)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, frame), self.mangle(t.attr, frame), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            self.setitem(o, self.eval_index(t.slice, frame), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not star and v.__class__ is T and v.op != 'c' and not self.is_bytes(v) and \
                    (v.sort is None or isinstance(v.sort, tuple)) and v.op != 'range' and v not in self.symrefs:
                # unpacking an unknown value: assume it has that many items
                n = len(t.elts)
                if v.sort is None or v.sort[0] == 'tuple':
                    for i, e in enumerate(t.elts):
                        self.assign(e, self.elem(v, C(i)), frame)
                    return
            if star:
                items = list(self.iterate(v))
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    self.throw('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, frame)
                self.assign(t.elts[i].value, self.mklist(items[i:len(items) - after]), frame)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, frame)
                return
            items = list(self.iterate(v))
            if len(items) != len(t.elts):
                self.throw('ValueError', 'unpacking %d values into %d' % (len(items), len(t.elts)))
            for e, x in zip(t.elts, items):
                self.assign(e, x, frame)
        else:
            raise Undecided('assignment target %s' % t.__class__.__name__)

    def bit_test(self, e, frame):
        """(value of the test, the bit term it is true by or None)"""
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return None, None
        v = self.eval(e, frame)
        if v.__class__ is T and v.op != 'c':
            v = self.facts.norm(v)
            d, c = lin_of(v)
            if len(d) == 1:
                (a, k), = d.items()
                if a.op in ('bit', 'xor1', 'and1'):
                    if c == 0:
                        return v, a
                    if c == -k:
                        return v, sub(C(1), a)
        return v, None

    PURE = (ast.Constant, ast.Name, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context, ast.Subscript)

    def convert_if(self, st, bit, frame):
        """`if bit: x |= n` without parting the paths: x |= n * bit"""
        if len(st.body) != 1 or st.orelse or not isinstance(st.body[0], ast.AugAssign):
            return False
        b = st.body[0]
        op = b.op.__class__.__name__
        if op not in ('BitOr', 'Add', 'Sub', 'BitXor') or not all(isinstance(x, self.PURE) for x in ast.walk(b.value)) or \
                any(isinstance(x, ast.Subscript) for x in ast.walk(b.value)):
            return False
        t = b.target
        if isinstance(t, ast.Subscript):
            if not isinstance(t.value, ast.Name) or not all(isinstance(x, self.PURE) for x in ast.walk(t.slice)):
                return False
            o, k = self.eval(t.value, frame), self.eval(t.slice, frame)
            x = self.get(o) if o.__class__ is Ref else None
            if not is_c(k) or not isinstance(k.args[0], int):
                return False
            if isinstance(x, BAR):
                n = length(x.data)
            elif isinstance(x, LST) and x.base is None and not x.dirty and not getattr(x, 'lazy', False):
                n = C(len(x.items))
            else:
                return False
            if not is_c(n) or not -n.args[0] <= k.args[0] < n.args[0]:
                return False
            cur = self.getitem(o, k)
        elif isinstance(t, ast.Name):
            cur = self.load_name(t.id, frame)
        else:
            return False
        v = self.eval(b.value, frame)
        if not self.is_int(cur) or not is_c(v) or v.args[0].__class__ is not int or v.args[0] < 0:
            return False
        r = self.binop(op, cur, scale(bit, v.args[0]))
        if isinstance(t, ast.Subscript):
            self.setitem(o, k, r)
        else:
            self.store_name(t.id, r, frame)
        return True

    def x_If(self, st, frame):
        v, bit = self.bit_test(st.test, frame)
        if bit is not None and self.convert_if(st, bit, frame):
            return
        if self.truth(v) if v is not None else self.cond(st.test, frame):
            self.exec_block(st.body, frame)
        else:
            self.exec_block(st.orelse, frame)

    def x_Assert(self, st, frame):
        if not self.cond(st.test, frame):
            self.where = (frame.module.name if frame.module else '?', st.lineno)
            self.throw('AssertionError', 'assert')

    def x_Raise(self, st, frame):
        if st.exc is None:
            if getattr(self, 'cur_exc', None) is not None:
                raise self.cur_exc
            self.throw('RuntimeError', 'No active exception')
        v = self.eval(st.exc, frame)
        if st.cause is not None:
            self.eval(st.cause, frame)
        self.where = (frame.module.name if frame.module else '?', st.lineno)
        if isinstance(v, ClassObj):
            v = self.call(v, [], {})
        self.where = (frame.module.name if frame.module else '?', st.lineno)
        self.raise_value(v)

    def raise_value(self, v):
        ty = self.type_of(v)
        if ty is None:
            raise Undecided('raising %r' % (v,))
        if not ty.issub(self.B(BaseException)):
            self.throw('TypeError', 'exceptions must derive from BaseException')
        raise PyExc(v, ty, self.where)

    def loop_guard(self, st):
        return [0, self.nforks]

    def loop_tick(self, g):
        if self.nforks != g[1]:
            g[0] += 1
            g[1] = self.nforks
            if g[0] > self.cfg.get('unroll', self.K + 1):
                raise CutPath('loop unrolled %d times' % g[0])

    def x_While(self, st, frame):
        g = [0, self.nforks]
        n = 0
        while True:
            if not self.cond(st.test, frame):
                self.exec_block(st.orelse, frame)
                return
            n += 1
            if n > 20000:
                raise Undecided('endless loop')
            try:
                self.exec_block(st.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                pass
            self.loop_tick(g)

    def x_For(self, st, frame):
        it = self.eval(st.iter, frame)
        for x in self.iterate(it):
            self.assign(st.target, x, frame)
            try:
                self.exec_block(st.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                pass
        self.exec_block(st.orelse, frame)

    def x_Break(self, st, frame):
        raise BreakSig()

    def x_Continue(self, st, frame):
        raise ContinueSig()

    def x_Try(self, st, frame):
        hs = []
        for h in st.handlers:
            if h.type is None:
                hs.append(self.B(BaseException))
            else:
                try:
                    t = self.eval(h.type, frame)
                except PyExc:
                    continue
                for c in (t.items if t.__class__ is Tup else [t]):
                    c = self.as_exc_class(c)
                    if c is not None:
                        hs.append(c)
        saved = self.trys
        self.trys = self.trys + [hs]
        try:
            try:
                self.exec_block(st.body, frame)
            except PyExc as e:
                self.trys = saved
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type, frame)
                        match = False
                        for c in (t.items if t.__class__ is Tup else [t]):
                            c = self.as_exc_class(c)
                            if c is not None and e.cls.issub(c):
                                match = True
                    if match:
                        if h.name:
                            self.store_name(h.name, e.val, frame)
                        prev = getattr(self, 'cur_exc', None)
                        self.cur_exc = e
                        try:
                            self.exec_block(h.body, frame)
                        finally:
                            self.cur_exc = prev
                            if h.name:
                                frame.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.trys = saved
                self.exec_block(st.orelse, frame)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.trys = saved
            if st.finalbody:
                w = self.where
                self.exec_block(st.finalbody, frame)
                self.where = w
            raise
        else:
            self.trys = saved
            self.exec_block(st.finalbody, frame)
        finally:
            self.trys = saved
    x_TryStar = x_Try

    def as_exc_class(self, c):
        if isinstance(c, ClassObj):
            return c
        if c.__class__ is T and c.op == 'ext':
            return self.prog.exc_by_name(c.args[0])
        return None

    def x_With(self, st, frame):
        vals = []
        for item in st.items:
            cm = self.eval(item.context_expr, frame)
            m = self.user_method(cm, '__enter__')
            v = self.call(m, [], {}) if m is not None else cm
            vals.append(cm)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, frame)
        try:
            self.exec_block(st.body, frame)
        except PyExc as e:
            for cm in reversed(vals):
                m = self.user_method(cm, '__exit__')
                if m is not None:
                    if self.truth(self.call(m, [e.cls, e.val, NONE], {})):
                        return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            for cm in reversed(vals):
                m = self.user_method(cm, '__exit__')
                if m is not None:
                    self.call(m, [NONE, NONE, NONE], {})
            raise
        for cm in reversed(vals):
            m = self.user_method(cm, '__exit__')
            if m is not None:
                self.call(m, [NONE, NONE, NONE], {})

    def x_Delete(self, st, frame):
        for t in st.targets:
            self.delete(t, frame)

    def delete(self, t, frame):
        if isinstance(t, ast.Name):
            name = self.mangle(t.id, frame)
            if frame.ns is not None:
                d = self.mut(frame.ns).d
            else:
                d = frame.locals
            if name not in d:
                self.throw('NameError', name)
            del d[name]
        elif isinstance(t, ast.Attribute):
            self.delattr_(self.eval(t.value, frame), self.mangle(t.attr, frame))
        elif isinstance(t, ast.Subscript):
            self.delitem(self.eval(t.value, frame), self.eval_index(t.slice, frame))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, frame)

    def x_Global(self, st, frame):
        pass
    x_Nonlocal = x_Global

    def x_Import(self, st, frame):
        for a in st.names:
            if a.asname:
                self.store_name(a.asname, self.import_dotted(a.name), frame)
            else:
                self.import_dotted(a.name)
                self.store_name(a.name.split('.')[0], self.import_dotted(a.name.split('.')[0]), frame)

    def import_dotted(self, name):
        if name in self.prog.modules or self.prog.find_module(name) is not None:
            if not self.loading and name not in self.prog.modules:
                raise Undecided('import of %s' % name)
            return self.import_module(name)
        root = name.split('.')[0]
        if self.prog.find_module(root) is not None:
            self.throw('ImportError', name)
        return self.ext(name)

    def x_ImportFrom(self, st, frame):
        name = st.module or ''
        if name == '__future__':
            return
        if st.level:
            pkg = frame.module.name
            if not frame.module.path.endswith('__init__.py'):
                pkg = pkg.rsplit('.', 1)[0] if '.' in pkg else ''
            for _ in range(st.level - 1):
                pkg = pkg.rsplit('.', 1)[0] if '.' in pkg else ''
            name = (pkg + '.' + name).strip('.') if name else pkg
        mod = self.import_dotted(name)
        for a in st.names:
            if a.name == '*':
                if isinstance(mod, Mod):
                    d = self.get(mod.ns).d
                    al = d.get('__all__')
                    names = [x.args[0] for x in self.iterate(al)] if al is not None else \
                        [n for n in d if not n.startswith('_')]
                    for n in names:
                        if n not in d:
                            self.throw('AttributeError', 'module %s has no attribute %s (named in __all__)' % (name, n))
                        self.store_name(n, d[n], frame)
                continue
            if isinstance(mod, Mod):
                d = self.get(mod.ns).d
                if a.name in d:
                    v = d[a.name]
                elif self.prog.find_module(name + '.' + a.name) is not None:
                    v = self.import_dotted(name + '.' + a.name)
                else:
                    self.throw('ImportError', 'cannot import name %s from %s' % (a.name, name))
            else:
                v = self._getattr(mod, a.name)
            self.store_name(a.asname or a.name, v, frame)

    def qual(self, name, frame):
        f = frame
        if f.ns is not None and not f.isclass:
            return '%s.%s' % (f.module.name, name)
        if f.isclass:
            return '%s.%s' % (f.cls[2], name)
        fn = f
        while fn is not None and fn.func is None:
            fn = fn.parent
        if fn is not None:
            return '%s.<locals>.%s' % (fn.func.qualname, name)
        return '%s.%s' % (f.module.name if f.module else '?', name)

    def lexcls(self, frame):
        f = frame
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    def mkfunc(self, node, frame, name):
        a = node.args
        defaults = [self.eval(d, frame) for d in a.defaults]
        kwd = [self.eval(d, frame) if d is not None else None for d in a.kw_defaults]
        clo = frame if not (frame.ns is not None and not frame.isclass) else None
        f = Func(node, frame.module, clo, self.qual(name, frame), self.lexcls(frame), defaults, kwd, code_of(node))
        return f

    def x_FunctionDef(self, st, frame):
        f = self.mkfunc(st, frame, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dec = self.eval(d, frame)
            v = self.call(dec, [v], {})
        if v is f and frame.isclass and st.name in ('__new__',):
            v = SM(f)
        if v is f and frame.isclass and st.name in ('__init_subclass__', '__class_getitem__'):
            v = CM(f)
        self.store_name(st.name, v, frame)

    def x_ClassDef(self, st, frame):
        bases = []
        for b in st.bases:
            v = self.eval(b, frame)
            if v.__class__ is T and v.op == 'ext':
                v = self.prog.exc_by_name(v.args[0]) or self.prog.ext_class(v.args[0])
            if isinstance(v, Builtin) and getattr(v, 'ascls', None) is not None:
                v = v.ascls
            if not isinstance(v, ClassObj):
                raise Undecided('base class %r' % (v,))
            bases.append(v)
        for k in st.keywords:
            self.eval(k.value, frame)
        if not bases:
            bases = [self.B(object)]
        ns = self.alloc(NS(), 'ns')
        fr = Frame(code_of(st), frame.module, frame)
        fr.ns = ns
        fr.isclass = True
        q = self.qual(st.name, frame)
        cell = [st.name, None, q]
        fr.cls = cell
        self.exec_block(st.body, fr)
        if not self.loading and frame.ns is None:
            q = q
        cls = ClassObj(st.name, q, bases, ns, frame.module, None, st)
        if not self.loading:
            for b in bases:
                b.subs.remove(cls)
        cell[1] = cls
        v = cls
        for d in reversed(st.decorator_list):
            dec = self.eval(d, frame)
            v = self.call(dec, [v], {})
        self.store_name(st.name, v, frame)

    def x_Match(self, st, frame):
        subj = self.eval(st.subject, frame)
        for case in st.cases:
            if self.match(case.pattern, subj, frame) and (case.guard is None or self.cond(case.guard, frame)):
                self.exec_block(case.body, frame)
                return

    def match(self, p, v, frame):
        k = p.__class__.__name__
        if k == 'MatchValue':
            return self.equal(v, self.eval(p.value, frame))
        if k == 'MatchSingleton':
            return self.is_same(v, C(p.value))
        if k == 'MatchAs':
            if p.pattern is not None and not self.match(p.pattern, v, frame):
                return False
            if p.name:
                self.store_name(p.name, v, frame)
            return True
        if k == 'MatchOr':
            return any(self.match(q, v, frame) for q in p.patterns)
        if k == 'MatchClass' and not p.patterns and not p.kwd_attrs:
            return self.isinstance_(v, self.eval(p.cls, frame))
        raise Undecided('pattern %s' % k)

    # -------------------------------------------------------------- expressions
    def eval(self, e, frame):
        self.steps += 1
        return getattr(self, 'e_' + e.__class__.__name__, self.e_unknown)(e, frame)

    def e_unknown(self, e, frame):
        raise Undecided('expression %s' % e.__class__.__name__)

    def cond(self, e, frame):
        """truth of a condition expression"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                for x in e.values:
                    if not self.cond(x, frame):
                        return False
                return True
            for x in e.values:
                if self.cond(x, frame):
                    return True
            return False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, frame)
        return self.truth(self.eval(e, frame))

    def e_Constant(self, e, frame):
        v = e.value
        if isinstance(v, complex):
            raise Undecided('complex')
        return C(v)

    def e_Name(self, e, frame):
        return self.load_name(e.id, frame)

    def e_Attribute(self, e, frame):
        return self.getattr_(self.eval(e.value, frame), self.mangle(e.attr, frame))

    def e_Subscript(self, e, frame):
        o = self.eval(e.value, frame)
        return self.getitem(o, self.eval_index(e.slice, frame))

    def eval_index(self, s, frame):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, frame) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, frame)

    def e_Slice(self, e, frame):
        return self.eval_index(e, frame)

    def e_Tuple(self, e, frame):
        return Tup(self.eval_items(e.elts, frame))

    def e_List(self, e, frame):
        return self.mklist(self.eval_items(e.elts, frame))

    def e_Set(self, e, frame):
        return self.mkset(self.eval_items(e.elts, frame))

    def eval_items(self, elts, frame):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, frame)))
            else:
                out.append(self.eval(x, frame))
        return out

    def e_Dict(self, e, frame):
        r = self.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, frame)
                for kk in list(self.iterate(src)):
                    self.dict_set(r, kk, self.getitem(src, kk))
            else:
                kk = self.eval(k, frame)
                self.dict_set(r, kk, self.eval(v, frame))
        return r

    def e_BoolOp(self, e, frame):
        for x in e.values[:-1]:
            v = self.eval(x, frame)
            t = self.truth(v)
            if isinstance(e.op, ast.And):
                if not t:
                    return self.as_falsy(v)
            elif t:
                return v
        return self.eval(e.values[-1], frame)

    def as_falsy(self, v):
        return v

    def e_UnaryOp(self, e, frame):
        k = e.op.__class__.__name__
        if k == 'Not':
            return FALSE if self.cond(e.operand, frame) else TRUE
        v = self.eval(e.operand, frame)
        return self.unop(k, v)

    def unop(self, k, v):
        dn = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[k]
        m = self.user_method(v, dn)
        if m is not None:
            return self.call(m, [], {})
        v = self.unwrap(v)
        if v.__class__ is T:
            v = self.facts.norm(v)
            if v.op == 'c':
                x = v.args[0]
                try:
                    return C({'USub': lambda: -x, 'UAdd': lambda: +x, 'Invert': lambda: ~x}[k]())
                except TypeError as ex:
                    self.throw('TypeError', str(ex))
            if v.sort in ('bytes', 'str', 'none') or isinstance(v.sort, tuple):
                self.throw('TypeError', 'bad operand')
            if k == 'USub':
                return scale(v, -1)
            if k == 'UAdd':
                return v
            return sub(scale(v, -1), C(1))
        self.throw('TypeError', 'bad operand')

    def e_BinOp(self, e, frame):
        a = self.eval(e.left, frame)
        b = self.eval(e.right, frame)
        return self.binop(e.op.__class__.__name__, a, b)

    def e_Compare(self, e, frame):
        a = self.eval(e.left, frame)
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r, frame)
            if not self.compare(op.__class__.__name__, a, b):
                return FALSE
            a = b
        return TRUE

    def e_IfExp(self, e, frame):
        a, b = e.body, e.orelse
        v = None
        if isinstance(a, ast.Constant) and isinstance(b, ast.Constant) and a.value.__class__ is int and b.value.__class__ is int:
            v, bit = self.bit_test(e.test, frame)
            if bit is not None:
                return add(scale(bit, a.value), scale(sub(C(1), bit), b.value))
        return self.eval(a if (self.truth(v) if v is not None else self.cond(e.test, frame)) else b, frame)

    def e_NamedExpr(self, e, frame):
        v = self.eval(e.value, frame)
        f = frame
        while f is not None and f.code is None and f.ns is None:
            f = f.parent
        self.store_name(e.target.id, v, f)
        return v

    def e_Lambda(self, e, frame):
        return self.mkfunc(e, frame, '<lambda>')

    def e_Call(self, e, frame):
        # zero-argument super
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = frame
            while f is not None and f.func is None:
                f = f.parent
            while f is not None and f.func is not None and f.func.cls is None:
                f = f.parent
            if f is None:
                raise Undecided('super() outside a method')
            first = f.first
            # a nested function or comprehension: use the method's first argument
            return SuperV(f.func.cls[1], first)
        fn = self.eval(e.func, frame)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, frame)))
            else:
                args.append(self.eval(a, frame))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                src = self.eval(k.value, frame)
                if src.__class__ is T and src.sort in (None, 'dict'):
                    raise Undecided('** of an unknown mapping')
                for kk in list(self.iterate(src)):
                    kwargs[kk.args[0]] = self.getitem(src, kk)
            else:
                kwargs[k.arg] = self.eval(k.value, frame)
        self.where = (frame.module.name if frame.module else '?', e.lineno)
        return self.call(fn, args, kwargs)

    def e_Starred(self, e, frame):
        raise Undecided('starred')

    def e_JoinedStr(self, e, frame):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(C(v.value))
            else:
                x = self.eval(v.value, frame)
                if is_c(x) and v.format_spec is None and v.conversion == -1:
                    out.append(C(str(x.args[0])))
                else:
                    out.append(mk('fmt', self.reify(x), sort='str'))
        if all(is_c(x) for x in out):
            return C(''.join(x.args[0] for x in out))
        return mk('fstr', *out, sort='str')

    def e_Yield(self, e, frame):
        v = self.eval(e.value, frame) if e.value is not None else NONE
        f = frame
        while f.func is None:
            f = f.parent
        f.yields.append(v)
        if len(f.yields) > 3000:
            raise Undecided('endless generator')
        return NONE

    def e_YieldFrom(self, e, frame):
        it = self.eval(e.value, frame)
        f = frame
        while f.func is None:
            f = f.parent
        for x in self.iterate(it):
            f.yields.append(x)
        return NONE

    # comprehensions
    def comp(self, e, frame, emit):
        fr = Frame(None, frame.module, frame)
        fr.func = None

        def rec(i):
            if i == len(e.generators):
                emit(fr)
                return
            g = e.generators[i]
            it = self.eval(g.iter, fr if i else frame)
            for x in self.iterate(it):
                self.comp_assign(g.target, x, fr)
                if all(self.cond(c, fr) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def comp_assign(self, t, x, fr):
        self.assign(t, x, fr)

    def e_ListComp(self, e, frame):
        out = []
        self.comp(e, frame, lambda fr: out.append(self.eval(e.elt, fr)))
        return self.mklist(out)

    def e_SetComp(self, e, frame):
        out = []
        self.comp(e, frame, lambda fr: out.append(self.eval(e.elt, fr)))
        return self.mkset(out)

    def e_DictComp(self, e, frame):
        r = self.mkdict()
        self.comp(e, frame, lambda fr: self.dict_set(r, self.eval(e.key, fr), self.eval(e.value, fr)))
        return r

    def e_GeneratorExp(self, e, frame):
        """lazily evaluated; one live generator per expression value"""
        run = self

        def gen():
            fr = Frame(None, frame.module, frame)

            def rec(i):
                if i == len(e.generators):
                    yield run.eval(e.elt, fr)
                    return
                g = e.generators[i]
                it = first if i == 0 else run.eval(g.iter, fr)
                for x in run.iterate(it):
                    run.assign(g.target, x, fr)
                    if all(run.cond(c, fr) for c in g.ifs):
                        yield from rec(i + 1)
            yield from rec(0)
        first = self.eval(e.generators[0].iter, frame)
        return self.mkiter(gen())

    # -------------------------------------------------------------- operators
    def binop(self, op, a, b):
        dn = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Mod': 'mod', 'FloorDiv': 'floordiv', 'Div': 'truediv',
              'LShift': 'lshift', 'RShift': 'rshift', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Pow': 'pow',
              'MatMult': 'matmul'}[op]
        m = self.user_method(a, '__%s__' % dn)
        if m is not None:
            r = self.call(m, [b], {})
            if not (r.__class__ is T and r.op == 'c' and r.args[0] is NotImplemented):
                return r
        m = self.user_method(b, '__r%s__' % dn)
        if m is not None:
            r = self.call(m, [a], {})
            if not (r.__class__ is T and r.op == 'c' and r.args[0] is NotImplemented):
                return r
        a0, b0 = a, b
        a, b = self.unwrap(a), self.unwrap(b)
        if op == 'Mod' and self.is_str(a):
            return self.str_format(a, b)
        if op == 'Mod' and is_c(a) and isinstance(a.args[0], bytes):
            return self.opaque_call('bytes%', [a, b], {}, sort='bytes')
        # sequences
        for x in (a, b):
            if x.__class__ is T and isinstance(x.sort, tuple):
                if x.sort[0] in ('list', 'stack'):
                    if x is a:
                        a = self.sym_to_ref(x)
                    if x is b:
                        b = self.sym_to_ref(x)
                elif x.sort[0] == 'tuple':
                    t = Tup(list(self.iterate(x)))
                    if x is a:
                        a = t
                    if x is b:
                        b = t
        if a.__class__ is Ref or b.__class__ is Ref:
            return self.seq_binop(op, a, b)
        if a.__class__ is Tup or b.__class__ is Tup:
            if op == 'Add' and a.__class__ is Tup and b.__class__ is Tup:
                return Tup(a.items + b.items)
            if op == 'Mult':
                t, n = (a, b) if a.__class__ is Tup else (b, a)
                n = self.int_of(n)
                if is_c(n):
                    return Tup(t.items * n.args[0])
                raise Undecided('tuple repetition')
            self.throw('TypeError', 'tuple operand')
        if a.__class__ is not T or b.__class__ is not T:
            self.throw('TypeError', 'bad operands')
        a, b = self.facts.norm(a), self.facts.norm(b)
        if a.op == 'c' and b.op == 'c':
            return self.const_binop(op, a.args[0], b.args[0])
        ba, bb = self.is_bytes(a), self.is_bytes(b)
        if ba or bb:
            if op == 'Add':
                if (ba or a.sort is None) and (bb or b.sort is None):
                    return cat(a, b)
                self.throw('TypeError', "can't concat")
            if op == 'Mult':
                t, n = (a, b) if ba else (b, a)
                return self.rep(t, n)
            self.throw('TypeError', 'bytes operand')
        sa, sb = self.is_str(a), self.is_str(b)
        if sa or sb:
            if op == 'Add':
                if (sa or a.sort is None) and (sb or b.sort is None):
                    if self.cfg.get('texts') or a.op == 'text' or b.op == 'text':
                        x, y = text.codes(self, a), text.codes(self, b)
                        if x is not None and y is not None:
                            return text.text(x + y)
                    return mk('str+', a, b, sort='str')
                self.throw('TypeError', 'str concat')
            if op == 'Mult':
                for x, n in ((a, b), (b, a)):
                    if x.op == 'text' and is_c(n):
                        return text.text(list(x.args) * n.args[0])
                return mk('strrep', a, b, sort='str')
            self.throw('TypeError', 'str operand')
        if a.sort == 'none' or b.sort == 'none':
            self.throw('TypeError', 'None operand')
        if isinstance(a.sort, ClassObj) and a.sort.builtin_base() is None and op == 'Add' and b.sort is None:
            return mk('op', op, a, b)
        if a.sort is None and b.sort is None:
            if self.cfg.get('num_default', True) is False:
                return mk('op', op, a, b)
        return self.int_binop(op, a, b)

    def rep(self, t, n):
        n = self.int_of(n)
        if is_c(n):
            r = EMPTY
            if n.args[0] > 4096:
                raise Undecided('large repetition')
            if t.op == 'c':
                return C(t.args[0] * n.args[0])
            for _ in range(n.args[0]):
                r = cat(r, t)
            return r
        if t.op != 'c':
            raise Undecided('repetition of unknown bytes')
        if not self.d_ge(n):
            return EMPTY
        n = self.facts.norm(n)
        if is_c(n):
            return C(t.args[0] * n.args[0])
        return mk('rep', t, n, sort='bytes')

    def const_binop(self, op, x, y):
        try:
            if op == 'Add':
                return C(x + y)
            if op == 'Sub':
                return C(x - y)
            if op == 'Mult':
                return C(x * y)
            if op == 'Mod':
                return C(x % y)
            if op == 'FloorDiv':
                return C(x // y)
            if op == 'Div':
                return C(x / y)
            if op == 'LShift':
                if y > 100000:
                    raise Undecided('huge shift')
                return C(x << y)
            if op == 'RShift':
                return C(x >> y)
            if op == 'BitAnd':
                return C(x & y)
            if op == 'BitOr':
                return C(x | y)
            if op == 'BitXor':
                return C(x ^ y)
            if op == 'Pow':
                if isinstance(y, int) and y > 100000:
                    raise Undecided('huge power')
                return C(x ** y)
        except TypeError as e:
            self.throw('TypeError', str(e))
        except ZeroDivisionError:
            self.throw('ZeroDivisionError', 'division by zero')
        except ValueError as e:
            self.throw('ValueError', str(e))
        except OverflowError as e:
            self.throw('OverflowError', str(e))
        raise Undecided('operator %s' % op)

    def int_binop(self, op, a, b):
        if op == 'Add':
            return self.facts.norm(add(a, b))
        if op == 'Sub':
            return self.facts.norm(sub(a, b))
        if op == 'Mult':
            if any(is_c(x) and isinstance(x.args[0], float) and not x.args[0].is_integer() for x in (a, b)):
                return mk('fmul', *sorted((a, b), key=lambda t: t.id), sort='float')
            return mul(a, b)
        if op == 'Div':
            return mk('div', a, b, sort='float')
        if op == 'Pow':
            if is_c(a) and a.args[0] == 2:
                return mk('pow2', b, sort='int')
            return mk('pow', a, b, sort='int')
        if op in ('FloorDiv', 'Mod'):
            if is_c(b) and isinstance(b.args[0], int):
                k = b.args[0]
                if k > 0:
                    return self.facts.quotients(floordiv(a, k) if op == 'FloorDiv' else mod(a, k))
                if k == 0:
                    self.throw('ZeroDivisionError', 'division by zero')
            elif self.is_int(b) or b.sort is None:
                if self.d_eq0(b):
                    self.throw('ZeroDivisionError', 'division by zero')
            return mk('floordiv' if op == 'FloorDiv' else 'mod', a, b, sort='int')
        if op in ('LShift', 'RShift') and not is_c(b):
            b = self.facts.norm(b)
            if not is_c(b) and not self.cfg.get('no_pick') and self.facts.entails_ge(b) and self.facts.entails_ge(sub(C(7), b)):
                b = self.pick(b, 8)
                if is_c(a):
                    return self.const_binop(op, a.args[0], b.args[0])
        if op == 'LShift':
            if is_c(b):
                if b.args[0] < 0:
                    self.throw('ValueError', 'negative shift count')
                return scale(a, 1 << b.args[0])
            return mk('*', *sorted((a, mk('pow2', b, sort='uint')), key=lambda t: t.id), sort='int') if not (is_c(a) and a.args[0] == 1) \
                else mk('pow2', b, sort='uint')
        if op == 'RShift':
            if is_c(b):
                if b.args[0] < 0:
                    self.throw('ValueError', 'negative shift count')
                return self.facts.quotients(floordiv(a, 1 << b.args[0]))
            return mk('>>', a, b, sort='int')
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if is_c(y) and isinstance(y.args[0], int):
                    return self.facts.quotients(band(x, int(y.args[0])))
            if a is b:
                return a
            w = self.bitwise(op, a, b)
            if w is not None:
                return w
            return mk('&', *sorted((a, b), key=lambda t: t.id), sort='int')
        if op == 'BitOr':
            for x, y in ((a, b), (b, a)):
                if is_c(y) and isinstance(y.args[0], int):
                    return self.facts.quotients(sub(add(x, y), band(x, int(y.args[0]))))
            # disjoint bit ranges
            for x, y in ((a, b), (b, a)):
                d, c = lin_of(x)
                g = 0
                from math import gcd
                for t, v in d.items():
                    g = gcd(g, v)
                g = gcd(g, c)
                g = g & -g
                if g > 1 and self.facts.entails_ge(y) and self.facts.entails_ge(sub(C(g - 1), y)):
                    return add(x, y)
            if a is b:
                return a
            w = self.bitwise(op, a, b)
            if w is not None:
                return w
            fl = []
            for x in (a, b):
                fl.extend(x.args if x.op == '|' else [x])
            return mk('|', *sorted(set(fl), key=lambda t: t.id), sort='int')
        if op == 'BitXor':
            w = self.bitwise(op, a, b)
            if w is not None and (not is_c(a) or not is_c(b)):
                return w
            x, y = self.digits(a), self.digits(b)
            if x is not None and y is not None and len(set(x) | set(y)) > 1:
                r = ZERO
                for k in set(x) | set(y):
                    r = add(r, scale(self.int_binop('BitXor', x.get(k, ZERO), y.get(k, ZERO)), 256 ** k))
                return r
            for x, y in ((a, b), (b, a)):
                if is_c(y) and isinstance(y.args[0], int):
                    k = int(y.args[0])
                    if k < 0:
                        break
                    x = self.drop_div(x)
                    if x.op == '^' and is_c(x.args[1]):
                        k ^= int(x.args[1].args[0])
                        x = x.args[0]
                    if k == 0:
                        return x
                    return mk('^', x, C(k), sort='int')
            if a is b:
                return ZERO
            return mk('^', *sorted((a, b), key=lambda t: t.id), sort='int')
        raise Undecided('operator %s' % op)

    def drop_div(self, t):
        """drop quotients known to be zero"""
        if t.op == 'lin':
            m = {}
            for a, _ in t.args[1]:
                if a.op == '//' and self.facts.entails_eq(a):
                    m[a] = ZERO
            if m:
                return subst(t, m, {})
        return t

    def seq_binop(self, op, a, b):
        oa = self.get(a) if a.__class__ is Ref else None
        ob = self.get(b) if b.__class__ is Ref else None
        if op == 'Add' and isinstance(oa, LST):
            if not isinstance(ob, LST):
                self.throw('TypeError', 'list concat')
            self.force_lazy(a)
            oa = self.get(a)
            l = LST(oa.items + list(self.iterate(b)), oa.base, oa.popped, oa.base)
            l.dirty = True
            return self.alloc(l, 'list')
        if op == 'Mult' and (isinstance(oa, LST) or isinstance(ob, LST)):
            l, n = (a, b) if isinstance(oa, LST) else (b, a)
            n = self.int_of(n)
            o = self.force_list(l)
            if is_c(n):
                return self.mklist(o.items * n.args[0])
            if len(o.items) == 1 or True:
                for k in range(self.K + 1):
                    if k == 0:
                        if not self.d_ge(sub(n, C(1))):
                            return self.mklist([])
                        continue
                    if self.d_eq0(sub(n, C(k))):
                        return self.mklist(o.items * k)
                raise CutPath('list repetition')
        if isinstance(oa, BAR) or isinstance(ob, BAR):
            if op == 'Add':
                x, y = self.bytes_of(a), self.bytes_of(b)
                if x is None or y is None:
                    self.throw('TypeError', "can't concat")
                r = cat(x, y)
                return self.alloc(BAR(r), 'bytearray') if isinstance(oa, BAR) else r
        if isinstance(oa, SET) and isinstance(ob, SET):
            if op == 'BitOr':
                return self.mkset(oa.items + ob.items)
            if op == 'BitAnd':
                return self.mkset([x for x in oa.items if self.set_has(b, x)])
            if op == 'Sub':
                return self.mkset([x for x in oa.items if not self.set_has(b, x)])
        if isinstance(oa, DCT) and isinstance(ob, DCT) and op == 'BitOr':
            r = self.mkdict(oa.items)
            for k, v in ob.items:
                self.dict_set(r, k, v)
            return r
        if op == 'Add' and (isinstance(oa, LST) or isinstance(ob, LST)):
            self.throw('TypeError', 'list concat')
        if isinstance(oa, INST) or isinstance(ob, INST):
            self.throw('TypeError', 'unsupported operand')
        raise Undecided('operator %s on %r, %r' % (op, a, b))

    def str_format(self, fmt, arg):
        args = arg.items if arg.__class__ is Tup else (arg,)
        cs = [self.unwrap(x) for x in args]
        if is_c(fmt) and all(is_c(x) for x in cs):
            try:
                return C(fmt.args[0] % tuple(x.args[0] for x in cs))
            except (TypeError, ValueError) as e:
                self.throw(type(e).__name__, str(e))
        if self.cfg.get('texts') and is_c(fmt) and len(cs) == 1 and self.is_int(cs[0]):
            m = re.fullmatch(r'%(0\d+)?([xXd])', fmt.args[0])
            n = self.facts.norm(cs[0])
            if m and self.d_ge(n):
                r = text.digits(self, n, 10 if m.group(2) == 'd' else 16, int(m.group(1) or 1), m.group(2) == 'X')
                if r is not None:
                    return text.text(r)
        return mk('str%', fmt, *[self.reify(x) if not isinstance(x, Ref) or True else x for x in args], sort='str')


# ------------------------------------------------------------------ exploration
DEADLINE = [float('inf')]       # no new path is begun after this moment


class Limits:
    def __init__(self, max_paths=3000, max_time=120.0):
        self.max_paths, self.max_time = max_paths, max_time


def explore(prog, body, cfg=None, K=2, limits=None):
    """run body(run) once per path; yields (run, result or exception)"""
    import time
    limits = limits or Limits()
    t0 = time.monotonic()
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        run = Run(prog, prefix, K=K, cfg=cfg)
        n += 1
        try:
            res = ('ok', body(run))
        except CutPath as e:
            res = ('cut', str(e))
        except Undecided as e:
            res = ('undecided', '%s (at %s)' % (e, run.where))
        except RecursionError:
            res = ('undecided', 'host recursion limit')
        yield run, res
        for i in range(len(prefix), len(run.trace)):
            if run.trace[i]:
                stack.append(run.trace[:i] + [False])
        if n >= limits.max_paths:
            if stack:
                yield run, ('undecided', 'more than %d paths' % limits.max_paths)
            return
        if time.monotonic() - t0 > limits.max_time or time.monotonic() > DEADLINE[0]:
            if stack:
                yield run, ('undecided', 'time limit')
            return
