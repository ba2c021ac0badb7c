"""Abstract run-time objects that are not value numbers."""


class Undecided(Exception):
    """the analysis has no answer for this construct"""


class CutPath(Exception):
    """the path leaves the explored shapes (bounded unrolling) or is infeasible"""


class PyExc(Exception):
    def __init__(self, val, cls, where):
        self.val, self.cls, self.where = val, cls, where


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Ref:
    __slots__ = ('id', 'kind')

    def __init__(self, id, kind):
        self.id, self.kind = id, kind

    def __repr__(self):
        return '<%s#%d>' % (self.kind, self.id)


class LST:
    """a list: `base` (if any) is an unknown prefix of which `popped` items
    have been taken off the end"""
    def __init__(self, items=(), base=None, popped=0, origin=None):
        self.items = list(items)
        self.base = base
        self.popped = popped
        self.origin = origin    # value number of the symbolic list this was made from
        self.dirty = False

    def copy(self):
        r = LST(self.items, self.base, self.popped, self.origin)
        r.dirty = self.dirty
        return r


class DCT:
    def __init__(self, items=()):
        self.items = [list(kv) for kv in items]     # [key, value]
        self.index = {}
        self.ordered = False

    def copy(self):
        r = DCT(self.items)
        r.index = dict(self.index)
        return r


class SET:
    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.index = set()
        self.frozen = frozen

    def copy(self):
        r = SET(self.items, self.frozen)
        r.index = set(self.index)
        return r


class INST:
    def __init__(self, cls, payload=None):
        self.cls = cls
        self.attrs = {}
        self.payload = payload      # value of the builtin base, if any

    def copy(self):
        r = INST(self.cls, self.payload)
        r.attrs = dict(self.attrs)
        return r


class BIO:
    def __init__(self, data, pos, sym=None):
        self.data, self.pos, self.sym = data, pos, sym
        self.out = None

    def copy(self):
        r = BIO(self.data, self.pos, self.sym)
        r.out = self.out
        return r


class HSH:
    def __init__(self, alg, data):
        self.alg, self.data = alg, data

    def copy(self):
        return HSH(self.alg, self.data)


class BAR:
    """bytearray"""
    def __init__(self, data):
        self.data = data

    def copy(self):
        return BAR(self.data)


class ITR:
    """iterator over an already computed list of items, then possibly an exception"""
    def __init__(self, items=None, exc=None, gen=None, src=None):
        self.items = items
        self.pos = 0
        self.exc = exc
        self.gen = gen          # unevaluated generator: (func, frame)
        self.src = src          # live python generator

    def copy(self):
        r = ITR(self.items, self.exc, self.gen, self.src)
        r.pos = self.pos
        return r


class NS:
    """module or class namespace"""
    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def copy(self):
        return NS(dict(self.d))


class Func:
    def __init__(self, node, module, frame, qualname, cls, defaults, kwdefaults, code):
        self.node, self.module, self.frame = node, module, frame
        self.qualname, self.cls = qualname, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.code = code
        self.attrs = {}

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def __repr__(self):
        return '<fn %s>' % self.qualname


class BM:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return '<bm %r of %r>' % (self.func, self.self_)


class Builtin:
    def __init__(self, name, fn, sort=None):
        self.qualname = self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class ClassObj:
    def __init__(self, name, qualname, bases, ns_ref, module=None, builtin=None, node=None):
        self.name, self.qualname = name, qualname
        self.bases = tuple(bases)
        self.ns = ns_ref
        self.module = module
        self.builtin = builtin      # host type, for builtin classes
        self.node = node
        self.mro = self._c3()
        self.subs = []
        for b in self.bases:
            b.subs.append(self)

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in o[1:] for o in seqs):
                    break
            else:
                raise Undecided('inconsistent MRO for %s' % self.qualname)
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def issub(self, other):
        return other in self.mro

    def builtin_base(self):
        for c in self.mro:
            if c.builtin is not None and c.builtin is not object:
                return c.builtin
        return None

    def __repr__(self):
        return '<class %s>' % self.qualname


class Mod:
    def __init__(self, name, ns_ref, path, tree):
        self.name, self.ns, self.path, self.tree = name, ns_ref, path, tree
        self.qualname = name

    def __repr__(self):
        return '<module %s>' % self.name


class Prop:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class SM:
    def __init__(self, f):
        self.f = f


class CM:
    def __init__(self, f):
        self.f = f


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Frame:
    __slots__ = ('locals', 'parent', 'code', 'module', 'cls', 'yields', 'func', 'isclass', 'first', 'ns')

    def __init__(self, code, module, parent, cls=None):
        self.locals = {}
        self.parent = parent
        self.code = code
        self.module = module
        self.cls = cls
        self.yields = None
        self.func = None
        self.isclass = False
        self.first = None
        self.ns = None


class Code:
    """scope information of a function-like node"""
    def __init__(self, localset, globals_, nonlocals, isgen):
        self.localset, self.globals, self.nonlocals, self.isgen = localset, globals_, nonlocals, isgen
