"""Name, attribute and call-shape resolution over the source of a code base.

A module is parsed, never imported.  Everything the code binds is collected
first (module globals, class bodies, attributes stored on instances and on
modules), then every use is resolved against it: names by Python's scoping
rules, attributes by a small flow-insensitive inference of what an expression
can denote (module, class, instance, function), calls by binding the call's
shape to the parameters of the function it reaches.  Unknown values are only
held to what exists anywhere."""
import ast
import builtins
import importlib
import inspect
import os
import sys
import textwrap
import types
import warnings

MODULE_NAMES = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__', '__path__', '__all__'}


# ---- what an expression can denote
class Mod:
    def __init__(self, name):
        self.name = name


class Cls:
    """a class, or (not exact) one of its subclasses"""
    def __init__(self, info, exact=True):
        self.info, self.exact = info, exact


class Inst:
    """an instance of a class, or (not exact) of one of its subclasses"""
    def __init__(self, info, exact=False):
        self.info, self.exact = info, exact


class Func:
    def __init__(self, info, bound=False):
        self.info, self.bound = info, bound


class Ext:
    """an object of the standard library"""
    def __init__(self, obj, where):
        self.obj, self.where = obj, where


class ExtInst:
    def __init__(self, cls):
        self.cls = cls


class FuncInfo:
    def __init__(self, node, module, cls, name, kind):
        self.node, self.module, self.cls, self.name, self.kind = node, module, cls, name, kind
        self.parent = None


class ClassInfo:
    def __init__(self, node, module, name, scope):
        self.node, self.module, self.name, self.scope = node, module, name, scope
        self.qual = module.name + '.' + name
        self.members = {}       # name -> list of (kind, node or FuncInfo)
        self.stored = set()     # attributes stored on instances
        self.fields = set()     # declared serialized fields
        self.bases = []         # Cls / Ext / None (unknown)
        self.subs = set()
        self.decorated = bool(node.decorator_list)

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo += [b.info for b in c.bases if isinstance(b, Cls)]
        return out

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, Ext)]

    def unknown_base(self):
        return any(b is None for c in self.mro() for b in c.bases)

    def all_subs(self):
        out, todo = set(), list(self.subs)
        while todo:
            c = todo.pop()
            if c not in out:
                out.add(c)
                todo += list(c.subs)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.globals = {}       # name -> list of bindings
        self.stored = set()     # attributes stored from outside
        self.imports = set()    # modules its top level loads


def mangle(name, cls):
    if cls is not None and name.startswith('__') and not name.endswith('__'):
        return '_%s%s' % (cls.name.split('.')[-1].lstrip('_'), name)
    return name


def static_test(test):
    """truth of a test of the interpreter's version or of a type-checking flag, None otherwise"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = static_test(test.operand)
        return None if r is None else not r
    if isinstance(test, ast.Constant):
        return bool(test.value)
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        s = ast.unparse(test.left)
        if s in ('sys.version', 'sys.version_info', 'sys.version_info[0]', 'sys.version_info.major'):
            try:
                v = ast.literal_eval(test.comparators[0])
                left = {'sys.version': '3', 'sys.version_info': (3, 12), 'sys.version_info[0]': 3, 'sys.version_info.major': 3}[s]
                if s == 'sys.version':
                    left = '3.12.3'
                op = test.ops[0]
                return {ast.Gt: lambda: left > v, ast.GtE: lambda: left >= v, ast.Lt: lambda: left < v, ast.LtE: lambda: left <= v,
                        ast.Eq: lambda: left == v, ast.NotEq: lambda: left != v}[type(op)]()
            except Exception:
                return None
    return None


def live(stmts):
    """statements with the branches of decided tests removed"""
    out = []
    for s in stmts:
        if isinstance(s, ast.If):
            r = static_test(s.test)
            if r is not None:
                out += live(s.body if r else s.orelse)
                continue
        out.append(s)
    return out


def prune(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, f, live(v) or ([ast.copy_location(ast.Pass(), v[0])] if f == 'body' else []))
        if isinstance(n, ast.IfExp):
            pass
    return tree


def targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)
    else:
        yield t


def own_nodes(fn):
    """nodes of a scope, not of the scopes nested in it (their headers are included)"""
    todo = []
    if isinstance(fn, ast.Lambda):
        todo = [fn.body]
    elif isinstance(fn, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        todo = [fn]
    else:
        todo = list(fn.body)
    first = True
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo = n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d] + \
                [a.annotation for a in n.args.args if a.annotation] + ([n.returns] if n.returns else []) + todo
        elif isinstance(n, ast.Lambda):
            todo = n.args.defaults + [d for d in n.args.kw_defaults if d] + todo
        elif isinstance(n, ast.ClassDef):
            todo = n.decorator_list + n.bases + [k.value for k in n.keywords] + todo
        else:
            todo = list(ast.iter_child_nodes(n)) + todo


def arg_names(a):
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x]


def bound_names(scope):
    """names a function or module body binds in its own scope"""
    out, glob, nonl = set(), set(), set()
    if isinstance(scope, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        out |= set(arg_names(scope.args))
    for n in own_nodes(scope):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            pass
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)           # includes comprehension variables: harmless
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl |= set(n.names)
    return out - glob - nonl, glob, nonl


class Scope:
    def __init__(self, kind, node, parent, module, cls):
        self.kind, self.node, self.parent, self.module, self.cls = kind, node, parent, module, cls
        self.names, self.glob, self.nonl = bound_names(node) if kind != 'class' else (set(), set(), set())
        self.extra = set()
        self.func = None
        self.types = {}


class World:
    def __init__(self, roots, files=()):
        """roots: (package name, directory); files: (module name, path)"""
        self.modules = {}
        self.problems = []      # (rule, site, line, message)
        self.counts = {}
        self.classes = []
        self.funcs = []
        self.scopes = []
        self.func_of = {}
        self.class_of = {}
        self.by_method = {}
        self.attr_anywhere = set()
        for pkg, d in roots:
            for base, dirs, names in os.walk(d, followlinks=True):
                dirs[:] = sorted(x for x in dirs if x not in ('tests', 'test', '__pycache__', 'examples'))
                for f in sorted(names):
                    if f.endswith('.py'):
                        rel = os.path.relpath(os.path.join(base, f), d)[:-3].replace(os.sep, '.')
                        name = pkg + '.' + rel
                        if f == '__init__.py':
                            name = name[:-len('.__init__')]
                        self.read(name, os.path.join(base, f), f == '__init__.py')
        for name, path in files:
            self.read(name, path, False)
        for m in self.modules.values():
            self.collect(m)
        self.link_imports()
        for c in self.classes:
            self.link_bases(c)
        self.collect_stores()

    def read(self, name, path, pkg):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        self.modules[name] = Module(name, path, prune(tree), pkg)

    # ---- collecting
    def collect(self, m):
        top = Scope('module', m.tree, None, m, None)
        m.scope = top
        self.scopes.append(top)
        self.collect_body(m.tree, top, m, None, '')
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    m.globals.setdefault(x, []).append(('value', None, None))

    def collect_body(self, owner, scope, m, cls, prefix):
        for n in own_nodes(owner):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                name = getattr(n, 'name', '<lambda>')
                kind = 'function'
                direct = scope.kind == 'class'
                if direct and not isinstance(n, ast.Lambda):
                    kind = 'method'
                    for d in n.decorator_list:
                        s = ast.unparse(d)
                        kind = {'classmethod': 'class', 'staticmethod': 'static', 'property': 'property'}.get(s, 'property' if s.endswith(('.setter', '.getter', '.deleter')) else 'unknown')
                    if name == '__new__':
                        kind = 'static'
                elif not isinstance(n, ast.Lambda) and n.decorator_list:
                    kind = 'unknown'
                f = FuncInfo(n, m, cls if direct else None, prefix + name, kind)
                f.owner_cls = cls
                self.funcs.append(f)
                self.func_of[n] = f
                sub = Scope('function', n, scope, m, cls)
                sub.func = f
                f.scope = sub
                self.scopes.append(sub)
                if direct and not isinstance(n, ast.Lambda):
                    cls.members.setdefault(mangle(name, cls), []).append(('func', f))
                    self.by_method.setdefault(mangle(name, cls), []).append(f)
                elif not isinstance(n, ast.Lambda):
                    self.bind(scope, m, name, ('func', f, None))
                self.collect_body(n, sub, m, cls, prefix + name + '.')
            elif isinstance(n, ast.ClassDef):
                c = ClassInfo(n, m, prefix + n.name, scope)
                self.classes.append(c)
                self.class_of[n] = c
                if scope.kind == 'class':
                    cls.members.setdefault(n.name, []).append(('class', c))
                else:
                    self.bind(scope, m, n.name, ('class', c, None))
                sub = Scope('class', n, scope, m, c)
                self.scopes.append(sub)
                c.body_scope = sub
                sub.names = bound_names(n)[0]
                self.collect_body(n, sub, m, c, prefix + n.name + '.')
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.bind(scope, m, a.asname, ('module', a.name, n), cls)
                    else:
                        self.bind(scope, m, a.name.split('.')[0], ('module', a.name.split('.')[0], n), cls)
            elif isinstance(n, ast.ImportFrom):
                src = self.absolute(m, n)
                for a in n.names:
                    if a.name == '*':
                        m.globals.setdefault('*', []).append(('star', src, n))
                    else:
                        self.bind(scope, m, a.asname or a.name, ('from', src, n, a.name), cls)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind_target(scope, m, cls, t, n.value)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
                self.bind_target(scope, m, cls, n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                self.bind_target(scope, m, cls, n.target, None)
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                for t in targets(n.target):
                    self.bind_target(scope, m, cls, t, None)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind_target(scope, m, cls, i.optional_vars, None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.bind(scope, m, n.name, ('except', n.type, n), cls)

    def bind_target(self, scope, m, cls, t, value):
        many = isinstance(t, (ast.Tuple, ast.List))
        for x in targets(t):
            if isinstance(x, ast.Name):
                self.bind(scope, m, x.id, ('value', None if many else value, x), cls)

    def bind(self, scope, m, name, b, cls=None):
        if scope.kind == 'class' and b[0] not in ('func', 'class'):
            scope.cls.members.setdefault(mangle(name, scope.cls), []).append(('value', b))
            return
        if scope.kind == 'function' and name in scope.glob or scope.kind == 'module':
            m.globals.setdefault(name, []).append(b)
            return
        scope.types.setdefault(name, []).append(b)

    def absolute(self, m, n):
        if not n.level:
            return n.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    # ---- imports
    def ext_module(self, name):
        if name.split('.')[0] in {x.split('.')[0] for x in self.modules}:
            return None
        try:
            return importlib.import_module(name)
        except Exception:
            return None

    def stdlib(self, name):
        return name.split('.')[0] in sys.stdlib_module_names

    def link_imports(self):
        # which modules a module's import loads, transitively
        direct = {}
        for m in self.modules.values():
            d = set()
            for n in own_nodes(m.tree):
                if isinstance(n, ast.Import):
                    d |= {a.name for a in n.names}
                elif isinstance(n, ast.ImportFrom):
                    src = self.absolute(m, n)
                    d.add(src)
                    d |= {src + '.' + a.name for a in n.names if src + '.' + a.name in self.modules}
            e = set()
            for x in d:
                parts = x.split('.')
                e |= {'.'.join(parts[:i]) for i in range(1, len(parts) + 1)}
            direct[m.name] = e
            parts = m.name.split('.')
            e |= {'.'.join(parts[:i]) for i in range(1, len(parts))}
        self.loads = {}
        for name in self.modules:
            seen, todo = {name}, [name]
            while todo:
                for x in direct.get(todo.pop(), ()):
                    if x in self.modules and x not in seen:
                        seen.add(x)
                        todo.append(x)
            self.loads[name] = seen
        for m in self.modules.values():
            for b in m.globals.pop('*', []):
                src = b[1]
                if src in self.modules:
                    sm = self.modules[src]
                    for x in self.exported(sm):
                        m.globals.setdefault(x, []).append(('from', src, b[2], x))
                else:
                    e = self.ext_module(src)
                    for x in (getattr(e, '__all__', None) or [y for y in dir(e) if not y.startswith('_')]):
                        m.globals.setdefault(x, []).append(('ext', e, b[2], x))

    def exported(self, m):
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in n.targets):
                try:
                    return list(ast.literal_eval(n.value))
                except Exception:
                    pass
        return [x for x in m.globals if not x.startswith('_')]

    def module_has(self, m, name):
        return name in m.globals or name in m.stored or name in MODULE_NAMES or \
            (m.name + '.' + name) in self.modules or (m.is_pkg and name == '__path__')

    def link_bases(self, c):
        for b in c.node.bases:
            v = self.infer(b, c.scope)
            v = v[0] if v and len(v) == 1 else None
            c.bases.append(v if isinstance(v, Cls) or isinstance(v, Ext) and isinstance(v.obj, type) else None)
            if isinstance(v, Cls):
                v.info.subs.add(c)
        if any(k.arg is None or k.arg == 'metaclass' for k in c.node.keywords):
            c.meta = True

    # ---- attributes stored on objects
    def collect_stores(self):
        self.stored_unknown = set()
        for c in self.classes:
            for name, bs in c.members.items():
                for b in bs:
                    node = b[1][1] if b[0] == 'value' and b[1][0] == 'value' else None
                    if node is None:
                        continue
                    if name in ('__slots__', 'SERIALIZED_ATTRS'):
                        for n in ast.walk(node):
                            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                                c.fields.add(mangle(n.value, c))
        for s in self.scopes:
            for n in own_nodes(s.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.store(s, n.value, mangle(n.attr, s.cls))
                elif isinstance(n, ast.Call):
                    f = n.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
                    if nm in ('setattr', '__setattr__') and len(n.args) >= 2:
                        k = n.args[-2]
                        if isinstance(k, ast.Constant) and isinstance(k.value, str):
                            self.store(s, n.args[-3] if len(n.args) > 2 else f.value, k.value)
                    if nm in ('add_argument', 'set_defaults', 'add_subparsers'):
                        for k in n.keywords:
                            if k.arg in ('dest', 'metavar') and isinstance(k.value, ast.Constant) and isinstance(k.value.value, str):
                                self.stored_unknown.add(k.value.value)
                            elif nm == 'set_defaults' and k.arg:
                                self.stored_unknown.add(k.arg)
                        for a in n.args:
                            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                self.stored_unknown.add(a.value.lstrip('-').replace('-', '_'))
        self.known_anywhere()

    def store(self, s, recv, name):
        self.attr_anywhere.add(name)
        for v in self.infer(recv, s) or [None]:
            if isinstance(v, (Inst, Cls)):
                v.info.stored.add(name)
            elif isinstance(v, Mod):
                if v.name in self.modules:
                    self.modules[v.name].stored.add(name)
            else:
                self.stored_unknown.add(name)
                if s.cls is not None:
                    s.cls.stored.add(name)

    def known_anywhere(self):
        k = self.attr_anywhere
        k |= self.stored_unknown
        for c in self.classes:
            k |= set(c.members) | c.stored | c.fields
        for m in self.modules.values():
            k |= set(m.globals)
        ext = set()
        for t in (bytes, str, int, list, dict, set, frozenset, tuple, bytearray, memoryview, float, bool, type, object, range, slice,
                  types.GeneratorType, types.FunctionType, types.MethodType, types.ModuleType, types.TracebackType, types.FrameType,
                  types.CodeType, types.BuiltinFunctionType, property, Exception, OSError, UnicodeDecodeError, StopIteration,
                  SystemExit, ImportError, SyntaxError, type({}.items()), type({}.keys()), type({}.values()), super, complex):
            ext |= set(dir(t))
        self.ext_names = ext
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                names = []
                if isinstance(n, ast.Import):
                    names = [a.name for a in n.names]
                elif isinstance(n, ast.ImportFrom) and not n.level:
                    names = [n.module]
                for x in names:
                    if x in self.modules:
                        continue
                    e = self.ext_module(x)
                    if e is None:
                        continue
                    ext |= set(dir(e))
                    for v in list(vars(e).values()):
                        if isinstance(v, type):
                            ext |= set(dir(v))
        import io
        import hashlib
        for v in (io.BytesIO, io.StringIO, io.TextIOWrapper, io.BufferedReader, io.BufferedWriter, type(hashlib.sha256())):
            ext |= set(dir(v))
        for n in ('http.client', 'urllib.parse', 'argparse', 'logging', 'collections', 'decimal', 'socket', 'struct', 'json', 'random', 'ctypes'):
            e = importlib.import_module(n)
            ext |= set(dir(e))
            for v in list(vars(e).values()):
                if isinstance(v, type):
                    ext |= set(dir(v))

    # ---- inference: a list of what the expression can denote, None if unknown
    def infer(self, e, s, depth=0):
        if depth > 12:
            return None
        try:
            return self._infer(e, s, depth)
        except RecursionError:
            return None

    def merge(self, parts):
        out = []
        for p in parts:
            if p is None:
                return None
            for v in p:
                if not any(self.same(v, w) for w in out):
                    out.append(v)
        return out or None

    def same(self, a, b):
        return a.__class__ is b.__class__ and a.__dict__ == b.__dict__

    def _infer(self, e, s, depth):
        if isinstance(e, ast.Name):
            return self.infer_name(e.id, s, depth)
        if isinstance(e, ast.Attribute):
            base = self.infer(e.value, s, depth + 1)
            if base is None:
                return None
            return self.merge(self.attr_of(v, mangle(e.attr, s.cls), depth) for v in base)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'super' and s.cls is not None:
                return None
            if isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
                base = self.infer(e.args[0], s, depth + 1)
                if base is None:
                    return None
                return self.merge([Cls(v.info, v.exact)] if isinstance(v, Inst) else None for v in base)
            fs = self.infer(e.func, s, depth + 1)
            if fs is None:
                return None
            return self.merge(self.result_of(v, depth) for v in fs)
        if isinstance(e, ast.IfExp):
            return self.merge([self.infer(e.body, s, depth + 1), self.infer(e.orelse, s, depth + 1)])
        if isinstance(e, ast.BoolOp):
            return self.merge([self.infer(v, s, depth + 1) for v in e.values])
        if isinstance(e, ast.Constant):
            return [ExtInst(type(e.value))] if e.value is not None and e.value is not Ellipsis else None
        if isinstance(e, ast.JoinedStr):
            return [ExtInst(str)]
        if isinstance(e, (ast.List, ast.ListComp)):
            return [ExtInst(list)]
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return [ExtInst(dict)]
        if isinstance(e, (ast.Set, ast.SetComp)):
            return [ExtInst(set)]
        if isinstance(e, ast.Tuple):
            return [ExtInst(tuple)]
        if isinstance(e, ast.Lambda):
            f = self.func_of.get(e)
            return [Func(f)] if f else None
        if isinstance(e, ast.NamedExpr):
            return self.infer(e.value, s, depth + 1)
        return None

    def infer_name(self, name, s, depth):
        f = s
        while f is not None:
            if f.kind == 'function':
                if name in f.names:
                    return self.infer_local(name, f, depth)
                if name in f.glob:
                    break
            elif f.kind == 'class' and f is s and name in f.names:
                return self.merge(self.member(f.cls, None, b, depth) for b in f.cls.members.get(name, ()))
            elif f.kind == 'module':
                break
            f = f.parent
        return self.infer_global(s.module, name, depth)

    def infer_local(self, name, f, depth):
        node = f.node
        a = node.args
        if name in arg_names(a):
            if name not in f.types and f.func and f.func.cls is not None and f.func.kind in ('method', 'property', 'class', 'static'):
                pos = a.posonlyargs + a.args
                if pos and pos[0].arg == name:
                    if f.func.kind == 'class' or f.func.kind == 'static' and f.func.name.endswith('__new__'):
                        return [Cls(f.func.cls, False)]
                    if f.func.kind != 'static':
                        return [Inst(f.func.cls)]
            return None
        bs = f.types.get(name)
        if not bs:
            return None
        return self.merge(self.binding(b, f, depth) for b in bs)

    def infer_global(self, m, name, depth):
        bs = m.globals.get(name)
        if bs is None:
            if hasattr(builtins, name):
                return [Ext(getattr(builtins, name), name)]
            return None
        key = (m.name, name)
        memo = self.__dict__.setdefault('_memo', {})
        if key in memo:
            return memo[key]
        memo[key] = None
        if name in m.stored:
            r = None
        else:
            r = self.merge(self.binding(b, m.scope, depth) for b in bs)
        if r is None or not hasattr(self, 'final'):
            del memo[key]
        else:
            memo[key] = r
        return r

    def binding(self, b, s, depth):
        if b[0] == 'func':
            return [Func(b[1])] if b[1].kind != 'unknown' else None
        if b[0] == 'class':
            return [Cls(b[1])] if not b[1].decorated else None
        if b[0] == 'module':
            if b[1] in self.modules:
                return [Mod(b[1])]
            e = self.ext_module(b[1])
            return [Ext(e, b[1])] if e is not None else []       # a module that does not exist binds nothing
        if b[0] == 'ext':
            return [Ext(getattr(b[1], b[3]), b[3])] if hasattr(b[1], b[3]) else None
        if b[0] == 'from':
            src, name = b[1], b[3]
            if src in self.modules:
                m = self.modules[src]
                if name in m.globals:
                    return self.infer_global(m, name, depth + 1) if depth < 12 else None
                if src + '.' + name in self.modules:
                    return [Mod(src + '.' + name)]
                return None
            e = self.ext_module(src)
            if e is not None and hasattr(e, name):
                return [Ext(getattr(e, name), src + '.' + name)]
            return None
        if b[0] == 'value' and b[1] is not None:
            return self.infer(b[1], s, depth + 1)
        if b[0] == 'except' and b[1] is not None and not isinstance(b[1], ast.Tuple):
            v = self.infer(b[1], s, depth + 1)
            if v and all(isinstance(x, Cls) for x in v):
                return [Inst(x.info) for x in v]
            if v and all(isinstance(x, Ext) and isinstance(x.obj, type) for x in v):
                return [ExtInst(x.obj) for x in v]
        return None

    def member(self, c, recv, b, depth):
        """what reading a class member through a class or instance gives"""
        kind, x = b
        if kind == 'func':
            if x.kind in ('property', 'unknown'):
                return None
            return [Func(x, x.kind == 'class' or x.kind == 'method' and isinstance(recv, Inst))]
        if kind == 'class':
            return [Cls(x)]
        return self.binding(x, c.body_scope, depth + 1)

    def attr_of(self, v, name, depth=0):
        if isinstance(v, Mod):
            m = self.modules[v.name]
            if name in m.globals:
                return self.infer_global(m, name, depth + 1)
            if v.name + '.' + name in self.modules:
                return [Mod(v.name + '.' + name)]
            return None
        if isinstance(v, Ext):
            if isinstance(v.obj, (types.ModuleType, type)) and hasattr(v.obj, name):
                return [Ext(getattr(v.obj, name), v.where + '.' + name)]
            return None
        if isinstance(v, (Cls, Inst)):
            if name == '__class__' and isinstance(v, Inst):
                return [Cls(v.info, v.exact)]
            if any(name in c.stored or name in c.fields for c in v.info.mro()) or any(name in c.members or name in c.stored for c in v.info.all_subs()):
                return None
            bs = v.info.find(name)
            if not bs:
                return None
            owner = next(c for c in v.info.mro() if name in c.members)
            return self.merge(self.member(owner, v, b, depth) for b in bs)
        return None

    def result_of(self, v, depth):
        if isinstance(v, Cls):
            new = v.info.find('__new__')
            if new or getattr(v.info, 'meta', False):
                return [Inst(v.info)] if new and not v.info.subs else None
            return [Inst(v.info, v.exact)]
        if isinstance(v, Ext) and isinstance(v.obj, type) and v.obj not in (type, super):
            return [ExtInst(v.obj)]
        if isinstance(v, Func) and isinstance(v.info.node, ast.FunctionDef):
            f = v.info
            rets, gen = [], False
            for n in own_nodes(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    rets.append(n.value)
                elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                    gen = True
            if gen:
                return [ExtInst(types.GeneratorType)]
            if rets and depth < 8 and f.kind in ('function', 'static'):
                return self.merge(self.infer(r, f.scope, depth + 2) for r in rets)
        return None

    # ---- the rules
    def where(self, s):
        m = s.module.name
        return m + '.' + s.func.name if s.func else m + '.' + s.cls.name if s.cls else m

    def check(self, report):
        self.final = True
        self.report = report
        for m in self.modules.values():
            self.check_imports(m)
        for s in self.scopes:
            for n in own_nodes(s.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    self.check_name(s, n)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.check_attr(s, n)
                elif isinstance(n, ast.Call):
                    self.check_call(s, n)
        for s in self.scopes:
            if s.kind == 'function' and not isinstance(s.node, ast.Lambda):
                self.check_assigned(s)
            elif s.kind == 'module':
                self.check_assigned(s)

    def say(self, rule, s, n, ok, msg, key=''):
        at = '%s:%d (%s)' % (s.module.path, getattr(n, 'lineno', 0), self.where(s))
        self.report(rule, self.where(s), ok, msg, at, key)

    def check_imports(self, m):
        s = m.scope
        guarded = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and any(h.type is None or 'ImportError' in ast.unparse(h.type) or 'ModuleNotFound' in ast.unparse(h.type) or ast.unparse(h.type) in ('Exception', 'AttributeError') for h in n.handlers):
                for x in ast.walk(n):
                    guarded.add(x)
        for n in ast.walk(m.tree):
            if n in guarded:
                continue
            if isinstance(n, ast.Import):
                for a in n.names:
                    ok = a.name in self.modules or self.ext_module(a.name) is not None
                    self.say('import', s, n, ok, 'module %s %s' % (a.name, 'exists' if ok else 'does not exist'))
            elif isinstance(n, ast.ImportFrom):
                if n.module == '__future__':
                    continue
                src = self.absolute(m, n)
                for a in n.names:
                    if src in self.modules:
                        ok = a.name == '*' or self.module_has(self.modules[src], a.name)
                    else:
                        e = self.ext_module(src)
                        ok = e is not None and (a.name == '*' or hasattr(e, a.name) or self.ext_module(src + '.' + a.name) is not None)
                    self.say('import', s, n, ok, '%s from %s' % (a.name, src) if ok else '%s has no %s' % (src, a.name))
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in n.targets):
                try:
                    names = ast.literal_eval(n.value)
                except Exception:
                    continue
                for x in names:
                    ok = self.module_has(m, x)
                    self.say('import', s, n, ok, '__all__ names %s' % x if ok else '__all__ names %s, which does not exist' % x)

    def visible(self, s, name):
        f = s
        while f is not None:
            if f.kind == 'function' and name in f.names:
                return True
            if f.kind == 'class' and (f is s and (name in f.names or name in f.cls.members)):
                return True
            f = f.parent
        sub = s.module.name + '.' + name
        return name in s.module.globals or name in s.module.stored or name in MODULE_NAMES or sub in self.loads[s.module.name] or hasattr(builtins, name) or \
            name == '__class__' and s.cls is not None or name in ('__qualname__', '__module__') and s.kind == 'class'

    def check_name(self, s, n):
        ok = self.visible(s, n.id) or self.visible(s, mangle(n.id, s.cls))
        self.say('name', s, n, ok, n.id if ok else 'name %s is not defined' % n.id)

    # ---- attributes
    def open_class(self, c):
        """attributes cannot be enumerated"""
        if c.unknown_base() or any(getattr(x, 'meta', False) for x in c.mro()):
            return True
        if c.find('__getattr__') or c.find('__getattribute__'):
            return not any('SERIALIZED_ATTRS' in x.members for x in c.mro())
        return False

    def has_attr(self, v, name, s):
        """None: cannot say"""
        if isinstance(v, Mod):
            m = self.modules[v.name]
            if name in m.globals or name in m.stored or name in MODULE_NAMES:
                return True
            sub = v.name + '.' + name
            if sub in self.modules:
                if sub in self.loads[s.module.name]:
                    return True
                # loaded if whatever can have imported this module loads it
                return sub in self.loads[v.name]
            return False
        if isinstance(v, Ext):
            if isinstance(v.obj, (types.ModuleType, type)):
                if hasattr(v.obj, name):
                    return True
                if isinstance(v.obj, types.ModuleType) and self.ext_module(v.where + '.' + name) is not None:
                    return True
                return False
            if isinstance(v.obj, (types.FunctionType, types.BuiltinFunctionType)):
                return hasattr(v.obj, name)
            return None
        if isinstance(v, ExtInst):
            t = v.cls
            if t in (bytes, str, int, list, dict, set, tuple, bytearray, float, bool, types.GeneratorType, complex) or t.__module__ == 'io':
                return hasattr(t, name)
            if isinstance(t, type) and issubclass(t, BaseException):
                return hasattr(t, name) or hasattr(t(), name) if t in (ValueError, TypeError, KeyError, IndexError, Exception, AttributeError) else None
            return None
        if isinstance(v, Func):
            return hasattr(types.FunctionType, name) or hasattr(types.MethodType, name) or (None if name in self.attr_anywhere else False)
        if isinstance(v, (Cls, Inst)):
            c = v.info
            group = set(c.mro()) | (set() if v.exact else c.all_subs())
            if not v.exact:
                for x in list(group):
                    group |= set(x.mro())
            for x in group:
                if name in x.members or name in x.stored or name in x.fields:
                    return True
            std = set(dir(object)) | {'__dict__', '__module__', '__weakref__'} | (set(dir(type)) if isinstance(v, Cls) else set())
            if name in std:
                return True
            for b in [b for x in group for b in x.ext_bases()]:
                if hasattr(b.obj, name) or name in self.ext_stored(b.obj):
                    return True
            if name in c.stored:
                return True
            if self.open_class(c):
                return None
            # stored by a caller on an instance the inference lost track of
            if name in self.stored_unknown:
                return None
            return False
        return None

    def ext_stored(self, cls):
        """attributes the methods of a library class store on its instances"""
        memo = self.__dict__.setdefault('_ext_stored', {})
        if cls not in memo:
            out = set()
            for c in cls.__mro__:
                try:
                    tree = ast.parse(textwrap.dedent(inspect.getsource(c)))
                except (OSError, TypeError, SyntaxError):
                    continue
                out |= {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            memo[cls] = out
        return memo[cls]

    def describe(self, v):
        if isinstance(v, Mod):
            return 'module %s' % v.name
        if isinstance(v, Cls):
            return 'class %s' % v.info.qual
        if isinstance(v, Inst):
            return 'an instance of %s' % v.info.qual
        if isinstance(v, Ext):
            return v.where
        if isinstance(v, ExtInst):
            return 'a %s' % v.cls.__name__
        return 'function %s' % v.info.name

    def super_attr(self, s, n):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super' and s.cls is not None:
            return s.cls
        return None

    def enclosing_class(self, s):
        return s.cls

    def check_attr(self, s, n):
        name = mangle(n.attr, s.cls)
        c = self.super_attr(s, n)
        text = ast.unparse(n)
        if c is not None:
            if c.unknown_base():
                ok = None
            else:
                ok = any(name in x.members for x in c.mro()[1:]) or any(hasattr(b.obj, name) for b in c.ext_bases()) or hasattr(object, name)
                ok = ok or any(x.find('__getattr__') for x in c.mro()[1:])
            self.say('attribute', s, n, ok is not False, text if ok is not False else 'no base class of %s has %s' % (c.qual, name))
            return
        if name.startswith('__') and name.endswith('__') and name not in ('__init__',):
            pass
        vs = self.infer(n.value, s)
        guard = self.guarded(s, n)
        if vs is not None:
            rs = [self.has_attr(v, name, s) for v in vs]
            bad = [v for v, r in zip(vs, rs) if r is False]
            if bad and len(bad) == len(vs) and not guard:
                self.say('attribute', s, n, False, '%s: %s has no attribute %s' % (text, self.describe(bad[0]), n.attr))
                return
            if any(r is True for r in rs):
                self.say('attribute', s, n, True, text)
                return
        ok = name in self.attr_anywhere or name in self.ext_names or guard or n.attr in self.attr_anywhere and name == n.attr
        if not ok and self.open_receiver(s, n):
            ok = True
        self.say('attribute', s, n, ok, text if ok else '%s: nothing has an attribute %s' % (text, n.attr))

    def answers_anything(self, c):
        return bool(c.find('__getattr__') or c.find('__getattribute__')) and not any('SERIALIZED_ATTRS' in x.members for x in c.mro())

    def open_receiver(self, s, n):
        """an object whose attributes are made up at run time: a loaded shared library, a remote proxy"""
        v = n.value
        while isinstance(v, ast.Attribute):
            v = v.value
        vs = self.infer(n.value, s)
        if vs and all(isinstance(x, (Inst, Cls)) and self.answers_anything(x.info) for x in vs):
            return True
        root = v
        if isinstance(root, ast.Name):
            for b in s.module.globals.get(root.id, []):
                if b[0] == 'value' and b[1] is not None and any(isinstance(x, ast.Name) and x.id == 'ctypes' for x in ast.walk(b[1])):
                    return True
        return False

    def guarded(self, s, n):
        """inside a try that handles AttributeError, or behind hasattr"""
        for h in self.tries(s).get(n, ()):
            if h is None or any(x in h for x in ('AttributeError', 'NameError', 'ImportError', 'Exception')) and 'bitcoin' not in h and \
                    not any(y in h for y in ('Error.', )) and h.strip() in ('AttributeError', 'Exception', 'BaseException', '(AttributeError, TypeError)', '(TypeError, AttributeError)'):
                return True
        return False

    def tries(self, s):
        if not hasattr(s, '_tries'):
            s._tries = {}
            for n in own_nodes(s.node):
                if isinstance(n, ast.Try):
                    hs = [ast.unparse(h.type) if h.type is not None else None for h in n.handlers]
                    hs = [h for h in hs if h is None or 'AttributeError' in h]
                    if hs:
                        for st in n.body:
                            for x in ast.walk(st):
                                s._tries.setdefault(x, []).extend(hs)
        return s._tries

    # ---- calls
    def shape(self, call):
        star = any(isinstance(a, ast.Starred) for a in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        return len([a for a in call.args if not isinstance(a, ast.Starred)]), star, [k.arg for k in call.keywords if k.arg], dstar

    def accepts(self, f, bound, shape):
        """None, or why the function cannot be called that way"""
        n, star, kws, dstar = shape
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        required = len(pos) - len(a.defaults)
        skip = 1 if bound else 0
        if bound and not pos and not a.vararg:
            return 'it takes no arguments'
        total = n + skip
        if total > len(pos) and not a.vararg:
            return 'it takes at most %d positional arguments, %d given' % (len(pos) - skip, n)
        kwonly = [x.arg for x in a.kwonlyargs]
        for k in kws:
            if k in kwonly:
                continue
            if k in names[len(a.posonlyargs):]:
                if names.index(k) < total:
                    return 'it gets two values for %s' % k
                continue
            if not a.kwarg:
                return 'it has no parameter %s' % k
        if not dstar:
            for i, x in enumerate(names[:required]):
                if i >= total and x not in kws and not star:
                    return 'it needs a value for %s' % x
            for x, d in zip(kwonly, a.kw_defaults):
                if d is None and x not in kws:
                    return 'it needs a value for %s' % x
        return None

    def check_call(self, s, n):
        shape = self.shape(n)
        text = ast.unparse(n.func)
        f = n.func
        c = self.super_attr(s, f) if isinstance(f, ast.Attribute) else None
        if c is not None:
            name = mangle(f.attr, s.cls)
            for x in c.mro()[1:]:
                if name in x.members:
                    for b in x.members[name]:
                        if b[0] == 'func' and b[1].kind in ('method', 'class', 'static'):
                            in_class = s.func is not None and s.func.kind in ('method', 'class', 'property') and s.func.cls is c
                            bound = b[1].kind == 'class' or b[1].kind == 'method'
                            if b[1].kind == 'method' and s.func is not None and s.func.kind in ('class', 'static'):
                                return
                            why = self.accepts(b[1], bound, shape)
                            self.say('call', s, n, why is None, text if why is None else '%s: %s' % (text, why))
                    return
            return
        vs = self.infer(f, s)
        if vs is not None:
            for v in vs:
                for g, bound in self.callees(v):
                    why = self.accepts(g, bound, shape)
                    self.say('call', s, n, why is None, text if why is None else 'call of %s.%s: %s' % (g.module.name, g.name, why))
                if isinstance(v, Ext):
                    self.check_ext_call(s, n, v, shape, text)
            if isinstance(f, ast.Attribute) and all(isinstance(v, (Func, Cls)) for v in vs):
                self.check_overrides(s, n, f, shape, text)
            return
        if not isinstance(f, ast.Attribute):
            return
        name = mangle(f.attr, s.cls)
        if self.check_overrides(s, n, f, shape, text):
            return
        if name in self.ext_names or name in self.stored_unknown or any(name in c.stored or name in c.fields for c in self.classes):
            return
        cands = [(g, g.kind in ('method', 'class')) for g in self.by_method.get(name, ()) if g.kind in ('method', 'class', 'static')]
        unbound = [(g, False) for g in self.by_method.get(name, ()) if g.kind == 'method']
        if any(g.kind in ('property', 'unknown') for g in self.by_method.get(name, ())):
            return
        for m in self.modules.values():
            if m.globals.get(name):
                return
        if any(b[0] != 'func' for c in self.classes for b in c.members.get(name, ())):
            return
        if not cands:
            return
        whys = [self.accepts(g, b, shape) for g, b in cands + unbound]
        ok = any(w is None for w in whys)
        self.say('call', s, n, ok, text if ok else 'call of %s fits no method of that name: %s' % (text, whys[0]))

    def check_overrides(self, s, n, f, shape, text):
        """a call through self or cls can reach the methods of subclasses too"""
        base = self.infer(f.value, s)
        if not base or len(base) != 1 or not isinstance(base[0], (Inst, Cls)) or base[0].exact:
            return False
        v = base[0]
        name = mangle(f.attr, s.cls)
        if v.info.find(name) is None and not any(name in c.members for c in v.info.all_subs()):
            return False
        done = False
        for c in [v.info] + sorted(v.info.all_subs(), key=lambda c: c.qual):
            for b in c.find(name) or ():
                if b[0] == 'func' and b[1].kind in ('method', 'class', 'static') and (c is v.info or b[1].cls is c):
                    if b[1].kind == 'method' and isinstance(v, Cls):
                        bound = False
                    else:
                        bound = b[1].kind != 'static'
                    why = self.accepts(b[1], bound, shape)
                    self.say('call', s, n, why is None, text if why is None else 'call of %s reaches %s.%s: %s' % (text, b[1].module.name, b[1].name, why),
                             '' if why is None else '%s.%s:%s' % (b[1].module.name, b[1].name, why))
                    done = True
        return done

    def callees(self, v):
        if isinstance(v, Func):
            if v.info.kind in ('function', 'method', 'class', 'static'):
                yield v.info, v.bound
        elif isinstance(v, Cls):
            if getattr(v.info, 'meta', False):
                return
            for nm in ('__new__', '__init__'):
                for c in v.info.mro():
                    if nm in c.members:
                        for b in c.members[nm]:
                            if b[0] == 'func' and b[1].kind in ('method', 'static'):
                                yield b[1], True
                        break
                    if any(isinstance(b, Ext) for b in c.bases):
                        break
            if not v.info.find('__new__') and not v.info.find('__init__') and not v.info.ext_bases() and not v.info.unknown_base():
                yield FuncInfo(ast.parse('def f(self): pass').body[0], v.info.module, v.info, v.info.name, 'method'), True

    def check_ext_call(self, s, n, v, shape, text):
        k, star, kws, dstar = shape
        if star or dstar or not callable(v.obj) or v.obj in (type, super):
            return
        try:
            sig = inspect.signature(v.obj)
        except (ValueError, TypeError):
            return
        if isinstance(f := n.func, ast.Attribute) and not isinstance(v.obj, type):
            base = self.infer(f.value, s)
            if base and not all(isinstance(b, Ext) and isinstance(b.obj, types.ModuleType) for b in base):
                return
        try:
            sig.bind(*[None] * k, **{x: None for x in kws})
            ok, why = True, ''
        except TypeError as e:
            ok, why = False, str(e)
        self.say('call', s, n, ok, text if ok else 'call of %s: %s' % (v.where, why))

    # ---- locals are assigned before they are read
    def check_assigned(self, s):
        if s.kind == 'function':
            a = arg_names(s.node.args)
            watch = {x for x in s.names if x not in a}
            body = s.node.body
        else:
            return
        captured = set()
        comp = set()
        for n in own_nodes(s.node):
            if isinstance(n, ast.comprehension):
                comp |= {x.id for x in targets(n.target) if isinstance(x, ast.Name)}
        self._flow = (s, watch - comp)
        Flow(self, s, watch - comp).run(body)


class Flow:
    """definite assignment of the locals of a function: at each read, the
    variable is assigned on every path, a loop body being taken to run"""
    def __init__(self, w, s, watch):
        self.w, self.s, self.watch = w, s, watch
        self.loops = []
        self.handlers = []
        self.tests = {}

    def run(self, body):
        self.block(body, frozenset())

    def use(self, e, st):
        if e is None or st is None:
            return
        todo = [e]
        while todo:
            n = todo.pop(0)
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                todo += n.args.defaults
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.watch:
                ok = n.id in st
                self.w.say('assigned', self.s, n, ok, n.id if ok else 'local %s can be read before it is assigned' % n.id)
            todo = list(ast.iter_child_nodes(n)) + todo

    def expr(self, e, st):
        self.use(e, st)
        if st is not None and e is not None:
            for n in ast.walk(e):
                if isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
                    st = st | {n.target.id}
        return st

    def store(self, t, st):
        if st is None:
            return None
        for x in targets(t):
            if isinstance(x, ast.Name):
                st = st | {x.id}
                self.tests = {k: v for k, v in self.tests.items() if x.id not in v[1]}
            else:
                self.use(x, st)
        return st

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def block(self, body, st):
        for n in body:
            if st is None:
                return None
            st = self.stmt(n, st)
        return st

    def raised(self, st):
        for h in self.handlers:
            h.append(st)

    def stmt(self, n, st):
        self.raised(st)
        if isinstance(n, ast.Assign):
            st = self.expr(n.value, st)
            for t in n.targets:
                st = self.store(t, st)
            return st
        if isinstance(n, ast.AnnAssign):
            st = self.expr(n.value, st)
            return self.store(n.target, st) if n.value is not None else st
        if isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name) and n.target.id in self.watch:
                ok = n.target.id in st
                self.w.say('assigned', self.s, n, ok, n.target.id if ok else 'local %s can be read before it is assigned' % n.target.id)
            else:
                self.use(n.target, st)
            st = self.expr(n.value, st)
            return self.store(n.target, st)
        if isinstance(n, (ast.Expr,)):
            return self.expr(n.value, st)
        if isinstance(n, ast.Return):
            self.expr(n.value, st)
            return None
        if isinstance(n, ast.Raise):
            self.expr(n.exc, st)
            self.expr(n.cause, st)
            return None
        if isinstance(n, ast.Assert):
            if isinstance(n.test, ast.Constant) and not n.test.value:
                return None
            self.expr(n.msg, st)
            return self.expr(n.test, st)
        if isinstance(n, ast.If):
            st = self.expr(n.test, st)
            # what an earlier test of the same condition has assigned
            parts = n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]
            more = st
            for p in parts:
                more = more | self.tests.get(ast.dump(p), (frozenset(), ()))[0]
            a = self.block(n.body, more)
            b = self.block(n.orelse, st)
            if a is not None and a - st:
                names = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
                if not names & (a - st):
                    self.tests[ast.dump(n.test)] = (a - st, names)
            return self.join(a, b)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            st = self.expr(n.iter, st)
            st2 = self.store(n.target, st)
            self.loops.append(('for', []))
            a = self.block(n.body, st2)
            kind, brk = self.loops.pop()
            # the body runs at least once
            out = self.block(n.orelse, a) if a is not None else self.block(n.orelse, st2) if n.orelse else st2
            for b in brk:
                out = self.join(out, b) if out is not None else b
            return out
        if isinstance(n, ast.While):
            st = self.expr(n.test, st)
            forever = isinstance(n.test, ast.Constant) and bool(n.test.value)
            self.loops.append(('while', []))
            a = self.block(n.body, st)
            kind, brk = self.loops.pop()
            out = None if forever else (a if a is not None else st)
            if not forever:
                out = self.block(n.orelse, out)
            for b in brk:
                out = self.join(out, b) if out is not None else b
            return out
        if isinstance(n, ast.Break):
            if self.loops:
                self.loops[-1][1].append(st)
            return None
        if isinstance(n, ast.Continue):
            return None
        if isinstance(n, ast.Try):
            seen = []
            self.handlers.append(seen)
            a = self.block(n.body, st)
            self.handlers.pop()
            if not seen:
                seen = [st]
            # a statement can raise before it stores: the state before each one
            hs = None
            for x in seen:
                hs = self.join(hs, x)
            out = self.block(n.orelse, a) if a is not None else None
            for h in n.handlers:
                self.expr(h.type, hs)
                b = self.block(h.body, hs | {h.name} if h.name else hs)
                if b is not None and h.name:
                    b = b - {h.name}
                out = self.join(out, b) if b is not None else out
            if n.finalbody:
                # a read in the finally block may follow an exception anywhere in the body
                self.block(n.finalbody, hs)
                if out is not None:
                    out = out | (self.block(n.finalbody, out) or frozenset())
            return out
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.store(i.optional_vars, st)
            return self.block(n.body, st)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return st | {n.name}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name).split('.')[0] for a in n.names}
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    st = st - {t.id}
                else:
                    self.use(t, st)
            return st
        if isinstance(n, ast.Match):
            st = self.expr(n.subject, st)
            out = st
            for c in n.cases:
                names = {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                b = self.block(c.body, st | names)
                out = self.join(out, b)
            return out
        return st
