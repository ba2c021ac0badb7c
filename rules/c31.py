import ast
import itertools
from engine.oblig import Equiv, Table, sym
from engine.terms import *
from engine.objects import *
from .common import *

METHOD = 'outcome tables of chain selection over every sequence of up to three selections and an arbitrary name, compared with a table of ' \
         'the parameters of each chain; a rule on the syntax tree that nothing keeps a copy of the parameters in force'
S = 'spec_c31.'
NAMES = ('mainnet', 'testnet', 'regtest', 'nochain')
GLOBALS = {'bitcoin': 'params', 'bitcoin.core': 'coreparams'}


def copies(P, report):
    """who copies or rebinds the global parameters"""
    for name, (path, src, tree) in sorted(P.files.items()):
        if name.startswith(('spec_', 'vspec')) or '/specs/' in str(path):
            continue
        if name in GLOBALS:
            continue                     # their own modules: decided by the tables
        for fn, node, early in walk(tree):
            site = '%s:%d' % (path, getattr(node, 'lineno', 0))
            if isinstance(node, ast.ImportFrom) and node.level == 0 and node.module in GLOBALS:
                bad = [a.name for a in node.names if a.name == GLOBALS[node.module]]
                report(site, not bad, 'imports a copy of %s, which selecting a chain does not change' % ' '.join(bad))
            elif isinstance(node, ast.Attribute) and node.attr in GLOBALS.values() and dotted(node) in ('bitcoin.params', 'bitcoin.core.coreparams'):
                if isinstance(node.ctx, ast.Load):
                    report(site, not early, 'reads %s once, when the module is loaded' % dotted(node))
                elif fn is not None:
                    report(site, False, '%s sets %s' % (fn, dotted(node)))


def dotted(n):
    p = []
    while isinstance(n, ast.Attribute):
        p.append(n.attr)
        n = n.value
    return '.'.join([n.id] + p[::-1]) if isinstance(n, ast.Name) else ''


def walk(tree):
    """(function, node, evaluated when the module loads) over a module"""
    def go(n, fn, early):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in c.args.defaults + [x for x in c.args.kw_defaults if x] + c.decorator_list:
                    yield from both(d, fn, early)
                for b in c.body:
                    yield from both(b, c.name if fn is None else fn + '.' + c.name, False)
            elif isinstance(c, ast.Lambda):
                for d in c.args.defaults:
                    yield from both(d, fn, early)
                yield from both(c.body, (fn or '') + '.lambda', False)
            else:
                yield from both(c, fn, early)

    def both(n, fn, early):
        yield fn, n, early
        yield from go(n, fn, early)
    yield from go(tree, None, True)


def obligations(P):
    out = []
    need(P, 'bitcoin.SelectParams')
    site = 'bitcoin.SelectParams'
    inp = lambda *f: (lambda run, P: list(f))
    for n in (1, 2, 3):
        for p in itertools.product(NAMES, repeat=n):
            out.append(Equiv('selecting ' + ', '.join(p), S + 'selections', S + 'selections_ref', inp(Tup([C(x) for x in p])), effects=False, site=site))
    for b in NAMES[:3]:
        out.append(Equiv('selecting any name after ' + b, S + 'any_name', S + 'any_name_ref', inp(C(b), sym('name', 'str')), effects=False, site=site))
        out.append(Equiv('seeds of ' + b, S + 'kind', S + 'kind_ref', inp(C(b)), effects=False, site=site))
        for a in NAMES[:3]:
            out.append(Equiv('work limit of %s after %s' % (a, b), S + 'limit_in_force', S + 'limit_in_force_ref', inp(C(b), C(a)), effects=False, site=site))
    out.append(Equiv('parameters before any selection', S + 'start', S + 'start_ref', inp(), effects=False, site=site))
    out.append(Equiv('genesis commitment', S + 'first', S + 'first_ref', inp(), effects=False, site=site))
    out.append(Table('nothing keeps a copy of the parameters in force', copies, site=site, minimum=5))
    return out
