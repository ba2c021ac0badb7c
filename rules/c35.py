import check
from engine import names
from engine.oblig import Table
from .common import *

METHOD = 'every name, attribute, import, call shape and read of a local variable in the source is resolved against everything the source ' \
         'binds: scoping rules, a flow-insensitive inference of modules, classes and instances, call shapes against parameter lists ' \
         '(subclass overrides included), and definite assignment'
ASSUMPTIONS = ['the standard library of the installed interpreter is the one the code runs with',
               'the body of a loop runs at least once for the purpose of definite assignment',
               'an attribute of a value the inference does not know exists if anything in the code base or the library types it uses has it']
RULES = (('import', 'every imported name exists', 100), ('name', 'every name resolves in its scope', 2000),
         ('attribute', 'every attribute exists on what it is read from', 1000),
         ('call', 'every call matches the parameters of what it reaches', 500),
         ('assigned', 'every local is assigned before it is read, on every path', 500))


def obligations(P):
    R = check.REPO
    w = names.World([('bitcoin', R + '/lib/python-bitcoinlib/bitcoin'), ('proofmarshal', R + '/lib/python-proofmarshal/proofmarshal'),
                     ('proofchains', R + '/proofchains')], [('sus_tool', R + '/sus-tool.py')])
    found = {}
    w.check(lambda rule, *a: found.setdefault(rule, []).append(a))

    def table(rule):
        def run(P, report):
            for site, ok, msg, at, key in found.get(rule, ()):
                report(site, ok, msg, at, key)
        return run
    return [Table(text, table(rule), site=R, minimum=n) for rule, text, n in RULES]
