from engine.interp import code_of
from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from engine import interp
from .common import *
from . import c16

METHOD = 'outcome tables of every command of the tool over symbolic seals, transactions, digests and file systems, ' \
         'compared with the files a reference leaves behind'
ASSUMPTIONS = ['argparse, open and the node answer as specs/toollib.py describes']
S = 'spec_c36.'
T = 'sus_tool.'
SPECS = ['toollib', 'spec_c01', 'spec_c02']


def script(P):
    def run_tool(run, a, k):
        path, src, tree = P.files['sus_tool']
        ns = run.alloc(NS(), 'ns')
        mod = interp.Mod('seal tool', ns, path, tree)
        d = run.get(ns).d
        d['__name__'] = C('__main__')
        d['__file__'] = C(path)
        fr = Frame(code_of(tree), mod, None)
        fr.ns = ns
        for st in tree.body:
            run.exec(st, fr)
        return NONE
    return run_tool


def prepare(P):
    def of(name):
        return interp.Lazy(lambda run: run.getattr_(run.import_module('toollib'), name))
    for n in ('ArgumentParser', 'Action', 'FileType', 'Namespace', 'ArgumentTypeError', 'ArgumentError', 'HelpFormatter'):
        P.ext_consts['argparse.' + n] = of(n)
    for n in ('ArgumentDefaultsHelpFormatter', 'RawDescriptionHelpFormatter', 'RawTextHelpFormatter'):
        P.ext_consts['argparse.' + n] = of('HelpFormatter')
    for n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'basicConfig', 'getLogger'):
        P.ext_consts['logging.' + n] = interp.Lazy(lambda run, n=n: run.getattr_(run.getattr_(run.import_module('toollib'), 'LOGGER'), n))
    P.ext_consts['logging.root'] = of('LOGGER')
    P.ext_consts['logging.StreamHandler'] = P.ext_consts['logging.Formatter'] = of('Handler')
    for n, v in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('WARN', 30), ('ERROR', 40), ('CRITICAL', 50)):
        P.ext_consts['logging.' + n] = C(v)
    P.ext_consts['open'] = P.ext_consts['io.open'] = of('open_')
    P.ext_consts['print'] = of('print_')
    P.ext_consts['os.path.exists'] = P.ext_consts['os.path.lexists'] = of('exists')
    P.ext_models['vspec.SCRIPT'] = Builtin('SCRIPT', script(P))


def seal(n):
    return Tup([Tup([sym(n + '.hash', 'bytes'), sym(n + '.n', 'int')]), sym(n + '.nonce', 'bytes')])


def obligations(P):
    out = []
    cfg = {}

    def eq(name, fn, *vals, site, need_ret=True, cfg=cfg):
        out.append(Equiv(name, S + fn, S + fn + '_ref', lambda run, P: [x() if callable(x) else x for x in vals], cfg=cfg, effects=False, site=T + site,
                         need_ret=need_ret))
    h, n, old = sym('h', 'bytes'), sym('n', 'int'), sym('old', 'bytes')
    none = Tup([])
    for g in (none, Tup([Tup([C('-t')])]), Tup([Tup([C('-n')])]), Tup([Tup([C('-v')]), Tup([C('--verbose')])]), Tup([Tup([C('-q')])])):
        for exists in (TRUE, FALSE):
            eq('mkseal %s, %s' % (' '.join(x.items[0].args[0] for x in g.items), 'file exists' if exists is TRUE else 'new file'), 'mkseal', h, n, old, exists, g,
               site='cmd_mkseal')
    g, m = sym('g', 'bytes'), sym('m', 'int')
    eq('mkseal twice', 'mkseal_twice', h, n, g, m, site='cmd_mkseal')
    eq('mkseal of what is no outpoint', 'mkseal_range', h, n, site='ParseCOutPointArg')
    for text in ('abc', 'a:b:c', 'zz', '00', 'g' * 64):
        eq('mkseal of %.5s' % text, 'mkseal_bad', C(text), n, site='ParseCOutPointArg')
    d = sym('digest', 'bytes')
    for meth in (None, 'op-return', 'p2sh', 'p2pkh'):
        for k in (1, 2, 3):
            eq('mkclosetx %s of %d' % (meth, k), 'mkclosetx', d, C(meth), Tup([seal('s%d' % i) for i in range(k)]), site='cmd_mkclosetx')
    eq('mkclosetx of one file twice', 'mkclosetx_twice', d, seal('s0'), site='cmd_mkclosetx')
    for by in ('tx', 'txid'):
        for exists in (TRUE, FALSE):
            for k in (1, 2):
                eq('mkwitness by %s of %d inputs%s' % (by, k, ', file exists' if exists is TRUE else ''), 'mkwitness', seal('s'), c16.tx('t', k, 1), C(by), exists,
                   site='cmd_mkwitness')
    for net in ('mainnet', 'testnet'):
        for known in (TRUE, FALSE):
            eq('mkwitness by %s txid on %s' % ('a known' if known is TRUE else 'an unknown', net), 'which_node', seal('s'), c16.tx('t', 1, 1), C(net), known, site='cmd_mkwitness')
    for k, t in ((1, 1), (2, 1), (2, 2), (2, 3)):
        eq('mkwitness of %d seals by %d inputs' % (k, t), 'mkwitnesses', Tup([seal('s%d' % i) for i in range(k)]), c16.tx('t', t, 2), site='cmd_mkwitness')
    i, j, q = sym('i', 'int'), sym('j', 'int'), lambda: c16.tx('q', 1, 1)
    w, sid = 'cmd_verifywitness', sym('id', 'bytes')
    hashed = {'opaque': {'proofchains.core.bitcoin.TxProof.calc_hash': 'bytes'}, 'vocabulary': ('proofchains.core.bitcoin.TxProof.calc_hash',)}
    for a, b in ((1, 1), (2, 2)):
        t = c16.tx('t', a, b)
        eq('verifywitness, %d inputs, %d outputs' % (a, b), 'verifywitness', seal('s'), i, t, j, NONE, NONE, NONE, NONE, C(4), site=w, cfg=hashed)
        for k in (34, 23, 25, 35):
            eq('verifywitness, %d inputs, %d outputs of %d bytes, digest' % (a, b, k), 'verifywitness', seal('s'), i, t, j, NONE, d, NONE, NONE, C(k), site=w, cfg=hashed)
        eq('verifywitness, %d inputs, %d outputs, local' % (a, b), 'local', seal('s'), i, t, j, NONE, d, C(34), site=w, cfg=hashed)
    t = c16.tx('t', 1, 1)
    eq('verifywitness, two transactions', 'verifywitness', seal('s'), C(0), t, C(0), q, NONE, NONE, NONE, C(4), site=w, cfg=hashed)
    for x in (d, NONE):
        for y in (seal('o'), NONE):
            for z in (sid, NONE):
                eq('verifywitness%s%s%s' % (', digest' if x is d else '', ', seal file' if y is not NONE else '', ', seal hash' if z is sid else ''), 'verifywitness',
                   seal('s'), C(0), t, C(0), NONE, x, y, z, C(34), site=w, cfg=hashed)
    for c in ('mkclosetx', '-d', '--seal-id'):
        for text in ('', '00', 'zz', 'zz' * 32, '00' * 31, '00' * 33, '0' * 63):
            eq('%s of %d digits %.2s' % (c, len(text), text), 'malformed', C(c), C(text), site='ParseDigestArg')
    for c in ('sealinfo', 'witnessinfo'):
        eq(c, 'info', seal('s'), t, C(c), site='cmd_' + c)
    return out
