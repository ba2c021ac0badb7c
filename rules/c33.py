from engine.interp import Lazy
from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *
from . import c16

METHOD = 'outcome tables of every proxy method over symbolic arguments and replies of every shape, with decimals and floats kept apart, ' \
         'compared with the requests and conversions of a reference'
ASSUMPTIONS = ['the standard library writes and reads JSON, decimals and base 64 as specified']
S = 'spec_c33.'
R = 'bitcoin.rpc.'
B = 'bitcoin.base58.'
SPECS = ['rpclib']


def prepare(P):
    def lib(run, a, k):
        return mk('call', 'crypto ' + a[0].args[0], a[1], sort=a[2].args[0])

    def of(name):
        return Lazy(lambda run: run.getattr_(run.import_module('rpclib'), name))
    P.ext_models['vspec.LIB'] = Builtin('LIB', lib)
    for mod in ('urllib.parse', 'urlparse'):
        P.ext_consts[mod + '.urlparse'] = of('urlparse')
    P.ext_consts['json.dumps'] = of('dumps')
    P.ext_consts['json.loads'] = of('loads')
    P.ext_consts['decimal.Decimal'] = of('Amount')


KINDS = ('good', 'nothing', 'error', 'error and nothing', 'error and a result', 'no result', 'empty error', 'no members in the error', 'false error',
         'silence')
METHODS = ('getblock', 'getblockhash', 'getrawtransaction', 'getrawtransaction, verbose', 'gettransaction', 'gettxout', 'getbalance', 'getinfo',
           'getaccountaddress', 'getnewaddress', 'getrawchangeaddress', 'getrawmempool', 'getrawmempool, verbose', 'getreceivedbyaddress', 'listunspent',
           'lockunspent', 'sendtoaddress', 'sendrawtransaction', 'signrawtransaction', 'submitblock', 'validateaddress', 'addnode', 'addnodeonetry', 'removenode')


def obligations(P):
    out = []
    need(P, R + 'Proxy')
    cfg = {'opaque': {B + 'decode': 'bytes', B + 'encode': 'str'}, 'vocabulary': (B + 'decode', B + 'encode'),
           'may_raise': {B + 'decode': [need(P, B + 'InvalidBase58Error')]}}

    def eq(name, fn, *vals, site, need_ret=True, exc='sub'):
        out.append(Equiv(name, S + fn, S + fn + '_ref', lambda run, P: [x() if callable(x) else x for x in vals], cfg=cfg, effects=False, site=R + site,
                         need_ret=need_ret, exc=exc))
    h, g, k = sym('h', 'bytes'), sym('g', 'bytes'), sym('key', 'bytes')
    n, v, w, code = sym('n', 'int'), sym('v', 'int'), sym('w', 'int'), sym('code', 'int')
    s, t, m = sym('s', 'str'), sym('t', 'str'), sym('message', 'str')
    for kind in KINDS:
        for how in ('by name', 'as a method'):
            eq('reply: %s, called %s' % (kind, how), 'reply', C(kind), C(how), code, m, v, site='RawProxy._call', need_ret=kind in ('good', 'nothing'),
               exc='any' if kind in ('silence', 'no members in the error', 'false error') else 'sub')
    eq('content of an error', 'content', code, m, site='RawProxy._call')
    eq('replies one after another', 'twice', v, w, site='RawProxy._call')
    for name in METHODS:
        eq('error reply to ' + name, 'refused', C(name), code, m, n if name == 'getblockhash' else h, site='Proxy.' + name.split(',')[0], need_ret=False)
        for kind in ('no JSON', 'broken connection'):
            eq('%s in %s' % (kind, name), 'broken', C(name), C(kind), n if name == 'getblockhash' else h, site='Proxy.' + name.split(',')[0], need_ret=False, exc='any')
    for b in (TRUE, FALSE):
        eq('output not found' + (', mempool included' if b is TRUE else ''), 'spent', h, n, b, site='Proxy.gettxout', need_ret=False)
    for name in ('getbalance', 'getreceivedbyaddress', 'getinfo', 'getinfo, no balance'):
        eq('money of ' + name, 'money_of', C(name), v, w, s, site='Proxy.' + name.split(',')[0])
    for name in ('getaccountaddress', 'getnewaddress', 'getnewaddress, no account', 'getrawchangeaddress'):
        eq('address of ' + name, 'to_address', C(name), s, t, site='Proxy.' + name.split(',')[0])
    one = lambda: c16.tx('t', 1, 1)
    eq('block', 'block', h, lambda: c16.block('b', [(1, 1)]), site='Proxy.getblock')
    eq('block hash', 'blockhash', n, h, site='Proxy.getblockhash')
    for how in ('raw', 'in a block', 'in no block'):
        eq('transaction, ' + how, 'transaction', h, one, C(how), g, site='Proxy.getrawtransaction')
    eq('wallet transaction', 'wallet_transaction', h, v, site='Proxy.gettransaction')
    eq('mempool', 'mempool', Tup([h, g]), v, site='Proxy.getrawmempool')
    for b in (TRUE, FALSE):
        eq('output' + (', mempool included' if b is TRUE else ''), 'txout', h, n, b, g, v, k, site='Proxy.gettxout')
        eq('unspent outputs' + (' of addresses' if b is TRUE else ''), 'unspent', h, n, s, k, v, g, b, site='Proxy.listunspent')
        eq('locking' if b is FALSE else 'unlocking', 'lock', b, Tup([Tup([h, n]), Tup([g, C(3)])]), site='Proxy.lockunspent')
    for b in (TRUE, FALSE, NONE):
        eq('sending' + {TRUE: ', high fees', FALSE: ', no high fees', NONE: ''}[b], 'send', one, b, h, site='Proxy.sendrawtransaction')
    for amount in (0, 1, 10 ** 8, 150000000, 2099999997690000):
        eq('sending %d to an address' % amount, 'send_to', s, C(amount), h, site='Proxy.sendtoaddress')
    for b in (TRUE, FALSE):
        eq('signing' + (', complete' if b is TRUE else ''), 'sign', one, lambda: c16.tx('u', 1, 1), b, Tup([]), site='Proxy.signrawtransaction')
    eq('signing with more', 'sign', one, lambda: c16.tx('u', 1, 1), TRUE, Tup([s, v]), site='Proxy.signrawtransaction')
    blk = lambda: c16.block('b', [(1, 1)])
    eq('submission', 'submit', blk, NONE, v, site='Proxy.submitblock')
    eq('submission with parameters', 'submit', blk, s, v, site='Proxy.submitblock')
    for valid in (TRUE, FALSE):
        for key in (NONE, k):
            eq('address which is %svalid%s' % ('' if valid is TRUE else 'not ', ', with key' if key is k else ''), 'validate', s, t, valid, key,
               site='Proxy.validateaddress')
    eq('nodes', 'nodes', s, v, site='Proxy.addnode')
    return out
