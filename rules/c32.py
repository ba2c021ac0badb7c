from engine.interp import Lazy
from engine.oblig import Equiv, sym
from engine.terms import *
from engine.objects import *
from .common import *

METHOD = 'outcome tables of the key classes over a crypto library each of whose functions answers an arbitrary value, with the calls made ' \
         'and the results used compared with a reference'
ASSUMPTIONS = ['ctypes passes pointers, buffers and numbers as specs/ssllib.py describes; a NULL result of a pointer type is None']
S = 'spec_c32.'
K = 'bitcoin.core.key.'
SPECS = ['ssllib']


def prepare(P):
    """the crypto library and ctypes, as the code sees them"""
    def lib(run, a, k):
        name, n, kind = a[0].args[0], a[1], a[2].args[0]
        return mk('call', 'crypto ' + name, n, sort=kind)
    P.ext_models['vspec.LIB'] = Builtin('LIB', lib)

    def of(cls):
        def make(run, a, k):
            m = run.import_module('ssllib')
            return run.call(run.getattr_(m, cls), a, {})
        return make
    P.ext_models['ctypes.cdll.LoadLibrary'] = Builtin('LoadLibrary', lambda run, a, k: of('Library')(run, [], {}))
    P.ext_models['ctypes.CDLL'] = Builtin('CDLL', lambda run, a, k: of('Library')(run, [], {}))
    P.ext_models['ctypes.byref'] = Builtin('byref', of('Pointer'))
    P.ext_models['ctypes.pointer'] = Builtin('pointer', of('Pointer'))
    P.ext_models['ctypes.create_string_buffer'] = Builtin('create_string_buffer', of('Buffer'))
    for n in ('c_void_p', 'c_uint32', 'c_int', 'c_uint', 'c_size_t', 'c_long', 'c_ulong', 'c_int32', 'c_uint64', 'c_int64'):
        P.ext_consts['ctypes.' + n] = Lazy(lambda run: run.getattr_(run.import_module('ssllib'), 'Value'))
    P.ext_models['ctypes.util.find_library'] = Builtin('find_library', lambda run, a, k: C('libssl'))


def obligations(P):
    out = []
    need(P, K + 'CECKey')
    h, s, b = sym('hash', 'bytes'), sym('sig', 'bytes'), sym('buf', 'bytes')
    cfg = {}

    def eq(name, fn, *vals, site, need_ret=True):
        out.append(Equiv(name, S + fn, S + fn + '_ref', lambda run, P: list(vals), cfg=cfg, effects=False, site=K + site, need_ret=need_ret))
    eq('making a key', 'new', site='CECKey.__init__')
    eq('verification', 'verify', h, s, site='CECKey.verify')
    eq('verification by a public key', 'verify_by_pubkey', b, h, s, site='CPubKey.verify')
    eq('public key over a given key', 'setup', b, C(True), site='CPubKey.__new__')
    eq('public key', 'setup', b, C(False), site='CPubKey.__new__')
    eq('signing', 'sign', h, site='CECKey.sign')
    eq('signing something that is not bytes', 'sign', sym('hash', 'int'), site='CECKey.sign', need_ret=False)
    eq('signing text', 'sign', sym('hash', 'str'), site='CECKey.sign', need_ret=False)
    eq('secret', 'secret', s, site='CECKey.set_secretbytes')
    for c in (True, False):
        eq('private key' + (', compressed' if c else ''), 'whole_key', s, C(c), site='CECKey')
    eq('signing with a private key', 'signed_by_whole_key', s, h, site='CECKey.sign')
    eq('key exchange', 'exchange', site='CECKey.get_raw_ecdh_key')
    return out
