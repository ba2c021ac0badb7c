from vspec import ASSUME, ANY, LIB
import ssllib
import bitcoin
import bitcoin.core
from bitcoin import base58
from bitcoin.base58 import CBase58Data, Base58ChecksumError
from bitcoin.core.key import CPubKey
from bitcoin.core.script import CScript
from bitcoin.wallet import (CBitcoinAddress, P2SHBitcoinAddress, P2PKHBitcoinAddress, CBitcoinAddressError, CBitcoinSecret, CBitcoinSecretError)
import scriptlib
from spec_c29 import full, tail, items

PREFIX = {'mainnet': (0, 5, 128), 'testnet': (111, 196, 239), 'regtest': (111, 196, 239)}
CLASSES = {'data': CBase58Data, 'address': CBitcoinAddress, 'hash of key': P2PKHBitcoinAddress, 'hash of script': P2SHBitcoinAddress}


def kind(o):
    t = type(o)
    for n in CLASSES:
        if t is CLASSES[n]:
            return n
    return 'other'


def seen(o):
    return kind(o), o.nVersion, bytes(o), str(o), o.to_bytes()


def printed(data, version):
    w = bytes([version]) + data
    return base58.encode(w + bitcoin.core.Hash(w)[:4])


def expected(cls, chain, data, version):
    """an object of a class over given data and version"""
    key, script, secret = PREFIX[chain]
    if version < 0 or version > 255:
        raise ValueError('')
    if cls == 'hash of key' and version != key or cls == 'hash of script' and version != script:
        raise ValueError('')
    if cls != 'data':
        if version == key:
            cls = 'hash of key'
        elif version == script:
            cls = 'hash of script'
        else:
            raise CBitcoinAddressError('')
    return cls, version, data, printed(data, version), data


# ---- text
def text(chain, cls, s):
    bitcoin.SelectParams(chain)
    return seen(CLASSES[cls](s))


def text_ref(chain, cls, s):
    data, version = checked(s)
    return expected(cls, chain, data, version)


def checked(s):
    k = base58.decode(s)
    if len(k) < 5:
        raise Base58ChecksumError('')
    if bitcoin.core.Hash(k[:-4])[:4] != k[-4:]:
        raise Base58ChecksumError('')
    return k[1:-4], k[0]


# ---- data and version
def data(chain, cls, d, version):
    bitcoin.SelectParams(chain)
    return seen(CLASSES[cls].from_bytes(d, version))


def data_ref(chain, cls, d, version):
    return expected(cls, chain, d, version)


def default(chain, cls, d):
    bitcoin.SelectParams(chain)
    return seen(CLASSES[cls].from_bytes(d))


def default_ref(chain, cls, d):
    return expected(cls, chain, d, PREFIX[chain][0 if cls == 'hash of key' else 1])


def moved(a, b, cls, d):
    """an address of one chain is not written as a script of another"""
    bitcoin.SelectParams(a)
    o = CLASSES[cls].from_bytes(d)
    bitcoin.SelectParams(b)
    return bytes(o.to_scriptPubKey())


def moved_ref(a, b, cls, d):
    i = 0 if cls == 'hash of key' else 1
    if PREFIX[a][i] != PREFIX[b][i]:
        raise AssertionError('')
    ASSUME(len(d) < 0x4c)
    if i == 0:
        return b'\x76\xa9' + scriptlib.push(len(d)) + d + b'\x88\xac'
    return b'\xa9' + scriptlib.push(len(d)) + d + b'\x87'


# ---- scripts
def from_script(chain, cls, prog, t, loose, bare):
    w = full(prog) + tail(t)
    bitcoin.SelectParams(chain)
    if cls == 'hash of key':
        o = P2PKHBitcoinAddress.from_scriptPubKey(CScript(w), loose, bare)
    else:
        o = CLASSES[cls].from_scriptPubKey(CScript(w))
    return seen(o)


def from_script_ref(chain, cls, prog, t, loose, bare):
    w = full(prog) + tail(t)
    key, script, secret = PREFIX[chain]
    if cls != 'hash of key':
        if len(w) == 23 and w[0] == 0xa9 and w[1] == 20 and w[22] == 0x87:
            return expected('address', chain, w[2:22], script)
        if cls == 'hash of script':
            raise CBitcoinAddressError('')
    r = recognised(prog, t, w, loose, bare)
    if r is None:
        raise CBitcoinAddressError('')
    return expected('address', chain, r, key)


def recognised(prog, t, w, loose, bare):
    if loose and t is not None:
        return None
    if not loose:
        if len(w) == 25 and w[:3] == b'\x76\xa9\x14' and w[23:] == b'\x88\xac':
            return w[3:23]
        if bare and len(w) == 35 and w[0] == 0x21 and w[34] == 0xac:
            return bitcoin.core.Hash160(w[1:34])
        if bare and len(w) == 67 and w[0] == 0x41 and w[66] == 0xac:
            return bitcoin.core.Hash160(w[1:66])
        return None
    ops = [op if d is None else None for op, d, at in items(prog)]
    ds = [d for op, d, at in items(prog)]
    if ops == [0x76, 0xa9, None, 0x88, 0xac] and len(ds[2]) == 20:
        return ds[2]
    if bare and ops == [None, 0xac] and (len(ds[0]) == 33 or len(ds[0]) == 65):
        return bitcoin.core.Hash160(ds[0])
    return None


def bare_kind(chain, prog):
    """what is made of a bare key: the hash is of all of it, or as recorded, of all but its last byte"""
    bitcoin.SelectParams(chain)
    o = P2PKHBitcoinAddress.from_scriptPubKey(CScript(full(prog)))
    k = prog[0][1]
    d = bytes(o)
    return kind(o), o.nVersion, d == bitcoin.core.Hash160(k) or d == bitcoin.core.Hash160(k[:64])


def bare_kind_ref(chain, prog):
    full(prog)
    return 'hash of key', PREFIX[chain][0], True


def redeem(chain, w):
    bitcoin.SelectParams(chain)
    return seen(P2SHBitcoinAddress.from_redeemScript(CScript(w)))


def redeem_ref(chain, w):
    if len(w) > 520:
        raise ValueError('')
    return expected('address', chain, bitcoin.core.Hash160(w), PREFIX[chain][1])


def there_and_back(chain, cls, d):
    """the script an address writes is the one its class recognises"""
    ASSUME(len(d) == 20)
    bitcoin.SelectParams(chain)
    s = CLASSES[cls].from_bytes(d).to_scriptPubKey()
    return bytes(s), seen(CLASSES[cls].from_scriptPubKey(s)), seen(CBitcoinAddress.from_scriptPubKey(s))


def there_and_back_ref(chain, cls, d):
    ASSUME(len(d) == 20)
    i = 0 if cls == 'hash of key' else 1
    w = b'\x76\xa9\x14' + d + b'\x88\xac' if i == 0 else b'\xa9\x14' + d + b'\x87'
    e = expected('address', chain, d, PREFIX[chain][i])
    return w, e, e


# ---- public and private keys
def from_pubkey(chain, b, invalid, made):
    ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)
    bitcoin.SelectParams(chain)
    return seen(P2PKHBitcoinAddress.from_pubkey(CPubKey(b) if made else b, invalid))


def from_pubkey_ref(chain, b, invalid, made):
    ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)
    if not invalid and LIB('o2i_ECPublicKey', 0, 'int') == 0:
        raise CBitcoinAddressError('')
    return expected('address', chain, bitcoin.core.Hash160(b), PREFIX[chain][0])


def library():
    ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)
    ASSUME(LIB('EC_POINT_mul', 0, 'int') != 0)


def used():
    return [a[:2] for a in ssllib.calls('BN_bin2bn')], [a[1] for a in ssllib.calls('EC_KEY_set_conv_form')]


def secret_text(chain, s):
    library()
    bitcoin.SelectParams(chain)
    k = CBitcoinSecret(s)
    return used(), bytes(k), k.nVersion, type(k) is CBitcoinSecret, str(k)


def secret_text_ref(chain, s):
    library()
    d, version = checked(s)
    if version != PREFIX[chain][2]:
        raise CBitcoinSecretError('')
    c = len(d) > 32 and d[32] == 1
    return ([(d[:32], 32)], [2 if c else 4]), d, version, True, printed(d, version)


def secret_bytes(chain, d, compressed):
    library()
    ASSUME(len(d) == 32)
    bitcoin.SelectParams(chain)
    k = CBitcoinSecret.from_secret_bytes(d, compressed) if compressed is not None else CBitcoinSecret.from_secret_bytes(d)
    return used(), bytes(k), k.nVersion, type(k) is CBitcoinSecret, str(k)


def secret_bytes_ref(chain, d, compressed):
    library()
    ASSUME(len(d) == 32)
    w = d if compressed is False else d + b'\x01'
    v = PREFIX[chain][2]
    return ([(d, 32)], [4 if compressed is False else 2]), w, v, True, printed(w, v)
