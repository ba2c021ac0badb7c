from vspec import ASSUME, ANY, LIB
import ssllib
from bitcoin.core.key import CECKey, CPubKey
from bitcoin.wallet import CKey


def fresh():
    """a key, of a library that could make one"""
    ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)
    return CECKey()


def fresh_ref():
    ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)


def plain(x):
    return x.value if isinstance(x, ssllib.Value) else x


def new():
    k = CECKey()
    return plain(k.k)


def new_ref():
    r = LIB('EC_KEY_new_by_curve_name', 0, 'int')
    if r == 0:
        raise ValueError('')
    return r


# ---- verification
def verify(hash, sig):
    k = fresh()
    r = k.verify(hash, sig)
    return True if r else False, [a[1:5] for a in ssllib.calls('ECDSA_verify')]


def verify_ref(hash, sig):
    fresh_ref()
    return LIB('ECDSA_verify', 0, 'int') == 1, [(hash, len(hash), sig, len(sig))]


def verify_by_pubkey(buf, hash, sig):
    k = fresh()
    p = CPubKey(buf, k)
    r = p.verify(hash, sig)
    return True if r else False, [a[1:5] for a in ssllib.calls('ECDSA_verify')], [plain(a[5]) for a in ssllib.calls('ECDSA_verify')]


def verify_by_pubkey_ref(buf, hash, sig):
    fresh_ref()
    return LIB('ECDSA_verify', 0, 'int') == 1, [(hash, len(hash), sig, len(sig))], [LIB('EC_KEY_new_by_curve_name', 0, 'int')]


# ---- public keys
def setup(buf, own):
    if own:
        p = CPubKey(buf, fresh())
    else:
        ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)
        p = CPubKey(buf)
    given = [(ssllib.target(a[1]).init == buf, a[2]) for a in ssllib.calls('o2i_ECPublicKey')]
    return True if p.is_fullyvalid else False, p.is_valid, p.is_compressed, bytes(p), given


def setup_ref(buf, own):
    fresh_ref()
    return LIB('o2i_ECPublicKey', 0, 'int') != 0, len(buf) > 0, len(buf) == 33, buf, [(True, len(buf))]


# ---- signing
def sign(hash):
    k = fresh()
    r = k.sign(hash)
    return r, [a[1:3] for a in ssllib.calls('ECDSA_sign')]


def sign_ref(hash):
    fresh_ref()
    if not isinstance(hash, bytes):
        raise TypeError('')
    if len(hash) != 32:
        raise ValueError('')
    if LIB('ECDSA_sign', 0, 'int') != 1:
        raise AssertionError('')
    return LIB('written by ECDSA_sign', 0, 'bytes')[:LIB('number from ECDSA_sign', 0, 'uint')], [(hash, 32)]


# ---- private keys
def secret(s):
    k = fresh()
    k.set_secretbytes(s)
    return [a[:2] for a in ssllib.calls('BN_bin2bn')], len(ssllib.calls('EC_KEY_set_private_key')), len(ssllib.calls('EC_KEY_set_public_key'))


def secret_ref(s):
    fresh_ref()
    if LIB('EC_POINT_mul', 0, 'int') == 0:
        raise ValueError('')
    return [(s, 32)], 1, 1


def whole_key(s, compressed):
    ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)
    k = CKey(s, compressed)
    pub = bytes(k.pub)
    r = (pub, True if k.pub.is_fullyvalid else False, k.is_compressed, [a[:2] for a in ssllib.calls('BN_bin2bn')],
         [plain(a[1]) for a in ssllib.calls('EC_KEY_set_conv_form')])
    return r


def whole_key_ref(s, compressed):
    fresh_ref()
    if LIB('EC_POINT_mul', 0, 'int') == 0:
        raise ValueError('')
    n = len(ssllib.calls('i2o_ECPublicKey'))
    pub = LIB('written by i2o_ECPublicKey', 1, 'bytes')
    return pub, LIB('o2i_ECPublicKey', 0, 'int') != 0, len(pub) == 33, [(s, 32)], [2 if compressed else 4]


def signed_by_whole_key(s, hash):
    ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)
    return CKey(s).sign(hash)


def signed_by_whole_key_ref(s, hash):
    fresh_ref()
    if LIB('EC_POINT_mul', 0, 'int') == 0:
        raise ValueError('')
    return sign_ref(hash)[0]


# ---- key exchange
def exchange():
    ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)
    ASSUME(LIB('EC_KEY_new_by_curve_name', 1, 'int') != 0)
    return CECKey().get_raw_ecdh_key(CECKey())


def exchange_ref():
    ASSUME(LIB('EC_KEY_new_by_curve_name', 0, 'int') != 0)
    ASSUME(LIB('EC_KEY_new_by_curve_name', 1, 'int') != 0)
    if LIB('ECDH_compute_key', 0, 'int') != 32:
        raise Exception('')
    return LIB('written by ECDH_compute_key', 0, 'bytes')
