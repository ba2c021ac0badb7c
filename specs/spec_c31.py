from vspec import ASSUME, ANY
import bitcoin
import bitcoin.core

TX = bytes.fromhex('01000000010000000000000000000000000000000000000000000000000000000000000000ffffffff4d04ffff001d0104455468652054696d6573'
                   '2030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73'
                   'ffffffff0100f2052a01000000434104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e'
                   '51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac00000000')
ROOT = bytes.fromhex('3ba3edfd7a7b12b27ac72c3e67768f617fc81bc3888a51323a9fb8aa4b1e5e4a')


def genesis(time, bits, nonce):
    return bytes.fromhex('01000000') + b'\x00' * 32 + ROOT + time.to_bytes(4, 'little') + bits.to_bytes(4, 'little') + nonce.to_bytes(4, 'little') \
        + b'\x01' + TX


# name: magic, port, RPC port, prefixes of addresses, script addresses and secrets, genesis block, halving interval, work limit
CHAINS = {
    'mainnet': (b'\xf9\xbe\xb4\xd9', 8333, 8332, 0, 5, 128, genesis(1231006505, 0x1d00ffff, 2083236893), 210000, 2 ** 224 - 1),
    'testnet': (b'\x0b\x11\x09\x07', 18333, 18332, 111, 196, 239, genesis(1296688602, 0x1d00ffff, 414098458), 210000, 2 ** 224 - 1),
    'regtest': (b'\xfa\xbf\xb5\xda', 18444, 18332, 111, 196, 239, genesis(1296688602, 0x207fffff, 2), 150, 2 ** 255 - 1),
}


def seen():
    p, c = bitcoin.params, bitcoin.core.coreparams
    pre = p.BASE58_PREFIXES
    return (p.NAME, p.MESSAGE_START, p.DEFAULT_PORT, p.RPC_PORT, pre['PUBKEY_ADDR'], pre['SCRIPT_ADDR'], pre['SECRET_KEY'],
            p.GENESIS_BLOCK.serialize(), p.SUBSIDY_HALVING_INTERVAL, p.PROOF_OF_WORK_LIMIT, p is c,
            c.NAME, c.GENESIS_BLOCK.serialize(), c.SUBSIDY_HALVING_INTERVAL, c.PROOF_OF_WORK_LIMIT)


def kinds():
    p, c = bitcoin.params, bitcoin.core.coreparams
    return isinstance(p, bitcoin.core.CoreChainParams), len(p.DNS_SEEDS) > 0 if p.NAME != 'regtest' else len(p.DNS_SEEDS) == 0


def expected(name, same):
    magic, port, rpc, a, s, k, g, halving, limit = CHAINS[name]
    return name, magic, port, rpc, a, s, k, g, halving, limit, same, name, g, halving, limit


def selections(names):
    out = []
    for n in names:
        try:
            bitcoin.SelectParams(n)
            r = True
        except ValueError:
            r = False
        out.append((r,) + seen())
    return out


def selections_ref(names):
    out = []
    at, same = 'mainnet', True
    for n in names:
        r = n in CHAINS
        if r:
            at, same = n, True
        elif at == 'mainnet' and not out:
            same = ANY
        out.append((r,) + expected(at, same))
    return out


def first():
    bitcoin.SelectParams('mainnet')
    return kinds(), bitcoin.params.GENESIS_BLOCK.hashMerkleRoot


def first_ref():
    return (True, True), ROOT


def kind(name):
    bitcoin.SelectParams(name)
    return kinds()


def kind_ref(name):
    return True, True


def start():
    s = seen()
    return s[:10] + s[11:]


def start_ref():
    s = expected('mainnet', True)
    return s[:10] + s[11:]


def any_name(before, name):
    bitcoin.SelectParams(before)
    try:
        bitcoin.SelectParams(name)
        r = True
    except ValueError:
        r = False
    return (r,) + seen()


def any_name_ref(before, name):
    for n in CHAINS:
        if name == n:
            return (True,) + expected(n, True)
    return (False,) + expected(before, True)


def limit_in_force(before, name):
    """the work limit the checks apply is the one selected"""
    bitcoin.SelectParams(before)
    bitcoin.SelectParams(name)
    try:
        bitcoin.core.CheckProofOfWork(b'\x00' * 32, 0x207fffff)
    except bitcoin.core.CheckProofOfWorkError:
        return False
    return True


def limit_in_force_ref(before, name):
    return name == 'regtest'
