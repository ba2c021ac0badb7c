import hashlib
from vspec import ASSUME
from proofchains.uniquebits.singleuseseal import make_close_seal_tx_template


def facts(tx):
    return ([(i.prevout.hash, i.prevout.n) for i in tx.vin],
            [(o.nValue, bytes(o.scriptPubKey)) for o in tx.vout])


def code_default(digest, seals, dust):
    ASSUME(len(digest) == 32)
    return facts(make_close_seal_tx_template(digest, *seals))


def code_op_return(digest, seals, dust):
    ASSUME(len(digest) == 32)
    return facts(make_close_seal_tx_template(digest, *seals, meth='op_return', dust=dust))


def code_p2sh(digest, seals, dust):
    ASSUME(len(digest) == 32)
    return facts(make_close_seal_tx_template(digest, *seals, meth='p2sh', dust=dust))


def code_p2pkh(digest, seals, dust):
    ASSUME(len(digest) == 32)
    return facts(make_close_seal_tx_template(digest, *seals, meth='p2pkh', dust=dust))


def code_p2sh_nodust(digest, seals):
    ASSUME(len(digest) == 32)
    return facts(make_close_seal_tx_template(digest, *seals, meth='p2sh'))[0]


def code_p2pkh_nodust(digest, seals):
    ASSUME(len(digest) == 32)
    return facts(make_close_seal_tx_template(digest, *seals, meth='p2pkh'))[0]


def h160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


def ins(seals):
    return [(s.outpoint.hash, s.outpoint.n) for s in seals]


def op_return(digest, seals, dust):
    ASSUME(len(digest) == 32)
    return ins(seals), [(0, b'\x6a\x20' + digest)]


default = op_return


def p2sh(digest, seals, dust):
    ASSUME(len(digest) == 32)
    return ins(seals), [(dust, b'\xa9\x14' + h160(digest) + b'\x87')]


def p2pkh(digest, seals, dust):
    ASSUME(len(digest) == 32)
    return ins(seals), [(dust, b'\x76\xa9\x14' + h160(digest) + b'\x88\xac')]


def p2sh_nodust(digest, seals):
    return ins(seals)


p2pkh_nodust = p2sh_nodust
