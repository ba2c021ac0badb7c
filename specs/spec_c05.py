from vspec import ASSUME


def code_verify(p):
    p.verify()


def check(i, l):
    if i < 0 or i >= len(l):
        raise AssertionError


def verify_txin(p):
    check(p.i, p.txproof.tx.vin)


def verify_txout(p):
    check(p.i, p.txproof.tx.vout)


def code_txin(p):
    ASSUME(0 <= p.i < len(p.txproof.tx.vin))
    return p.txin


def code_txout(p):
    ASSUME(0 <= p.i < len(p.txproof.tx.vout))
    return p.txout


def txin(p):
    return p.txproof.tx.vin[p.i]


def txout(p):
    return p.txproof.tx.vout[p.i]
