def verify(w):
    i = w.txinproof.i
    vin = w.txinproof.txproof.tx.vin
    if i < 0 or i >= len(vin):
        raise IndexError
    spent = vin[i].prevout
    seal = w.seal.outpoint
    if spent.hash != seal.hash or spent.n != seal.n:
        raise AssertionError
    if w.txinproof.txproof.hash != w.txoutproof.txproof.hash:
        raise AssertionError
