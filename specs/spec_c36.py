import os
from vspec import ASSUME, ANY, SCRIPT
import bitcoin.core
import bitcoin.rpc
from bitcoin.core import COutPoint, CTxIn, CTxOut, CTransaction, b2x, b2lx
from bitcoin.core.script import CScript
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof
from proofchains.core.uniquebits.singleuseseal import BitcoinSingleUseSeal, BitcoinSealWitness
from proofchains.uniquebits.singleuseseal import make_close_seal_tx_template
import toollib
import spec_c01
import spec_c02
import netlib


def tool(globals_, command, positionals, options, files, chain=()):
    """what one run of the tool leaves behind"""
    toollib.begin(globals_, command, positionals, options, files)
    toollib.W.chain = chain
    bitcoin.rpc.Proxy = toollib.Node
    try:
        SCRIPT()
        ok = True
    except Exception:
        ok = False
    except SystemExit:
        ok = False
    return ok


def files():
    return sorted(toollib.W.files.items())


class Txid:
    """the text of an outpoint, in its parts"""
    def __init__(self, parts):
        self.parts = parts

    def count(self, c):
        return len(self.parts) - 1

    def split(self, c=None, maxsplit=-1):
        if maxsplit == 1 and len(self.parts) > 2:
            raise NotImplementedError
        return list(self.parts)

    rsplit = split

    def partition(self, c):
        if len(self.parts) == 1:
            return self.parts[0], '', ''
        if len(self.parts) == 2:
            return self.parts[0], ':', self.parts[1]
        raise NotImplementedError

    rpartition = partition

    def find(self, c):
        return -1 if len(self.parts) == 1 else 64

    def __contains__(self, c):
        return len(self.parts) > 1

    def __len__(self):
        return 66

    def __str__(self):
        return 'text'

    __repr__ = __str__


class Number:
    """the digits of a number"""
    def __init__(self, n):
        self.n = n

    def __int__(self):
        return self.n


def seal_of(s):
    (h, n), nonce = s
    return BitcoinSingleUseSeal(outpoint=COutPoint(h, n), nonce=nonce)


def good_seal(s):
    (h, n), nonce = s
    ASSUME(len(h) == 32 and 0 <= n <= 0xffffffff and len(nonce) == 16)


# ---- mkseal
def mkseal(h, n, old, exists, globals_):
    ASSUME(len(h) == 32 and 0 <= n <= 0xffffffff)
    ok = tool(globals_, 'mkseal', [Txid([b2lx(h), Number(n)]), 'a.seal'], [], [('a.seal', old)] if exists else [])
    return ok, files(), toollib.W.sent


def mkseal_ref(h, n, old, exists, globals_):
    ASSUME(len(h) == 32 and 0 <= n <= 0xffffffff)
    if exists:
        return False, [('a.seal', old)], []
    seal = BitcoinSingleUseSeal(outpoint=COutPoint(h, n), nonce=os.urandom(16))
    return True, [('a.seal', seal.serialize())], []


def mkseal_twice(h, n, g, m):
    """two seals in one go share nothing"""
    ASSUME(len(h) == 32 and 0 <= n <= 0xffffffff)
    ASSUME(len(g) == 32 and 0 <= m <= 0xffffffff)
    a = tool([], 'mkseal', [Txid([b2lx(h), Number(n)]), 'a.seal'], [], [])
    kept = files()
    b = tool([], 'mkseal', [Txid([b2lx(g), Number(m)]), 'b.seal'], [], kept)
    return a, b, files()


def mkseal_twice_ref(h, n, g, m):
    ASSUME(len(h) == 32 and 0 <= n <= 0xffffffff)
    ASSUME(len(g) == 32 and 0 <= m <= 0xffffffff)
    a = BitcoinSingleUseSeal(outpoint=COutPoint(h, n), nonce=os.urandom(16))
    b = BitcoinSingleUseSeal(outpoint=COutPoint(g, m), nonce=os.urandom(16))
    return True, True, [('a.seal', a.serialize()), ('b.seal', b.serialize())]


def mkseal_bad(text, n):
    """an outpoint which is none makes no seal"""
    parts = [text, Number(n)] if text != 'abc' and text != 'a:b:c' else text.split(':')
    ok = tool([], 'mkseal', [Txid(parts), 'a.seal'], [], [('b.seal', b'')])
    return ok, [b for a, b in files()]


def mkseal_bad_ref(text, n):
    return False, ANY


def mkseal_range(h, n):
    """no seal is made of an outpoint whose index does not fit or whose txid is not one"""
    ASSUME(len(h) != 32 or n < 0 or n > 0xffffffff)
    ok = tool([], 'mkseal', [Txid([b2lx(h), Number(n)]), 'a.seal'], [], [])
    return ok, [b for a, b in files() if len(b) > 0]


def mkseal_range_ref(h, n):
    ASSUME(len(h) != 32 or n < 0 or n > 0xffffffff)
    return False, []


# ---- mkclosetx
def mkclosetx(digest, meth, seals):
    ASSUME(len(digest) == 32)
    names = ['a.seal', 'b.seal', 'c.seal']
    made = []
    for s in seals:
        good_seal(s)
        made.append(seal_of(s))
    fs = []
    for i in range(len(made)):
        fs.append((names[i], made[i].serialize()))
    ok = tool([], 'mkclosetx', [b2x(digest)] + names[:len(made)], [] if meth is None else [('--' + meth,)], fs)
    return ok, files() == fs, toollib.W.sent, [o for o in toollib.W.out]


def mkclosetx_ref(digest, meth, seals):
    ASSUME(len(digest) == 32)
    made = []
    for s in seals:
        good_seal(s)
        made.append(seal_of(s))
    for i in range(len(seals)):
        for j in range(i):
            if made[i].hash == made[j].hash:
                return False, True, [], []
    meth = 'op_return' if meth is None else meth.replace('-', '_')
    tx = make_close_seal_tx_template(digest, *made, meth=meth)
    return True, True, [], [(b2x(tx.serialize()),)]


def mkclosetx_twice(digest, s):
    """a seal is not closed twice, whatever file it comes from"""
    ASSUME(len(digest) == 32)
    good_seal(s)
    fs = [('a.seal', seal_of(s).serialize())]
    ok = tool([], 'mkclosetx', [b2x(digest), 'a.seal', 'a.seal'], [], fs)
    return ok, files() == fs, toollib.W.out


def mkclosetx_twice_ref(digest, s):
    ASSUME(len(digest) == 32)
    good_seal(s)
    return False, True, []


# ---- mkwitness
def mktx(p):
    return netlib.mk_tx(p)


def good_tx(p):
    version, ins, outs, locktime = p
    ASSUME(-0x80000000 <= version <= 0x7fffffff and 0 <= locktime <= 0xffffffff)
    for (h, n), sig, seq in ins:
        ASSUME(len(h) == 32 and 0 <= n <= 0xffffffff and len(sig) < 100 and 0 <= seq <= 0xffffffff)
    for v, pk in outs:
        ASSUME(-0x8000000000000000 <= v <= 0x7fffffffffffffff and len(pk) < 100)


def mkwitness(s, p, by, exists):
    """a witness file holds the proof of the input spending the seal and of the first output"""
    good_seal(s)
    good_tx(p)
    tx = mktx(p)
    data = tx.serialize()
    txid = tx.GetHash()
    seal = seal_of(s)
    fs = [('a.seal', seal.serialize())]
    if exists:
        fs.append(('a.seal.witness', b'old'))
    ok = tool([], 'mkwitness', ['a.seal'], [('--tx', b2x(data))] if by == 'tx' else [('--txid', b2lx(txid))], fs, [(txid, tx)])
    return ok, files(), toollib.W.sent


def mkwitness_ref(s, p, by, exists):
    good_seal(s)
    good_tx(p)
    tx = mktx(p)
    tx.serialize()
    seal = seal_of(s)
    fs = [('a.seal', seal.serialize())]
    (h, n), nonce = s
    at = None
    for i in range(len(p[1])):
        if at is None and p[1][i][0][0] == h and p[1][i][0][1] == n:
            at = i
    if exists:
        return False, fs + [('a.seal.witness', b'old')], []
    if at is None:
        return False, fs, []
    txproof = TxProof(tx=tx)
    w = BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=at, txproof=txproof), txoutproof=TxOutProof(i=0, txproof=txproof))
    return True, fs + [('a.seal.witness', w.serialize())], []


def which_node(s, p, network, known):
    """the transaction is taken from the node of the selected network; nothing is witnessed by one that is not known"""
    good_seal(s)
    good_tx(p)
    tx = mktx(p)
    tx.serialize()
    txid = tx.GetHash()
    ok = tool([('-t',)] if network == 'testnet' else [], 'mkwitness', ['a.seal'], [('--txid', b2lx(txid))], [('a.seal', seal_of(s).serialize())],
              [(txid, tx)] if known else [])
    return known or not ok, toollib.W.asked, len(files()) == 1 or known


def which_node_ref(s, p, network, known):
    good_seal(s)
    good_tx(p)
    mktx(p).serialize()
    return True, [18332 if network == 'testnet' else 8332], True


def mkwitnesses(seals, p):
    """one file for each seal; those before the first one which is not spent"""
    names = ['a.seal', 'b.seal', 'c.seal'][:len(seals)]
    for s in seals:
        good_seal(s)
    good_tx(p)
    tx = mktx(p)
    fs = [(names[k], seal_of(seals[k]).serialize()) for k in range(len(seals))]
    ok = tool([], 'mkwitness', names, [('--tx', b2x(tx.serialize()))], fs)
    return ok, files()


def mkwitnesses_ref(seals, p):
    names = ['a.seal', 'b.seal', 'c.seal'][:len(seals)]
    for s in seals:
        good_seal(s)
    good_tx(p)
    txproof = TxProof(tx=mktx(p))
    fs = [(names[k], seal_of(seals[k]).serialize()) for k in range(len(seals))]
    ok = True
    for k in range(len(seals)):
        h, n = seals[k][0]
        at = None
        for i in range(len(p[1])):
            if at is None and p[1][i][0][0] == h and p[1][i][0][1] == n:
                at = i
        if at is None:
            ok = False
        if ok:
            w = BitcoinSealWitness(seal=seal_of(seals[k]), txinproof=TxInProof(i=at, txproof=txproof), txoutproof=TxOutProof(i=0, txproof=txproof))
            fs.append((names[k] + '.witness', w.serialize()))
    return ok, sorted(fs)


# ---- verifywitness
def sized(p, n):
    for o, sig, seq in p[1]:
        ASSUME(len(sig) == 3)
    for v, pk in p[2]:
        ASSUME(len(pk) == n)


def witness_of(s, i, p, j, q, n):
    good_seal(s)
    good_tx(p)
    sized(p, n)
    ASSUME(0 <= i <= 0xffffffff and 0 <= j <= 0xffffffff)
    a = TxProof(tx=mktx(p))
    b = a
    if q is not None:
        good_tx(q)
        sized(q, n)
        b = TxProof(tx=mktx(q))
    return BitcoinSealWitness(seal=seal_of(s), txinproof=TxInProof(i=i, txproof=a), txoutproof=TxOutProof(i=j, txproof=b))


def verifywitness(s, i, p, j, q, digest, other, seal_id, n):
    w = witness_of(s, i, p, j, q, n)
    fs = [('a.witness', w.serialize())]
    options = []
    if digest is not None:
        ASSUME(len(digest) == 32)
        options.append(('-d', b2x(digest)))
    if other is not None:
        good_seal(other)
        fs.append(('b.seal', seal_of(other).serialize()))
        options.append(('--seal-file', 'b.seal'))
    if seal_id is not None:
        ASSUME(len(seal_id) == 32)
        options.append(('--seal-id', b2x(seal_id)))
    ok = tool([], 'verifywitness', ['a.witness'], options, fs)
    return ok, files() == fs


def verifywitness_ref(s, i, p, j, q, digest, other, seal_id, n):
    w = witness_of(s, i, p, j, q, n)
    if digest is not None:
        ASSUME(len(digest) == 32)
    if other is not None:
        good_seal(other)
    if seal_id is not None:
        ASSUME(len(seal_id) == 32)
    w = BitcoinSealWitness.deserialize(w.serialize())
    ok = True
    try:
        spec_c01.verify(w)
        if digest is not None:
            spec_c02.verify_hash(w, digest)
    except Exception:
        ok = False
    if ok and other is not None and w.seal.hash != seal_of(other).hash:
        ok = False
    if ok and seal_id is not None and w.seal.hash != seal_id:
        ok = False
    return ok, True


def local(s, i, p, j, q, digest, n):
    """-l leaves out what needs the chain, and nothing else"""
    w = witness_of(s, i, p, j, q, n)
    ASSUME(len(digest) == 32)
    fs = [('a.witness', w.serialize())]
    ok = tool([], 'verifywitness', ['a.witness'], [('-l',), ('-d', b2x(digest))], fs)
    return ok, files() == fs


def local_ref(s, i, p, j, q, digest, n):
    return verifywitness_ref(s, i, p, j, q, digest, None, None, n)


def malformed(command, text):
    """a digest or a seal hash which is not 32 bytes of hexadecimal is refused"""
    fs = [('a.witness', b'w'), ('a.seal', b's')]
    if command == 'mkclosetx':
        ok = tool([], 'mkclosetx', [text, 'a.seal'], [], fs)
    else:
        ok = tool([], 'verifywitness', ['a.witness'], [(command, text)], fs)
    return ok, toollib.W.refused, files() == sorted(fs)


def malformed_ref(command, text):
    return False, True, True


def info(s, p, command):
    """looking at a seal or a witness writes nothing"""
    good_seal(s)
    good_tx(p)
    txproof = TxProof(tx=mktx(p))
    w = BitcoinSealWitness(seal=seal_of(s), txinproof=TxInProof(i=0, txproof=txproof), txoutproof=TxOutProof(i=0, txproof=txproof))
    fs = [('a.file', seal_of(s).serialize() if command == 'sealinfo' else w.serialize())]
    ok = tool([], command, ['a.file'], [], fs)
    return ok, files() == fs, len(toollib.W.out) > 0


def info_ref(s, p, command):
    good_seal(s)
    good_tx(p)
    return True, True, True
