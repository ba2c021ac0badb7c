"""Reference layout of the Bitcoin structures: encoders from field values, and builders that make the library's objects
from the same values."""
import hashlib
from vspec import ASSUME
from bitcoin.core import (COutPoint, CTxIn, CTxOut, CTransaction, CMutableOutPoint, CMutableTxIn, CMutableTxOut,
                          CMutableTransaction, CBlockHeader, CBlock)
from bitcoin.core.script import CScript
from bitcoin.net import CAddress, CInv, CBlockLocator, CUnsignedAlert, CAlert


def u(n, v):
    """unsigned little-endian integer of n bytes"""
    ASSUME(0 <= v < 1 << 8 * n)
    return v.to_bytes(n, 'little')


def i(n, v):
    ASSUME(-(1 << 8 * n - 1) <= v < 1 << 8 * n - 1)
    return v.to_bytes(n, 'little', signed=True)


def h32(v):
    ASSUME(len(v) == 32)
    return v


def varint(n):
    if n < 0xfd:
        return n.to_bytes(1, 'little')
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    ASSUME(n <= 0xffffffffffffffff)
    return b'\xff' + n.to_bytes(8, 'little')


STATE = {'long': False}


def short(b):
    """variable-length bytes; the length forms are a matter of their own, unless they are asked for"""
    if STATE['long']:
        ASSUME(len(b) <= 0x02000000)
        return varint(len(b)) + b
    ASSUME(len(b) < 0xfd)
    return len(b).to_bytes(1, 'little') + b


def vec(items):
    return varint(len(items)) + b''.join(items)


def sha256d(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def outpoint(p):
    h, n = p
    return h32(h) + u(4, n)


def txin(p):
    o, script, seq = p
    return outpoint(o) + short(script) + u(4, seq)


def txout(p):
    value, script = p
    return i(8, value) + short(script)


def tx(p):
    version, ins, outs, lock = p
    return i(4, version) + vec([txin(x) for x in ins]) + vec([txout(x) for x in outs]) + u(4, lock)


def header(p):
    version, prev, root, time, bits, nonce = p
    return i(4, version) + h32(prev) + h32(root) + u(4, time) + u(4, bits) + u(4, nonce)


def block(p):
    hd, txs = p
    return header(hd) + vec([tx(x) for x in txs])


# objects from field values

def mk_outpoint(p):
    return COutPoint(p[0], p[1])


def mk_txin(p):
    return CTxIn(mk_outpoint(p[0]), CScript(p[1]), p[2])


def mk_txout(p):
    return CTxOut(p[0], CScript(p[1]))


def mk_tx(p):
    return CTransaction([mk_txin(x) for x in p[1]], [mk_txout(x) for x in p[2]], p[3], p[0])


def mk_header(p):
    return CBlockHeader(p[0], p[1], p[2], p[3], p[4], p[5])


def mk_block(p):
    hd = p[0]
    return CBlock(hd[0], hd[1], hd[2], hd[3], hd[4], hd[5], [mk_tx(x) for x in p[1]])


def mm_outpoint(p):
    return CMutableOutPoint(p[0], p[1])


def mm_txin(p):
    return CMutableTxIn(mm_outpoint(p[0]), CScript(p[1]), p[2])


def mm_txout(p):
    return CMutableTxOut(p[0], CScript(p[1]))


def mm_tx(p):
    return CMutableTransaction([mm_txin(x) for x in p[1]], [mm_txout(x) for x in p[2]], p[3], p[0])


# field values from objects

def f_outpoint(o):
    return o.hash, o.n


def f_txin(t):
    return f_outpoint(t.prevout), bytes(t.scriptSig), t.nSequence


def f_txout(t):
    return t.nValue, bytes(t.scriptPubKey)


def f_tx(t):
    return t.nVersion, tuple([f_txin(x) for x in t.vin]), tuple([f_txout(x) for x in t.vout]), t.nLockTime


def f_header(b):
    return b.nVersion, b.hashPrevBlock, b.hashMerkleRoot, b.nTime, b.nBits, b.nNonce


def f_block(b):
    return f_header(b), tuple([f_tx(x) for x in b.vtx])


# (wire, make, fields, class, mutable make, mutable class)
OUTPOINT = (outpoint, mk_outpoint, f_outpoint, COutPoint, mm_outpoint, CMutableOutPoint)
TXIN = (txin, mk_txin, f_txin, CTxIn, mm_txin, CMutableTxIn)
TXOUT = (txout, mk_txout, f_txout, CTxOut, mm_txout, CMutableTxOut)
TX = (tx, mk_tx, f_tx, CTransaction, mm_tx, CMutableTransaction)
HEADER = (header, mk_header, f_header, CBlockHeader, None, None)
BLOCK = (block, mk_block, f_block, CBlock, None, None)


# ------------------------------------------------------------ peer messages

import io
import socket
from bitcoin.messages import *
from bitcoin.bloom import CBloomFilter


def ip4(v):
    ASSUME(len(v) == 4)
    return v


def fix(n, v):
    ASSUME(len(v) == n)
    return v


def addr_body(p):
    time, services, reserved, ip, port = p
    ASSUME(0 <= port < 65536)
    return u(8, services) + fix(12, reserved) + ip4(ip) + port.to_bytes(2, 'big')


def addr(p):
    return u(4, p[0]) + addr_body(p)


def inv(p):
    return i(4, p[0]) + h32(p[1])


def locator(p):
    return i(4, p[0]) + vec([h32(x) for x in p[1]])


def unsigned_alert(p):
    (version, relay, expiration, id_, cancel, cancels, minver, maxver, subvers, priority, comment, status, reserved) = p
    return (i(4, version) + i(8, relay) + i(8, expiration) + i(4, id_) + i(4, cancel) + vec([i(4, x) for x in cancels]) +
            i(4, minver) + i(4, maxver) + vec([short(x) for x in subvers]) + i(4, priority) + short(comment) +
            short(status) + short(reserved))


def alert(p):
    return short(p[0]) + short(p[1])


def version(p):
    v, services, time, to, from_, nonce, sub, height = p
    ASSUME(v >= 209 and v != 10300)
    return (i(4, v) + u(8, services) + i(8, time) + addr_body(to) + addr_body(from_) + u(8, nonce) + short(sub) + i(4, height))


def empty(p):
    return b''


def addrs(p):
    return vec([addr(x) for x in p])


def invs(p):
    return vec([inv(x) for x in p])


def getblocks(p):
    return locator(p[0]) + h32(p[1])


def headers(p):
    return vec([block(x) for x in p])


def nonce(p):
    return u(8, p[0])


def mk_addr(p):
    c = CAddress()
    c.nTime, c.nServices, c.pchReserved, c.ip, c.port = p[0], p[1], p[2], socket.inet_ntoa(p[3]), p[4]
    return c


def mk_inv(p):
    c = CInv()
    c.type, c.hash = p
    return c


def mk_locator(p):
    c = CBlockLocator()
    c.nVersion, c.vHave = p[0], list(p[1])
    return c


def mk_unsigned_alert(p):
    c = CUnsignedAlert()
    (c.nVersion, c.nRelayUntil, c.nExpiration, c.nID, c.nCancel, c.setCancel, c.nMinVer, c.nMaxVer, c.setSubVer,
     c.nPriority, c.strComment, c.strStatusBar, c.strReserved) = p
    c.setCancel = list(c.setCancel)
    c.setSubVer = list(c.setSubVer)
    return c


def mk_alert(p):
    c = CAlert()
    c.vchMsg, c.vchSig = p
    return c


def mk_version(p):
    m = msg_version()
    m.nVersion, m.nServices, m.nTime, m.nNonce, m.strSubVer, m.nStartingHeight = p[0], p[1], p[2], p[5], p[6], p[7]
    m.addrTo, m.addrFrom = mk_addr(p[3]), mk_addr(p[4])
    return m


def mk_verack(p):
    return msg_verack()


def mk_addrs(p):
    m = msg_addr()
    m.addrs = [mk_addr(x) for x in p]
    return m


def mk_malert(p):
    m = msg_alert()
    m.alert = mk_alert(p)
    return m


def mk_invs(p):
    m = msg_inv()
    m.inv = [mk_inv(x) for x in p]
    return m


def mk_getdata(p):
    m = msg_getdata()
    m.inv = [mk_inv(x) for x in p]
    return m


def mk_getblocks(p):
    m = msg_getblocks()
    m.locator, m.hashstop = mk_locator(p[0]), p[1]
    return m


def mk_getheaders(p):
    m = msg_getheaders()
    m.locator, m.hashstop = mk_locator(p[0]), p[1]
    return m


def mk_headers(p):
    m = msg_headers()
    m.headers = [mk_block(x) for x in p]
    return m


def mk_mtx(p):
    m = msg_tx()
    m.tx = mk_tx(p)
    return m


def mk_mblock(p):
    m = msg_block()
    m.block = mk_block(p)
    return m


def mk_getaddr(p):
    return msg_getaddr()


def mk_ping(p):
    return msg_ping(nonce=p[0])


def mk_pong(p):
    return msg_pong(nonce=p[0])


def mk_mempool(p):
    return msg_mempool()


def f_addr(c):
    return c.nTime, c.nServices, c.pchReserved, socket.inet_aton(c.ip), c.port



def f_inv(c):
    return c.type, c.hash


def f_locator(c):
    return c.nVersion, tuple(c.vHave)


def f_unsigned_alert(c):
    return (c.nVersion, c.nRelayUntil, c.nExpiration, c.nID, c.nCancel, tuple(c.setCancel), c.nMinVer, c.nMaxVer,
            tuple(c.setSubVer), c.nPriority, c.strComment, c.strStatusBar, c.strReserved)


def f_alert(c):
    return c.vchMsg, c.vchSig


def f_version(m):
    return (m.nVersion, m.nServices, m.nTime, f_addr(m.addrTo)[1:], f_addr(m.addrFrom)[1:], m.nNonce, m.strSubVer,
            m.nStartingHeight)


def r_version(p):
    return p[0], p[1], p[2], p[3][1:], p[4][1:], p[5], p[6], p[7]


def f_empty(m):
    return ()


def f_addrs(m):
    return tuple([f_addr(x) for x in m.addrs])


def f_malert(m):
    return f_alert(m.alert)


def f_invs(m):
    return tuple([f_inv(x) for x in m.inv])


def f_getblocks(m):
    return f_locator(m.locator), m.hashstop


def f_headers(m):
    return tuple([f_block(x) for x in m.headers])


def f_mtx(m):
    return f_tx(m.tx)


def f_mblock(m):
    return f_block(m.block)


def f_nonce(m):
    return (m.nonce,)


ADDRESS = (addr, mk_addr, f_addr, CAddress)
INV = (inv, mk_inv, f_inv, CInv)
LOCATOR = (locator, mk_locator, f_locator, CBlockLocator)
UNSIGNED_ALERT = (unsigned_alert, mk_unsigned_alert, f_unsigned_alert, CUnsignedAlert)
ALERT = (alert, mk_alert, f_alert, CAlert)

VERSION = (version, mk_version, f_version, msg_version)
VERACK = (empty, mk_verack, f_empty, msg_verack)
ADDR = (addrs, mk_addrs, f_addrs, msg_addr)
MALERT = (alert, mk_malert, f_malert, msg_alert)
MINV = (invs, mk_invs, f_invs, msg_inv)
GETDATA = (invs, mk_getdata, f_invs, msg_getdata)
GETBLOCKS = (getblocks, mk_getblocks, f_getblocks, msg_getblocks)
GETHEADERS = (getblocks, mk_getheaders, f_getblocks, msg_getheaders)
HEADERS = (headers, mk_headers, f_headers, msg_headers)
MTX = (tx, mk_mtx, f_mtx, msg_tx)
MBLOCK = (block, mk_mblock, f_mblock, msg_block)
GETADDR = (empty, mk_getaddr, f_empty, msg_getaddr)
PING = (nonce, mk_ping, f_nonce, msg_ping)
PONG = (nonce, mk_pong, f_nonce, msg_pong)
MEMPOOL = (empty, mk_mempool, f_empty, msg_mempool)
