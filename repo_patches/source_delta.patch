From 4127e16e54486257ad3ec14131c30ccac6d5832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 01/30] fix: BitsSerializer.check_instance() ignored instances
 of the wrong class

---
 lib/python-proofmarshal/proofmarshal/bits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 19f620f..7ce90da 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -295,7 +295,8 @@ class Bits:
 class BitsSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, instance):
-        return instance.__class__ is Bits
+        if instance.__class__ is not Bits:
+            raise proofmarshal.serialize.SerializerTypeError('Expected Bits; got %r' % instance.__class__)
 
     @classmethod
     def ctx_serialize(cls, value, ctx):
-- 
2.43.0


From 606daf83c84ff7e4b55322a9194ccffdf6de2393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 02/30] fix: undefined name in
 CTransactionSerializer/COutPointSerializer.check_instance()

---
 proofchains/core/bitcoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 03c6a54..fdf9253 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -21,7 +21,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.CTransaction):
-            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, tx, ctx):
@@ -42,7 +42,7 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.COutPoint):
-            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, outpoint, ctx):
-- 
2.43.0


From 99db04f904ba3d43ff110ecb8345d8d8a7e6a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 03/30] fix: immutable copies of mutable outpoints and txins
 could not be made

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index ce0c093..c05e962 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -154,11 +154,11 @@ class COutPoint(ImmutableSerializable):
     def from_outpoint(cls, outpoint):
         """Create an immutable copy of an existing OutPoint
 
-        If output is already immutable (outpoint.__class__ is COutPoint) it is
+        If outpoint is already immutable (outpoint.__class__ is COutPoint) it is
         returned directly.
         """
-        if output.__class__ is COutPoint:
-            return output
+        if outpoint.__class__ is COutPoint:
+            return outpoint
 
         else:
             return cls(outpoint.hash, outpoint.n)
@@ -218,7 +218,7 @@ class CTxIn(ImmutableSerializable):
             return txin
 
         else:
-            return cls(COutPoint.from_txout(txin.prevout), txin.scriptSig, txin.nSequence)
+            return cls(COutPoint.from_outpoint(txin.prevout), txin.scriptSig, txin.nSequence)
 
 @__make_mutable
 class CMutableTxIn(CTxIn):
-- 
2.43.0


From c15f172bee816446fc9ba3d1d49a732714d70975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 04/30] fix: intVectorSerialzer.stream_deserialize() returned
 nothing

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index feeb7d1..d8a6fcd 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -279,7 +279,8 @@ class intVectorSerialzer(Serializer):
         l = VarIntSerializer.stream_deserialize(f)
         ints = []
         for i in range(l):
-            ints.append(struct.unpack(b"<i", ser_read(f, 4)))
+            ints.append(struct.unpack(b"<i", ser_read(f, 4))[0])
+        return ints
 
 
 class VarStringSerializer(Serializer):
-- 
2.43.0


From b92b25704d811f8f9311e7a22959c6d36170d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 05/30] fix: CBloomFilter.stream_deserialize() always failed

---
 lib/python-bitcoinlib/bitcoin/bloom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 8f76cbd..26b9d74 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -169,9 +169,9 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         vData = bitcoin.core.serialize.BytesSerializer.stream_deserialize(f)
         (nHashFuncs,
          nTweak,
-         nFlags) = self.__struct.unpack(_ser_read(f, self.__struct.size))
-        self = cls()
-        self.vData = vData
+         nFlags) = cls.__struct.unpack(bitcoin.core.serialize.ser_read(f, cls.__struct.size))
+        self = cls.__new__(cls)
+        self.vData = bytearray(vData)
         self.nHashFuncs = nHashFuncs
         self.nTweak = nTweak
         self.nFlags = nFlags
-- 
2.43.0


From bd072f5ccc144f6ec2f8a64221beac349a5d7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 06/30] fix: CUnsignedAlert (de)serialization used functions
 that do not exist

---
 lib/python-bitcoinlib/bitcoin/net.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 4916f21..8258c87 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -18,6 +18,8 @@ from binascii import hexlify
 from bitcoin.core.serialize import (
         Serializable,
         VarStringSerializer,
+        VectorSerializer,
+        intVectorSerialzer,
         ser_read,
         uint256VectorSerializer,
 )
@@ -127,14 +129,14 @@ class CUnsignedAlert(Serializable):
         c.nExpiration = struct.unpack(b"<q", ser_read(f,8))[0]
         c.nID = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nCancel = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setCancel = intVectorSerialzer.deserialize(f)
+        c.setCancel = intVectorSerialzer.stream_deserialize(f)
         c.nMinVer = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nMaxVer = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setSubVer = VarStringSerializer.deserialize(f)
+        c.setSubVer = VectorSerializer.stream_deserialize(VarStringSerializer, f)
         c.nPriority = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.strComment = VarStringSerializer.deserialize(f)
-        c.strStatusBar = VarStringSerializer.deserialize(f)
-        c.strReserved = VarStringSerializer.deserialize(f)
+        c.strComment = VarStringSerializer.stream_deserialize(f)
+        c.strStatusBar = VarStringSerializer.stream_deserialize(f)
+        c.strReserved = VarStringSerializer.stream_deserialize(f)
         return c
 
     def stream_serialize(self, f):
@@ -143,14 +145,14 @@ class CUnsignedAlert(Serializable):
         f.write(struct.pack(b"<q", self.nExpiration))
         f.write(struct.pack(b"<i", self.nID))
         f.write(struct.pack(b"<i", self.nCancel))
-        f.write(ser_int_vector(self.setCancel))
+        intVectorSerialzer.stream_serialize(self.setCancel, f)
         f.write(struct.pack(b"<i", self.nMinVer))
         f.write(struct.pack(b"<i", self.nMaxVer))
-        f.write(ser_string_vector(self.setSubVer))
+        VectorSerializer.stream_serialize(VarStringSerializer, self.setSubVer, f)
         f.write(struct.pack(b"<i", self.nPriority))
-        f.write(ser_string(self.strComment))
-        f.write(ser_string(self.strStatusBar))
-        f.write(ser_string(self.strReserved))
+        VarStringSerializer.stream_serialize(self.strComment, f)
+        VarStringSerializer.stream_serialize(self.strStatusBar, f)
+        VarStringSerializer.stream_serialize(self.strReserved, f)
 
     def __repr__(self):
         return "CUnsignedAlert(nVersion %d, nRelayUntil %d, nExpiration %d, nID %d, nCancel %d, nMinVer %d, nMaxVer %d, nPriority %d, strComment %s, strStatusBar %s, strReserved %s)" % (self.nVersion, self.nRelayUntil, self.nExpiration, self.nID, self.nCancel, self.nMinVer, self.nMaxVer, self.nPriority, self.strComment, self.strStatusBar, self.strReserved)
-- 
2.43.0


From 3854b76169559ddf0154f3c1b70e1215d09a085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 07/30] fix: selecting mainnet left the consensus parameters
 unset

---
 lib/python-bitcoinlib/bitcoin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/__init__.py b/lib/python-bitcoinlib/bitcoin/__init__.py
index de56cd5..4fade2f 100644
--- a/lib/python-bitcoinlib/bitcoin/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/__init__.py
@@ -13,7 +13,7 @@ from __future__ import absolute_import, division, print_function, unicode_litera
 
 import bitcoin.core
 
-class MainParams(bitcoin.core.CoreChainParams):
+class MainParams(bitcoin.core.CoreMainParams):
     MESSAGE_START = b'\xf9\xbe\xb4\xd9'
     DEFAULT_PORT = 8333
     RPC_PORT = 8332
-- 
2.43.0


From 18707d9a27620a2a92b8517c74aaa0db809e9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 08/30] fix: sus-tool mkseal failed for lack of a blinding
 nonce

---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index a8d0d38..8cfe572 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -16,6 +16,7 @@
 import argparse
 import collections
 import logging
+import os
 
 import bitcoin.rpc
 
@@ -88,7 +89,7 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
         help='Seal file')
 
 def cmd_mkseal(args):
-    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint)
+    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
     args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
-- 
2.43.0


From 70411f9d6a3755bfa2ba3b3d2a53a3b643f064de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 09/30] fix: sus-tool witnessinfo showed the outpoint txid
 byte-reversed

---
 sus-tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8cfe572..8e8d9e1 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -246,7 +246,7 @@ def cmd_witnessinfo(args):
     print('Hash:\t\t%s' % b2x(witness.hash))
     print('Txid:\t\t%s' % b2lx(witness.txinproof.txproof.txhash))
     print('Seal Hash:\t%s' % b2x(witness.seal.hash))
-    print('Seal OutPoint:\t%s:%d' % (b2x(witness.seal.outpoint.hash), witness.seal.outpoint.n))
+    print('Seal OutPoint:\t%s:%d' % (b2lx(witness.seal.outpoint.hash), witness.seal.outpoint.n))
 
 witnessinfo_parser.set_defaults(cmd_func=cmd_witnessinfo)
 
-- 
2.43.0


From 1458b2deae03e3e4d5927fbe6549b57e97893b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 10/30] fix: sus-tool verifywitness ignored --seal-file and
 --seal-id

---
 sus-tool.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8e8d9e1..4c2c90b 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -214,7 +214,14 @@ def cmd_verifywitness(args):
     if args.digest is not None:
         witness.verify_hash(args.digest)
 
-    # FIXME: seal and seal hash
+    if args.seal_file is not None:
+        seal = BitcoinSingleUseSeal.deserialize(args.seal_file.read())
+        if witness.seal != seal:
+            args.parser.error("Witness is not a witness to seal '%s'" % args.seal_file.name)
+
+    if args.seal_id is not None:
+        if witness.seal.hash != args.seal_id:
+            args.parser.error("Witness is not a witness to seal id %s" % b2x(args.seal_id))
 
 verifywitness_parser.set_defaults(cmd_func=cmd_verifywitness)
 
-- 
2.43.0


From d2cec4975464ff10b71e876b13c956b7d30384aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 11/30] fix: CheckBlock() never checked the coinbase
 transaction nor its sigops

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index c05e962..f2245b3 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -714,8 +714,8 @@ def CheckBlock(block, fCheckPoW = True, fCheckMerkleRoot = True, cur_time=None):
     # it'll be caught by the "more than one coinbase" test.
     unique_txids = set()
     nSigOps = 0
-    for tx in block.vtx[1:]:
-        if tx.is_coinbase():
+    for i, tx in enumerate(block.vtx):
+        if i > 0 and tx.is_coinbase():
             raise CheckBlockError("CheckBlock() : more than one coinbase")
 
         CheckTransaction(tx)
-- 
2.43.0


From fec8691cac60e6f91d30fe1ed766fe33c7a5c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 12/30] fix: GetSigOpCount() failed on invalid pushes and on
 accurate multisig counts

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 22 ++++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 5f71e74..acd9272 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -758,15 +758,19 @@ class CScript(bytes):
         """
         n = 0
         lastOpcode = OP_INVALIDOPCODE
-        for (opcode, data, sop_idx) in self.raw_iter():
-            if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
-                n += 1
-            elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
-                if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += opcode.decode_op_n()
-                else:
-                    n += 20
-            lastOpcode = opcode
+        try:
+            for (opcode, data, sop_idx) in self.raw_iter():
+                if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
+                    n += 1
+                elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
+                    if fAccurate and (OP_1 <= lastOpcode <= OP_16):
+                        n += CScriptOp(lastOpcode).decode_op_n()
+                    else:
+                        n += 20
+                lastOpcode = opcode
+        except CScriptInvalidError:
+            # Bitcoin Core stops counting at the first invalid push
+            pass
         return n
 
 
-- 
2.43.0


From 857cd882e11f3b5d20e3cce4e738f34ebc409ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 13/30] fix: the stack size limit was not enforced after pushes

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0e7fa44..ce517ba 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -394,7 +394,6 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
 
             elif fExec:
                 stack.append(sop_data)
-                continue
 
         elif fExec or (OP_IF <= sop <= OP_ENDIF):
 
-- 
2.43.0


From 894dd1c63322f4c6006a916783cfdae7dc34ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 14/30] fix: uint256_from_compact() failed on exponents below
 three

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index d8a6fcd..841ab57 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -312,8 +312,9 @@ def uint256_from_compact(c):
     Used for the nBits compact encoding of the target in the block header.
     """
     nbytes = (c >> 24) & 0xFF
-    v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
-    return v
+    if nbytes < 3:
+        return (c & 0xFFFFFF) >> (8 * (3 - nbytes))
+    return (c & 0xFFFFFF) << (8 * (nbytes - 3))
 
 
 def uint256_to_shortstr(u):
-- 
2.43.0


From c661d384dd1dff6f8fa116b371c84633b8daa7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 15/30] fix: a negative message length made the decoder read
 without bound

---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index aa6aedd..5cc220e 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -86,6 +86,8 @@ class MsgSerializable(Serializable):
         command = recvbuf[4:4+12].split(b"\x00", 1)[0]
         msglen = struct.unpack(b"<i", recvbuf[4+12:4+12+4])[0]
         checksum = recvbuf[4+12+4:4+12+4+4]
+        if msglen < 0:
+            raise ValueError("got negative message length %d" % msglen)
 
         # read message body
         recvbuf += ser_read(f, msglen)
-- 
2.43.0


From f7a64737b889ceff18f3f6076f0de6de57d5390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 16/30] fix: bad union class numbers raised NameError

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index faa8741..17341f5 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -13,7 +13,7 @@ import binascii
 import copy
 import hashlib
 
-from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, HashTag
+from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, DeserializationError, SerializerTypeError, HashTag
 
 """Proof representation
 
-- 
2.43.0


From 818d0de8a1fc02ec590bb2afd4c1bbb8ff830721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 17/30] fix: missing attributes of received pruned proofs
 raised TypeError, and subclasses of a used class kept its field table

---
 lib/python-proofmarshal/proofmarshal/proof.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 17341f5..ab2e2df 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -43,7 +43,7 @@ class Proof(HashingSerializer):
 
     def __new__(cls, **kwargs):
         """Basic creation/initialization"""
-        if cls.SERIALIZED_ATTRS_BY_NAME is None:
+        if cls.__dict__.get('SERIALIZED_ATTRS_BY_NAME') is None:
             cls.SERIALIZED_ATTRS_BY_NAME = {name:ser_cls for name, ser_cls in cls.SERIALIZED_ATTRS}
 
         is_pruned = False
@@ -120,7 +120,7 @@ class Proof(HashingSerializer):
         if self.__orig_instance is None:
             # Don't have the original instance. Is this an attribute we should
             # have?
-            if name in self.SERIALIZED_ATTRS_BY_NAME:
+            if any(name == attr_name for attr_name, ser_cls in self.SERIALIZED_ATTRS):
                 # FIXME: raise pruning error
                 raise PrunedError(name, self)
             else:
-- 
2.43.0


From f05b4349339a7bbb034ae23af5838829bac2bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 18/30] fix: bit strings of whole bytes and empty bit strings
 could not be deserialized

---
 lib/python-proofmarshal/proofmarshal/bits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 7ce90da..54ec383 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -312,7 +312,7 @@ class BitsSerializer(proofmarshal.serialize.Serializer):
         length = ctx.read_varuint()
         buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
         r = Bits.from_bytes(buf, length)
-        # FIXME: should throw a serialization exception
-        assert r._Bits__tail_bits() == buf[-1]
+        if length % 8 and r._Bits__tail_bits() != buf[-1]:
+            raise proofmarshal.serialize.DeserializationError('Non-zero padding bits')
         return r
 
-- 
2.43.0


From 89da389d0d925825b0199a709b8523564c9f7de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 19/30] fix: read_bytes() without a length failed

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f81a34d..e852bcd 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -214,7 +214,7 @@ class StreamDeserializationContext(DeserializationContext):
 
     def read_bytes(self, expected_length=None):
         if expected_length is None:
-            expected_length = self.read_varuint(None)
+            expected_length = self.read_varuint()
         return self.fd_read(expected_length)
 
     def read_obj(self, serialization_class):
-- 
2.43.0


From 9953f7672577faabb10dc9dc4178ee461d787d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 20/30] fix: EvalScriptError did not save the execution state

---
 .../bitcoin/core/scripteval.py                | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index ce517ba..f593964 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -57,18 +57,18 @@ class EvalScriptError(bitcoin.core.ValidationError):
                  altstack=None, vfExec=None, pbegincodehash=None, nOpCount=None):
         super(EvalScriptError, self).__init__('EvalScript: %s' % msg)
 
-        sop = sop
-        sop_data = sop_data
-        sop_pc = sop_pc
-        stack = stack
-        scriptIn = scriptIn
-        txTo = txTo
-        inIdx = inIdx
-        flags = flags
-        altstack = altstack
-        vfExec = vfExec
-        pbegincodehash = pbegincodehash
-        nOpCount = nOpCount
+        self.sop = sop
+        self.sop_data = sop_data
+        self.sop_pc = sop_pc
+        self.stack = stack
+        self.scriptIn = scriptIn
+        self.txTo = txTo
+        self.inIdx = inIdx
+        self.flags = flags
+        self.altstack = altstack
+        self.vfExec = vfExec
+        self.pbegincodehash = pbegincodehash
+        self.nOpCount = nOpCount
 
 class MaxOpCountError(EvalScriptError):
     def __init__(self, **kwargs):
-- 
2.43.0


From 3e9eaf20a2c5a77c98f4ac49b7b53207c20864b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 21/30] fix: the P2SH flag of bitcoin.core.script was not the
 one VerifyScript() looks for

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index f593964..4215191 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -39,11 +39,6 @@ from bitcoin.core.script import *
 MAX_NUM_SIZE = 4
 MAX_STACK_ITEMS = 1000
 
-SCRIPT_VERIFY_P2SH = object()
-SCRIPT_VERIFY_STRICTENC = object()
-SCRIPT_VERIFY_EVEN_S = object()
-SCRIPT_VERIFY_NOCACHE = object()
-
 class EvalScriptError(bitcoin.core.ValidationError):
     """Base class for exceptions raised when a script fails during EvalScript()
 
-- 
2.43.0


From c4c72ccb06d0e1b130962a3172a689bbd5e3d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 22/30] fix: false results of script opcodes must be pushed as
 empty strings

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 4215191..7a7c375 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -194,7 +194,7 @@ def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
         if success:
             stack.append(b"\x01")
         else:
-            stack.append(b"\x00")
+            stack.append(b"")
 
 
 # OP_2MUL and OP_2DIV are *not* included in this list as they are disabled
@@ -478,7 +478,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                         if sop != OP_CHECKSIGVERIFY:
                             stack.append(b"\x01")
                     else:
-                        stack.append(b"\x00")
+                        stack.append(b"")
 
             elif sop == OP_CODESEPARATOR:
                 pbegincodehash = sop_pc
@@ -514,7 +514,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v1 == v2:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             elif sop == OP_EQUALVERIFY:
                 check_args(2)
@@ -651,7 +651,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             else:
                 err_raiser(EvalScriptError, 'unsupported opcode 0x%x' % sop)
-- 
2.43.0


From 2a24b5a93dbb617ecca902ff4f67e50bec2e20a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 23/30] fix: an immutable txin kept the mutable outpoint it was
 made from

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index f2245b3..6a08c5d 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -186,7 +186,7 @@ class CTxIn(ImmutableSerializable):
             raise ValueError('CTxIn: nSequence must be an integer between 0x0 and 0xffffffff; got %x' % nSequence)
         object.__setattr__(self, 'nSequence', nSequence)
 
-        object.__setattr__(self, 'prevout', prevout)
+        object.__setattr__(self, 'prevout', COutPoint.from_outpoint(prevout))
         object.__setattr__(self, 'scriptSig', scriptSig)
 
     @classmethod
-- 
2.43.0


From 9892df068f7f3a839a45a0b133a3e78b582089b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 24/30] fix: https proxies failed on Python 3.12

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 801cb3b..9c89777 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -121,7 +121,6 @@ class RawProxy(object):
             self.__conn = _connection
         elif self.__url.scheme == 'https':
             self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port,
-                                                  key_file=None, cert_file=None,
                                                   timeout=timeout)
         else:
             self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port,
-- 
2.43.0


From 688a3fe024e7f63a0e8ba8e2e823a2038d6ced74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 25/30] fix: MerbinnerTree.put() failed on existing keys

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index ce6635d..f62c03d 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -152,8 +152,13 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
             return new_leaf
 
         else:
-            # The two leaves are joined by an inner node
-            new_tip = self.InnerNodeClass(new_leaf, closest_node)
+            if closest_node.prefix == new_leaf.prefix:
+                # Replaces the existing value of the key
+                new_tip = new_leaf
+
+            else:
+                # The two leaves are joined by an inner node
+                new_tip = self.InnerNodeClass(new_leaf, closest_node)
 
             # And we rebuild the inner nodes along the path from the siblings
             for sibling in siblings:
-- 
2.43.0


From 21801545ef4ef97b37bf4ea1d878084e95cc8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 26/30] fix: honour the sign bit of compact targets

The top bit of the compact mantissa is the sign. Treating it as magnitude
accepted negative targets as valid proofs of work.
---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index 841ab57..f368927 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -313,8 +313,13 @@ def uint256_from_compact(c):
     """
     nbytes = (c >> 24) & 0xFF
     if nbytes < 3:
-        return (c & 0xFFFFFF) >> (8 * (3 - nbytes))
-    return (c & 0xFFFFFF) << (8 * (nbytes - 3))
+        v = (c & 0x7FFFFF) >> (8 * (3 - nbytes))
+    else:
+        v = (c & 0x7FFFFF) << (8 * (nbytes - 3))
+    # The top bit of the mantissa is the sign
+    if c & 0x800000:
+        v = -v
+    return v
 
 
 def uint256_to_shortstr(u):
-- 
2.43.0


From fcfeabf8d82fd13de48d229260cb030e4cf9a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 27/30] fix: raise when OpenSSL cannot make a key

ctypes returns None, not 0, for a NULL result of type c_void_p, so the error
check on EC_KEY_new_by_curve_name never fired and CECKey went on with a NULL
key.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 6083fa6..1f5c1f3 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -28,7 +28,7 @@ _NID_secp256k1 = 714 # from openssl/obj_mac.h
 
 # Thx to Sam Devlin for the ctypes magic 64-bit fix.
 def _check_result (val, func, args):
-    if val == 0:
+    if not val: # ctypes turns a NULL c_void_p into None
         raise ValueError
     else:
         return ctypes.c_void_p(val)
-- 
2.43.0


From bc57b225f6e39c14fcf33d8c2c357a20ab7dfdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 28/30] fix: require a version byte before the base58 checksum

Four bytes whose own first byte is the checksum of that byte (0x7415e100)
were accepted, the version being read out of the checksum.
---
 lib/python-bitcoinlib/bitcoin/base58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/base58.py b/lib/python-bitcoinlib/bitcoin/base58.py
index 4253240..8bf8a74 100644
--- a/lib/python-bitcoinlib/bitcoin/base58.py
+++ b/lib/python-bitcoinlib/bitcoin/base58.py
@@ -105,7 +105,7 @@ class CBase58Data(bytes):
         k = decode(s)
         verbyte, data, check0 = k[0:1], k[1:-4], k[-4:]
         check1 = bitcoin.core.Hash(verbyte + data)[:4]
-        if check0 != check1:
+        if len(k) < 5 or check0 != check1:
             raise Base58ChecksumError('Checksum mismatch: expected %r, calculated %r' % (check0, check1))
 
         return cls.from_bytes(data, _bord(verbyte[0]))
-- 
2.43.0


From 5b7bb142c9ced1887966dd96883546da3668271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 29/30] fix: ordering of bit strings of different lengths was
 not an ordering

---
 lib/python-proofmarshal/proofmarshal/bits.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 54ec383..3302345 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -129,17 +129,7 @@ class Bits:
         if self.__class__ is not rhs.__class__:
             return NotImplemented
 
-        self_fwp = self.__full_width_prefix()
-        rhs_fwp = rhs.__full_width_prefix()
-        if self_fwp < rhs_fwp:
-            return True
-
-        elif self_fwp == rhs_fwp:
-            return self.__tail_bits() < rhs.__tail_bits()
-
-        else:
-            return False
-
+        return tuple(self) < tuple(rhs)
 
     def __getitem__(self, idx):
         if isinstance(idx, int):
-- 
2.43.0


From 3008c20501097138ed98054fa1b0f7271d7867cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 30/30] fix: a slice of a Merkle mountain range that ends
 before it starts is empty

---
 lib/python-proofmarshal/proofmarshal/mmr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/mmr.py b/lib/python-proofmarshal/proofmarshal/mmr.py
index 4d80439..be3b24d 100644
--- a/lib/python-proofmarshal/proofmarshal/mmr.py
+++ b/lib/python-proofmarshal/proofmarshal/mmr.py
@@ -419,6 +419,10 @@ def make_mmr_subclass(subclass):
                 if step != 1:
                     raise NotImplementedError
 
+                if stop <= start:
+                    # Nothing is in the slice
+                    return self.EmptyNodeClass()
+
                 if start <= 0 and stop >= len(self):
                     # We satisfy the slice without modification, so return
                     # ourselves
-- 
2.43.0

