From 2005072a3dc57a9597984beff53e7821afaee0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 01/48] fix: VarInt writes the prefix of the width it was asked
 for

---
 riemann/tx/shared.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index f478326..b887d13 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -172,17 +172,15 @@ class VarInt(ByteData):
             raise ValueError('VarInt cannot be greater than (2 ** 64) - 1. '
                              'Got: {}'
                              .format(number))
-        if number <= 0xfc:
-            pass  # No prefix
-        elif number <= 0xffff or length == 3:
-            self += bytes([0xfd])
-            length = 3
-        elif number <= 0xffffffff or length == 5:
-            self += bytes([0xfe])
-            length = 5
-        elif number <= 0xffffffffffffffff or length == 9:
+        if number > 0xffffffff or length == 9:
             self += bytes([0xff])
             length = 9
+        elif number > 0xffff or length == 5:
+            self += bytes([0xfe])
+            length = 5
+        elif number > 0xfc or length == 3:
+            self += bytes([0xfd])
+            length = 3
         self += utils.i2le(number)
 
         if length is not None:
@@ -194,7 +192,7 @@ class VarInt(ByteData):
         self._make_immutable()
 
     def copy(self) -> 'VarInt':
-        return VarInt(self.number)
+        return VarInt(self.number, length=len(self))
 
     @classmethod
     def from_bytes(VarInt, byte_string: bytes) -> 'VarInt':
-- 
2.43.0


From 1211244fc79d842ef473c4c2f111695aac75c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 02/48] fix: VarInt.from_bytes refuses truncated and
 non-canonical encodings, accepts 253-255 on Zcash

---
 riemann/tx/decred.py | 15 +++++++--------
 riemann/tx/shared.py | 29 ++++++++++++++---------------
 riemann/tx/tx.py     | 13 ++++++-------
 3 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 5084d15..d14bcd3 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -125,17 +125,16 @@ class DecredTxOut(DecredByteData):
 
     @classmethod
     def from_bytes(DecredTxOut, byte_string: bytes) -> 'DecredTxOut':
+        if byte_string[10:11] >= b'\xfc':
+            raise NotImplementedError(
+                'No support for abnormally long pk_scripts.')
         n = shared.VarInt.from_bytes(byte_string[10:])
         script_start = 10 + len(n)
         script_end = script_start + n.number
-        if n.number < 0xfc:
-            return DecredTxOut(
-                value=byte_string[:8],
-                version=byte_string[8:10],
-                output_script=byte_string[script_start:script_end])
-        else:
-            raise NotImplementedError(
-                'No support for abnormally long pk_scripts.')
+        return DecredTxOut(
+            value=byte_string[:8],
+            version=byte_string[8:10],
+            output_script=byte_string[script_start:script_end])
 
 
 class DecredInputWitness(DecredByteData):
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index b887d13..19d2c60 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -1,4 +1,3 @@
-import riemann
 from riemann import utils
 
 from typing import Any, Optional, Union
@@ -203,28 +202,28 @@ class VarInt(ByteData):
         num = byte_string
         if num[0] <= 0xfc:
             num = num[0:1]
-            non_compact = False
+            expected_length = 1
+            minimum = 0
         elif num[0] == 0xfd:
             num = num[1:3]
-            non_compact = (num[-1:] == b'\x00')
+            expected_length = 2
+            minimum = 0xfd
         elif num[0] == 0xfe:
             num = num[1:5]
-            non_compact = (num[-2:] == b'\x00\x00')
-        elif num[0] == 0xff:
+            expected_length = 4
+            minimum = 0x10000
+        else:
             num = num[1:9]
-            non_compact = (num[-4:] == b'\x00\x00\x00\x00')
-        if len(num) not in [1, 2, 4, 8]:
+            expected_length = 8
+            minimum = 0x100000000
+
+        if len(num) != expected_length:
             raise ValueError('Malformed VarInt. Got: {}'
                              .format(byte_string.hex()))
 
-        if (non_compact
-            and ('overwinter' in riemann.get_current_network_name()
-                 or 'sapling' in riemann.get_current_network_name())):
+        number = utils.le2i(num)
+        if number < minimum:
             raise ValueError('VarInt must be compact. Got: {}'
                              .format(byte_string.hex()))
 
-        ret = VarInt(
-            utils.le2i(num),
-            length=len(num) + 1 if non_compact else 0)
-
-        return ret
+        return VarInt(number)
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index a58b8a6..c6ed4cd 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -273,16 +273,15 @@ class TxOut(ByteData):
         '''
         Parse a TxOut from a bytestring. Also available as from_hex
         '''
+        if byte_string[8:9] >= b'\xfc':
+            raise NotImplementedError(
+                'No support for abnormally long pk_scripts.')
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
-        if n.number < 0xfc:
-            return TxOut(
-                value=byte_string[:8],
-                output_script=byte_string[script_start:script_end])
-        else:
-            raise NotImplementedError(
-                'No support for abnormally long pk_scripts.')
+        return TxOut(
+            value=byte_string[:8],
+            output_script=byte_string[script_start:script_end])
 
 
 class WitnessStackItem(ByteData):
-- 
2.43.0


From 7f2456e70d018d88d49d1999b4f140455146c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 03/48] fix: parsing a TxIn never alters its script_sig

---
 riemann/tx/tx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index c6ed4cd..6f89b17 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -183,6 +183,10 @@ class TxIn(ByteData):
             redeem_script = serialization.serialize(items[-1])
         except (IndexError, ValueError, NotImplementedError):
             pass
+        # Scripts that don't survive reserialization (e.g. non-minimal pushes)
+        # must be left exactly as they were found
+        if stack_script + redeem_script != script_sig:
+            return script_sig, b''
         return stack_script, redeem_script
 
     @classmethod
-- 
2.43.0


From 886a35cd0b74f7258a3d435a563b98e0476b0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 04/48] fix: refuse outputs and witness items that are shorter
 than they declare

---
 riemann/tx/decred.py | 3 +++
 riemann/tx/tx.py     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index d14bcd3..e0b71bf 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -131,6 +131,9 @@ class DecredTxOut(DecredByteData):
         n = shared.VarInt.from_bytes(byte_string[10:])
         script_start = 10 + len(n)
         script_end = script_start + n.number
+        if script_end > len(byte_string):
+            raise ValueError('DecredTxOut is truncated. Got: {}'
+                             .format(byte_string.hex()))
         return DecredTxOut(
             value=byte_string[:8],
             version=byte_string[8:10],
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 6f89b17..cbb9c3f 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -283,6 +283,9 @@ class TxOut(ByteData):
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
+        if script_end > len(byte_string):
+            raise ValueError('TxOut is truncated. Got: {}'
+                             .format(byte_string.hex()))
         return TxOut(
             value=byte_string[:8],
             output_script=byte_string[script_start:script_end])
@@ -320,6 +323,9 @@ class WitnessStackItem(ByteData):
         n = VarInt.from_bytes(byte_string)
         item_start = len(n)
         item_end = item_start + n.number
+        if item_end > len(byte_string):
+            raise ValueError('WitnessStackItem is truncated. Got: {}'
+                             .format(byte_string.hex()))
         return WitnessStackItem(byte_string[item_start:item_end])
 
 
-- 
2.43.0


From 39d533af3d029bd621e0538d22397093b9e75831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 05/48] fix: a Tx without the witness flag is signed as a
 legacy Tx

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index cbb9c3f..23d8670 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -634,7 +634,7 @@ class Tx(ByteData):
 
     def is_witness(self) -> bool:
         '''Return True if the transaction witness flag is set'''
-        return self.flag is not None or self.tx_witnesses is not None
+        return self.flag is not None
 
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
-- 
2.43.0


From 8af302beb86575dea3ba07452f168a1ce71d6614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 06/48] fix: set wtx_id_le on legacy transactions

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 23d8670..9397275 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -549,7 +549,7 @@ class Tx(ByteData):
             self.tx_id_le = utils.hash256(self.to_bytes())
             self.tx_id = utils.change_endianness(self.tx_id_le)
             self.wtx_id = None
-            self.wtx_le = None
+            self.wtx_id_le = None
 
         self._make_immutable()
 
-- 
2.43.0


From 4fbed216a46ee0b458485c1cd0b95ff64aad7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 07/48] fix: legacy SIGHASH_SINGLE commits to exactly index + 1
 outputs

---
 riemann/tx/sprout.py | 2 +-
 riemann/tx/tx.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 117ac25..29601b6 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -310,7 +310,7 @@ class SproutTx(z.ZcashByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = copy_tx.tx_outs[:index + 1]
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 9397275..2ce3d43 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -933,7 +933,7 @@ class Tx(ByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = list(copy_tx.tx_outs[:index + 1])
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
-- 
2.43.0


From 75a4e56e89984861df73dc991a50630e9117a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 08/48] fix: Decred SIGHASH_SINGLE and ANYONECANPAY commit to
 what dcrd commits to

---
 riemann/tx/decred.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index e0b71bf..bad14fc 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -366,18 +366,15 @@ class DecredTx(DecredByteData):
             index=index,
             script=script)
 
-        try:
-            copy_tx_outs = copy_tx.tx_outs[:index + 1]
-            copy_tx_outs = [DecredTxOut(
-                            value=b'\xff' * 8,
-                            version=b'\x00\x00',
-                            output_script=b'')
-                            for _ in copy_tx.tx_ins]
-            copy_tx_outs[index] = copy_tx.tx_outs[index]
-        except IndexError:
+        if index >= len(self.tx_outs):
             raise NotImplementedError(
                 'I refuse to implement the SIGHASH_SINGLE bug.')
 
+        # Remove outputs after the one we're signing, and null those before it
+        copy_tx_outs = [tx_out.copy(value=b'\xff' * 8, output_script=b'')
+                        for tx_out in copy_tx.tx_outs[:index + 1]]
+        copy_tx_outs[index] = copy_tx.tx_outs[index]
+
         copy_tx_ins = [tx_in.copy(sequence=b'\x00\x00\x00\x00')
                        for tx_in in copy_tx.tx_ins]
         copy_tx_ins[index] = copy_tx.tx_ins[index]
@@ -419,11 +416,10 @@ class DecredTx(DecredByteData):
                                 index: int,
                                 copy_tx: 'DecredTx',
                                 sighash_type: int) -> bytes:
-        copy_tx_witnesses = [
-            w.copy(stack_script=b'', redeem_script=b'')
-            for w in copy_tx.tx_witnesses]
-        copy_tx_witnesses[index] = copy_tx.tx_witnesses[index]
-        copy_tx = copy_tx.copy(tx_witnesses=copy_tx_witnesses)
+        # Only the input being signed, and its witness, are committed to
+        copy_tx = copy_tx.copy(
+            tx_ins=[copy_tx.tx_ins[index]],
+            tx_witnesses=[copy_tx.tx_witnesses[index]])
 
         return self._sighash_final_hashing(
             index=index,
-- 
2.43.0


From 343010f5f90faea21fb00cbd78d6ed8332324bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 09/48] fix: DecredTx does not alias the lists it was built
 from

---
 riemann/tx/decred.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index bad14fc..17db13f 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -253,11 +253,11 @@ class DecredTx(DecredByteData):
             self += tx_witness
 
         self.version = version
-        self.tx_ins = tx_ins
-        self.tx_outs = tx_outs
+        self.tx_ins = tuple(tx_in for tx_in in tx_ins)
+        self.tx_outs = tuple(tx_out for tx_out in tx_outs)
         self.lock_time = lock_time
         self.expiry = expiry
-        self.tx_witnesses = tx_witnesses
+        self.tx_witnesses = tuple(wit for wit in tx_witnesses)
 
         if len(self) > 100000:
             raise ValueError(
-- 
2.43.0


From af56cc50ebc944a9f0d8ef77ecc61874a4d95530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 10/48] fix: builders can make Decred outputs and transactions

---
 riemann/tx/tx_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 77b34b6..b4bd59d 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -3,7 +3,7 @@ from riemann import utils
 from riemann.script import serialization
 from riemann.tx import tx, decred, overwinter, sapling, sprout, zcash_shared
 
-from typing import cast, List, Optional, overload
+from typing import List, Optional, overload
 
 
 def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
@@ -168,7 +168,7 @@ def _make_output(  # noqa: F811
     if 'decred' in riemann.get_current_network_name():
         return decred.DecredTxOut(
             value=value,
-            version=cast(int, version),
+            version=version if version is not None else b'\x00\x00',
             output_script=output_script)
     return tx.TxOut(value=value, output_script=output_script)
 
@@ -577,7 +577,7 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry=utils.i2le_padded(expiry, 4),
-            tx_witnesses=[tx_witnesses])
+            tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
             version=version,
-- 
2.43.0


From f82babc0daa6d06c7371302b6c4655a57648b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 11/48] fix: Sprout transactions without joinsplits can be
 built and parsed

---
 riemann/tx/sprout.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 29601b6..5ca62a0 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -40,6 +40,9 @@ class SproutTx(z.ZcashByteData):
         self.validate_bytes(version, 4)
         self.validate_bytes(lock_time, 4)
 
+        if tx_joinsplits is None:
+            tx_joinsplits = []
+
         for tx_in in tx_ins:
             if not isinstance(tx_in, TxIn):
                 raise ValueError(
@@ -55,7 +58,7 @@ class SproutTx(z.ZcashByteData):
                     .format(type(tx_out).__name__))
 
         if utils.le2i(version) == 1:
-            if tx_joinsplits is not None and len(tx_joinsplits) != 0:
+            if len(tx_joinsplits) != 0:
                 raise ValueError('Joinsplits not allowed in version 1 txns.')
             if tx_ins is None or len(tx_ins) == 0:
                 raise ValueError('Version 1 txns must have at least 1 input.')
@@ -180,11 +183,10 @@ class SproutTx(z.ZcashByteData):
         lock_time = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits = None
+        tx_joinsplits = []
         joinsplit_pubkey = None
         joinsplit_sig = None
         if utils.le2i(version) == 2:  # If we expect joinsplits
-            tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
             current += len(tx_joinsplits_num)
 
-- 
2.43.0


From 269bda71e10a0e402e58a7c516f83561eb91e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 12/48] fix: Sprout SINGLE and ANYONECANPAY are refused only
 when there are joinsplits

---
 riemann/tx/sprout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 5ca62a0..0edb083 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -299,7 +299,7 @@ class SproutTx(z.ZcashByteData):
         https://github.com/petertodd/python-bitcoinlib/blob/051ec4e28c1f6404fd46713c2810d4ebbed38de4/bitcoin/core/script.py#L913-L965
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError('Sighash single not permitted with joinsplits.')
 
         if index >= len(self.tx_outs):
@@ -343,7 +343,7 @@ class SproutTx(z.ZcashByteData):
         https://en.bitcoin.it/wiki/OP_CHECKSIG#Procedure_for_Hashtype_SIGHASH_ANYONECANPAY
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError(
                 'Sighash anyonecanpay not permitted with joinsplits.')
 
-- 
2.43.0


From 0c0dc2c38aa3f3896a10d9b868c83e6eb0005370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 13/48] fix: Sprout transactions carry a joinsplit key and
 signature only when they have joinsplits

---
 riemann/tx/sprout.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 0edb083..e0eb109 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -72,9 +72,10 @@ class SproutTx(z.ZcashByteData):
                         'Invalid Joinsplit. '
                         'Expected instance of SproutJoinsplit. Got {}'
                         .format(type(tx_joinsplit).__name__))
-            self.validate_bytes(joinsplit_pubkey, 32)
-            if joinsplit_sig is not None and joinsplit_sig != b'':
-                self.validate_bytes(joinsplit_sig, 64)
+            if len(tx_joinsplits) != 0:
+                self.validate_bytes(joinsplit_pubkey, 32)
+                if joinsplit_sig is not None and joinsplit_sig != b'':
+                    self.validate_bytes(joinsplit_sig, 64)
 
         if utils.le2i(version) not in [1, 2]:
             raise ValueError('Version must be 1 or 2. '
@@ -93,8 +94,9 @@ class SproutTx(z.ZcashByteData):
             self += shared.VarInt(len(tx_joinsplits))
             for tx_joinsplit in tx_joinsplits:
                 self += tx_joinsplit
-            self += cast(bytes, joinsplit_pubkey)
-            self += cast(bytes, joinsplit_sig)
+            if len(tx_joinsplits) != 0:
+                self += cast(bytes, joinsplit_pubkey)
+                self += cast(bytes, joinsplit_sig)
 
         self.version = version
         self.tx_ins = tuple(tx_in for tx_in in tx_ins)
@@ -102,7 +104,7 @@ class SproutTx(z.ZcashByteData):
         self.tx_joinsplits = tuple(js for js in tx_joinsplits)
         self.lock_time = lock_time
 
-        if version == utils.i2le_padded(2, 4):
+        if len(tx_joinsplits) != 0:
             self.joinsplit_pubkey = joinsplit_pubkey
             self.joinsplit_sig = joinsplit_sig
             # Zcash spec 5.4.1.4 Hsig hash function
@@ -194,9 +196,10 @@ class SproutTx(z.ZcashByteData):
                 joinsplit = z.SproutJoinsplit.from_bytes(byte_string[current:])
                 current += len(joinsplit)
                 tx_joinsplits.append(joinsplit)
-            joinsplit_pubkey = byte_string[current:current + 32]
-            current += 32
-            joinsplit_sig = byte_string[current:current + 64]
+            if len(tx_joinsplits) != 0:
+                joinsplit_pubkey = byte_string[current:current + 32]
+                current += 32
+                joinsplit_sig = byte_string[current:current + 64]
 
         return SproutTx(
             version=version,
-- 
2.43.0


From acad703360e27439468196147ae8ff51a7600122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 14/48] fix: Sprout sighashes blank the joinsplit signature
 instead of dropping it

---
 riemann/tx/sprout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index e0eb109..b59b7c9 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -258,7 +258,7 @@ class SproutTx(z.ZcashByteData):
         '''
 
         if len(self.tx_ins) == 0:
-            return self.copy(joinsplit_sig=b'')
+            return self.copy(joinsplit_sig=b'\x00' * 64)
         # 0 out scripts in tx_ins
         copy_tx_ins = [tx_in.copy(stack_script=b'', redeem_script=b'')
                        for tx_in in self.tx_ins]
@@ -269,7 +269,7 @@ class SproutTx(z.ZcashByteData):
         copy_tx_ins[index] = \
             copy_tx_ins[index].copy(redeem_script=script[len(to_strip):])
 
-        return self.copy(tx_ins=copy_tx_ins, joinsplit_sig=b'')
+        return self.copy(tx_ins=copy_tx_ins, joinsplit_sig=b'\x00' * 64)
 
     def sighash_all(self,
                     index: int,
-- 
2.43.0


From 518744ea8c3a7f260ddee0b77664d77f4d3a0be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 15/48] fix: make_tx can make a Sprout transaction

---
 riemann/tx/tx_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index b4bd59d..6012778 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -580,7 +580,7 @@ def make_tx(  # noqa: F811
             tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
-            version=version,
+            version=utils.i2le_padded(version, 4),
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
-- 
2.43.0


From 027dc3ab216408de3eb4e0e77587ce5590365422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 16/48] fix: joinsplits are parsed from where they start,
 whatever the number of outputs

---
 riemann/tx/overwinter.py | 2 +-
 riemann/tx/sapling.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 3e39d94..9c01225 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -244,7 +244,7 @@ class OverwinterTx(z.ZcashByteData):
         else:
             tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-            current += len(tx_outs_num)
+            current += len(tx_joinsplits_num)
             for _ in range(tx_joinsplits_num.number):
                 tx_joinsplit = z.SproutJoinsplit.from_bytes(
                     byte_string[current:])
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index c606300..dfcf1bb 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -561,7 +561,7 @@ class SaplingTx(z.ZcashByteData):
 
         tx_joinsplits = []
         tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-        current += len(tx_outs_num)
+        current += len(tx_joinsplits_num)
         for _ in range(tx_joinsplits_num.number):
             tx_joinsplit = SaplingJoinsplit.from_bytes(
                 byte_string[current:])
-- 
2.43.0


From 89c4e6ea14f85650f7db21f0dd636841cc40ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 17/48] fix: Overwinter and Sapling sighash_all and
 sighash_single honour anyone_can_pay

---
 riemann/tx/overwinter.py | 8 ++++++--
 riemann/tx/sapling.py    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 9c01225..dbbceab 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -268,10 +268,14 @@ class OverwinterTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_ALL,
+                            anyone_can_pay=anyone_can_pay is True,
+                            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_SINGLE,
+                            anyone_can_pay=anyone_can_pay is True,
+                            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index dfcf1bb..6af0da7 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -603,10 +603,14 @@ class SaplingTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_ALL,
+                            anyone_can_pay=anyone_can_pay,
+                            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_SINGLE,
+                            anyone_can_pay=anyone_can_pay,
+                            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
-- 
2.43.0


From bdfb6ffdc8ad1dc139210871ebf5f09472333714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 18/48] fix: refuse the SIGHASH_SINGLE bug one past the last
 output too

---
 riemann/tx/overwinter.py | 2 +-
 riemann/tx/sapling.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index dbbceab..7a45031 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -356,7 +356,7 @@ class OverwinterTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index > len(self.tx_outs):
+            if index >= len(self.tx_outs):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 6af0da7..3b61871 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -694,7 +694,7 @@ class SaplingTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index > len(self.tx_outs):
+            if index >= len(self.tx_outs):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
-- 
2.43.0


From 485b593cd7398153ffd9663d421f060532b8284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 19/48] fix: Overwinter and Sapling SIGHASH_NONE does not
 commit to sequences

---
 riemann/tx/overwinter.py | 3 ++-
 riemann/tx/sapling.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 7a45031..160e3d9 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -333,7 +333,8 @@ class OverwinterTx(z.ZcashByteData):
             person=b'ZcashPrevoutHash')
 
     def _hash_sequence(self, sighash_type: int, anyone_can_pay: bool) -> bytes:
-        if anyone_can_pay or sighash_type == shared.SIGHASH_SINGLE:
+        if anyone_can_pay or sighash_type in [shared.SIGHASH_SINGLE,
+                                              shared.SIGHASH_NONE]:
             return b'\x00' * 32
 
         data = z.ZcashByteData()
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 3b61871..4502a46 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -671,7 +671,8 @@ class SaplingTx(z.ZcashByteData):
             person=b'ZcashPrevoutHash')
 
     def _hash_sequence(self, sighash_type: int, anyone_can_pay: bool) -> bytes:
-        if anyone_can_pay or sighash_type == shared.SIGHASH_SINGLE:
+        if anyone_can_pay or sighash_type in [shared.SIGHASH_SINGLE,
+                                              shared.SIGHASH_NONE]:
             return b'\x00' * 32
 
         data = z.ZcashByteData()
-- 
2.43.0


From ac47146aab2c7d322b5df590df87438316185f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 20/48] fix: OverwinterTx.from_bytes refuses transactions
 without the joinsplit count

The count is always serialized, so input that ends before it is truncated.
The joinsplit key and signature are only present when there are joinsplits.
---
 riemann/tx/overwinter.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 160e3d9..7b643cf 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -235,22 +235,18 @@ class OverwinterTx(z.ZcashByteData):
         expiry_height = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits: Sequence[z.SproutJoinsplit]
-        if current == len(byte_string):
-            # No joinsplits
-            tx_joinsplits = tuple()
-            joinsplit_pubkey = None
-            joinsplit_sig = None
-        else:
-            tx_joinsplits = []
-            tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-            current += len(tx_joinsplits_num)
-            for _ in range(tx_joinsplits_num.number):
-                tx_joinsplit = z.SproutJoinsplit.from_bytes(
-                    byte_string[current:])
-                current += len(tx_joinsplit)
-                tx_joinsplits.append(tx_joinsplit)
-
+        tx_joinsplits = []
+        tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
+        current += len(tx_joinsplits_num)
+        for _ in range(tx_joinsplits_num.number):
+            tx_joinsplit = z.SproutJoinsplit.from_bytes(
+                byte_string[current:])
+            current += len(tx_joinsplit)
+            tx_joinsplits.append(tx_joinsplit)
+
+        joinsplit_pubkey: Optional[bytes] = None
+        joinsplit_sig: Optional[bytes] = None
+        if len(tx_joinsplits) != 0:
             joinsplit_pubkey = byte_string[current:current + 32]
             current += 32
             joinsplit_sig = byte_string[current:current + 64]
-- 
2.43.0


From f59bf55fa5286f925c80493a84e7000a300b17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 21/48] fix: SproutTx.from_bytes refuses a truncated joinsplit
 signature

---
 riemann/tx/sprout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index b59b7c9..54649eb 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -200,6 +200,11 @@ class SproutTx(z.ZcashByteData):
                 joinsplit_pubkey = byte_string[current:current + 32]
                 current += 32
                 joinsplit_sig = byte_string[current:current + 64]
+                if len(joinsplit_sig) != 64:
+                    raise ValueError(
+                        'Malformed joinsplit signature. '
+                        'Expected 64 bytes. Got {}'
+                        .format(len(joinsplit_sig)))
 
         return SproutTx(
             version=version,
-- 
2.43.0


From 55a83b77929df21e626f74cab38ebe69d9df89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 22/48] fix: make_tx can make a transparent Sapling transaction
 and a negative value balance

---
 riemann/tx/tx_builder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 6012778..8042d1c 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -602,10 +602,12 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry_height=utils.i2le_padded(expiry, 4),
-            value_balance=utils.i2le_padded(value_balance, 8),
-            tx_shielded_spends=tx_shielded_spends,
-            tx_shielded_outputs=tx_shielded_outputs,
-            tx_joinsplits=tx_joinsplits,
+            value_balance=value_balance.to_bytes(8, 'little', signed=True),
+            tx_shielded_spends=(tx_shielded_spends
+                                if tx_shielded_spends is not None else []),
+            tx_shielded_outputs=(tx_shielded_outputs
+                                 if tx_shielded_outputs is not None else []),
+            tx_joinsplits=tx_joinsplits if tx_joinsplits is not None else [],
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig,
             binding_sig=binding_sig)
-- 
2.43.0


From 1ab2ee218e93518ba18611ea2a7158a61ad12b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 23/48] fix: transaction parts do not alias a caller's
 bytearray

---
 riemann/tx/shared.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 19d2c60..d142e1c 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -77,6 +77,8 @@ class ByteData():
     def __setattr__(self, key: str, value):
         if self.__immutable:
             raise TypeError("%r cannot be written to." % self)
+        if isinstance(value, bytearray) and key != '_bytes':
+            value = bytes(value)  # do not keep the caller's mutable buffer
         object.__setattr__(self, key, value)
 
     def __format__(self, code):
-- 
2.43.0


From e08d100f78442b70b776a15e466b3859ab041839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 24/48] fix: deserialize refuses truncated OP_PUSHDATA1 and
 OP_PUSHDATA2

---
 riemann/script/serialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riemann/script/serialization.py b/riemann/script/serialization.py
index 666aaf4..44b2599 100644
--- a/riemann/script/serialization.py
+++ b/riemann/script/serialization.py
@@ -108,6 +108,10 @@ def deserialize(serialized_script: bytes) -> str:
                 serialized_script[i + 2: i + 2 + blob_len].hex())
 
             i += 2 + blob_len
+            if i > len(serialized_script):
+                raise IndexError(
+                    'Push {} caused out of bounds exception.'
+                    .format(blob_len))
 
         elif current_byte == 77:
             # next hex blob length
@@ -117,6 +121,10 @@ def deserialize(serialized_script: bytes) -> str:
                 serialized_script[i + 3: i + 3 + blob_len].hex())
 
             i += 3 + blob_len
+            if i > len(serialized_script):
+                raise IndexError(
+                    'Push {} caused out of bounds exception.'
+                    .format(blob_len))
 
         elif current_byte == 78:
             raise NotImplementedError('OP_PUSHDATA4 is a bad idea.')
-- 
2.43.0


From 07d07abfd0d8c67f7d0a5626a9592f79b399ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 25/48] fix: make_sh_script_pubkey refuses witness scripts
 where there is no segwit

---
 riemann/tx/tx_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 8042d1c..6215a2b 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -17,6 +17,11 @@ def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
     Returns:
         The script pubkey containing the hash of the serialized script.
     '''
+    if witness and not riemann.network.SEGWIT:
+        raise ValueError(
+            'Network {} does not support witness scripts.'
+            .format(riemann.get_current_network_name()))
+
     output_script = bytearray()
     if witness:
         script_hash = utils.sha256(script_bytes)
-- 
2.43.0


From 2cc4e8d4d3293487861d8affb0ef710d656aac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 26/48] fix: witness programs are never encoded as cashaddrs

---
 riemann/encoding/addresses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 94783fb..5258da5 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -20,7 +20,8 @@ def _hash_to_sh_address(
         The encoded address
     '''
     addr_bytes = bytearray()
-    if riemann.network.CASHADDR_P2SH is not None and cashaddr:
+    if (riemann.network.CASHADDR_P2SH is not None
+            and cashaddr and not witness):
         addr_bytes.extend(riemann.network.CASHADDR_P2SH)
         addr_bytes.extend(script_hash)
         return riemann.network.CASHADDR_ENCODER.encode(addr_bytes)
@@ -142,7 +143,8 @@ def _make_pkh_address(
         The encoded address
     '''
     addr_bytes = bytearray()
-    if riemann.network.CASHADDR_P2PKH is not None and cashaddr:
+    if (riemann.network.CASHADDR_P2PKH is not None
+            and cashaddr and not witness):
         addr_bytes.extend(riemann.network.CASHADDR_P2PKH)
         addr_bytes.extend(pubkey_hash)
         return riemann.network.CASHADDR_ENCODER.encode(addr_bytes)
-- 
2.43.0


From 0d727ff8887e606d47add3ce7c3421f231af1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 27/48] fix: from_output_script checks the whole script
 template

---
 riemann/encoding/addresses.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 5258da5..26e4b88 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -333,11 +333,15 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
     except TypeError:
         pass
 
-    if len(output_script) == 25 and output_script.find(b'\x76\xa9\x14') == 0:
+    if (len(output_script) == 25
+            and output_script.find(b'\x76\xa9\x14') == 0
+            and output_script[23:] == b'\x88\xac'):
         return _make_pkh_address(
             output_script[3:23], witness=False, cashaddr=cashaddr)
 
-    elif len(output_script) == 23 and output_script.find(b'\xa9\x14') == 0:
+    elif (len(output_script) == 23
+            and output_script.find(b'\xa9\x14') == 0
+            and output_script[22:] == b'\x87'):
         return _hash_to_sh_address(
             output_script[2:22], witness=False, cashaddr=cashaddr)
 
-- 
2.43.0


From a92d5f24e0f0d3ffaafde494ed26ce0dd54df37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 28/48] fix: an address is read by the rules of the format it
 is written in

A base58check string could be taken for a witness program or a cashaddr, a
bech32 string for a base58 payload, and parse_hash returned the witness
version of an uppercase bech32 address as part of its hash.
---
 riemann/encoding/addresses.py | 63 ++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 26e4b88..5e97fb9 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -2,6 +2,8 @@ import riemann
 from riemann import utils
 from riemann.script import serialization as script_ser
 
+from typing import Any, Tuple
+
 
 def _hash_to_sh_address(
         script_hash: bytes,
@@ -225,18 +227,29 @@ def parse(address: str) -> bytes:
     Returns:
         The raw bytestring encoded by the address
     '''
+    return _parse(address)[0]
+
+
+def _parse(address: str) -> Tuple[bytearray, Any]:
+    '''
+    Decode an address to the underlying raw bytes and the network's encoder for
+    the format it is written in
+    '''
     try:
-        return bytearray(riemann.network.LEGACY_ENCODER.decode(address))
+        return (bytearray(riemann.network.LEGACY_ENCODER.decode(address)),
+                riemann.network.LEGACY_ENCODER)
     except ValueError:
         pass
 
     try:
-        return bytearray(riemann.network.SEGWIT_ENCODER.decode(address))
+        return (bytearray(riemann.network.SEGWIT_ENCODER.decode(address)),
+                riemann.network.SEGWIT_ENCODER)
     except Exception:
         pass
 
     try:
-        return bytearray(riemann.network.CASHADDR_ENCODER.decode(address))
+        return (bytearray(riemann.network.CASHADDR_ENCODER.decode(address)),
+                riemann.network.CASHADDR_ENCODER)
     except Exception:
         pass
 
@@ -254,25 +267,28 @@ def to_output_script(address: str) -> bytes:
         The output script that corresponds to the address, suitable for
         inclusion in a TxOut
     '''
-    parsed = parse(address)
+    parsed, encoder = _parse(address)
     parsed_hash = b''
 
     try:
-        if (parsed.find(riemann.network.P2WPKH_PREFIX) == 0
+        if (encoder is riemann.network.SEGWIT_ENCODER
+                and parsed.find(riemann.network.P2WPKH_PREFIX) == 0
                 and len(parsed) == 22):
             return parsed
     except TypeError:
         pass
 
     try:
-        if (parsed.find(riemann.network.P2WSH_PREFIX) == 0
+        if (encoder is riemann.network.SEGWIT_ENCODER
+                and parsed.find(riemann.network.P2WSH_PREFIX) == 0
                 and len(parsed) == 34):
             return parsed
     except TypeError:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2SH) == 0
+        if (encoder is riemann.network.CASHADDR_ENCODER
+                and parsed.find(riemann.network.CASHADDR_P2SH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2SH) + 20):
             prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
             parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
@@ -281,7 +297,8 @@ def to_output_script(address: str) -> bytes:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2PKH) == 0
+        if (encoder is riemann.network.CASHADDR_ENCODER
+                and parsed.find(riemann.network.CASHADDR_P2PKH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2PKH) + 20):
             prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
             parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
@@ -289,13 +306,15 @@ def to_output_script(address: str) -> bytes:
     except TypeError:
         pass
 
-    if (parsed.find(riemann.network.P2PKH_PREFIX) == 0
+    if (encoder is riemann.network.LEGACY_ENCODER
+            and parsed.find(riemann.network.P2PKH_PREFIX) == 0
             and len(parsed) == len(riemann.network.P2PKH_PREFIX) + 20):
         prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
         parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
         suffix = b'\x88\xac'  # OP_EQUALVERIFY OP_CHECKSIG
 
-    if (parsed.find(riemann.network.P2SH_PREFIX) == 0
+    if (encoder is riemann.network.LEGACY_ENCODER
+            and parsed.find(riemann.network.P2SH_PREFIX) == 0
             and len(parsed) == len(riemann.network.P2SH_PREFIX) + 20):
         prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
         parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
@@ -357,32 +376,38 @@ def parse_hash(address: str) -> bytes:
     Returns:
         The 20 or 32 byte hash represented by the address
     '''
-    raw = parse(address)
+    raw, encoder = _parse(address)
 
     # Cash addresses
     try:
-        if address.find(riemann.network.CASHADDR_PREFIX) == 0:
-            if raw.find(riemann.network.CASHADDR_P2SH) == 0:
+        if encoder is riemann.network.CASHADDR_ENCODER:
+            if (raw.find(riemann.network.CASHADDR_P2SH) == 0
+                    and len(raw) == len(riemann.network.CASHADDR_P2SH) + 20):
                 return raw[len(riemann.network.CASHADDR_P2SH):]
-            if raw.find(riemann.network.CASHADDR_P2PKH) == 0:
+            if (raw.find(riemann.network.CASHADDR_P2PKH) == 0
+                    and len(raw) == len(riemann.network.CASHADDR_P2PKH) + 20):
                 return raw[len(riemann.network.CASHADDR_P2PKH):]
     except TypeError:
         pass
 
     # Segwit addresses
     try:
-        if address.find(riemann.network.BECH32_HRP) == 0:
-            if raw.find(riemann.network.P2WSH_PREFIX) == 0:
+        if encoder is riemann.network.SEGWIT_ENCODER:
+            if raw.find(riemann.network.P2WSH_PREFIX) == 0 and len(raw) == 34:
                 return raw[len(riemann.network.P2WSH_PREFIX):]
-            if raw.find(riemann.network.P2WPKH_PREFIX) == 0:
+            if raw.find(riemann.network.P2WPKH_PREFIX) == 0 and len(raw) == 22:
                 return raw[len(riemann.network.P2WPKH_PREFIX):]
     except TypeError:
         pass
 
     # Legacy Addresses
-    if raw.find(riemann.network.P2SH_PREFIX) == 0:
+    if (encoder is riemann.network.LEGACY_ENCODER
+            and raw.find(riemann.network.P2SH_PREFIX) == 0
+            and len(raw) == len(riemann.network.P2SH_PREFIX) + 20):
         return raw[len(riemann.network.P2SH_PREFIX):]
-    if raw.find(riemann.network.P2PKH_PREFIX) == 0:
+    if (encoder is riemann.network.LEGACY_ENCODER
+            and raw.find(riemann.network.P2PKH_PREFIX) == 0
+            and len(raw) == len(riemann.network.P2PKH_PREFIX) + 20):
         return raw[len(riemann.network.P2PKH_PREFIX):]
 
     raise ValueError('Could not parse hash, unknown error')
-- 
2.43.0


From 26d6151dd0a81787f5bc1fdc6405a0988706bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 29/48] fix: cashaddr.decode checks the whole prefix, the
 alphabet and the padding

---
 riemann/encoding/cashaddr.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/cashaddr.py b/riemann/encoding/cashaddr.py
index 59b75f9..e0469f9 100644
--- a/riemann/encoding/cashaddr.py
+++ b/riemann/encoding/cashaddr.py
@@ -55,12 +55,20 @@ def decode(data: str) -> bytes:
 
     # the data is everything after the colon
     prefix, data = data.split(':')
+    if prefix != riemann.network.CASHADDR_PREFIX:
+        raise ValueError('Malformed cashaddr. Cannot locate prefix: {}'
+                         .format(riemann.network.CASHADDR_PREFIX))
+    if any(c not in CHARSET for c in data):
+        raise ValueError('Malformed cashaddr. Invalid character')
     decoded = b32decode(data)
     if not verify_checksum(prefix, decoded):
         raise ValueError('Bad cash address checksum')
-    converted = convertbits(decoded, 5, 8)
+    # remove the checksum from the end
+    converted = convertbits(decoded[:-8], 5, 8, False)
+    if converted is None:
+        raise ValueError('Malformed cashaddr. Bad padding')
 
-    return bytes(converted[:-6])  # remove the checksum from the end
+    return bytes(converted)
 
 
 def polymod(values):
-- 
2.43.0


From 5c1c7bc47153e4864e2af258fae8e6a2809e25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 30/48] fix: check_is_standard_tx looks at the whole version

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index a88034d..4de9e6a 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -17,7 +17,7 @@ def check_is_standard_tx(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     # 'version'
-    if t.version[0] not in [1, 2]:
+    if rutils.le2i(t.version) not in [1, 2]:
         return False
 
     # 'tx-size'
-- 
2.43.0


From 3f96cb4aba184c9c8b0bd7bd8bed974ba61a3b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 31/48] fix: is_push_only looks at opcodes, not at characters

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 4de9e6a..cc4d274 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -53,7 +53,7 @@ def is_push_only(script_sig: bytes) -> bool:
         (bool): True if Push Only, otherwise False
     '''
     script = ser.deserialize(script_sig)
-    non_data_opcodes = [t for t in script if t[0:3] == 'OP_']
+    non_data_opcodes = [t for t in script.split() if t[0:3] == 'OP_']
     for token in non_data_opcodes:
         integer_opcode = opcodes.CODE_TO_INT[token]
         if (integer_opcode in [79, 80]
-- 
2.43.0


From 0e5476a5abb622a665d8236359f3fa312db629bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 32/48] fix: a transaction with one OP_RETURN output can be
 standard

---
 riemann/networks/standard.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index cc4d274..bbf2d89 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -76,12 +76,13 @@ def check_is_standard(t: tx.Tx) -> bool:
             return False
 
         # 'dust'
-        if (rutils.le2i(o.value) < 550
+        if (not is_op_return(o)
+                and rutils.le2i(o.value) < 550
                 and o.output_script[:2] != b'\x00\x14'):
             return False
 
     # 'multi-op-return'
-    if len([is_op_return(o) for o in t.tx_outs]) > 1:
+    if len([o for o in t.tx_outs if is_op_return(o)]) > 1:
         return False
 
     return True
@@ -95,14 +96,15 @@ def is_op_return(o: tx.TxOut) -> bool:
     Returns:
         (bool): True if standard opreturn, otherwise false
     '''
-    script: str = ser.deserialize(o.output_script)
-    split_script = script.split()
-
     # TX_NULL_DATA, up to 83 bytes (80 for safety)
-    if (rutils.le2i(o.value) == 0
-            and split_script[0] == 'OP_RETURN'
-            and len(script) < 80):
-        return True
+    try:
+        if (rutils.le2i(o.value) == 0
+                and o.output_script[:1] == b'\x6a'
+                and len(o.output_script) <= 80
+                and is_push_only(o.output_script[1:])):
+            return True
+    except Exception:
+        pass
     return False
 
 
@@ -124,6 +126,10 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     except ValueError:
         pass
 
+    # TX_NULL_DATA
+    if is_op_return(o):
+        return True
+
     script: str = ser.deserialize(o.output_script)
     split_script = script.split()
 
-- 
2.43.0


From b2571858890a6071655fa48904b5b4ec73579650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 33/48] fix: is_standard_output_type recognises P2PK and
 multisig, and never raises

---
 riemann/networks/standard.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index bbf2d89..9473d1c 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -130,17 +130,32 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     if is_op_return(o):
         return True
 
-    script: str = ser.deserialize(o.output_script)
+    try:
+        return _is_pubkey_or_multisig(ser.deserialize(o.output_script))
+    except Exception:
+        return False
+
+
+def _is_pubkey_or_multisig(script: str) -> bool:
+    '''
+    Checks whether a script is a standard TX_PUBKEY or TX_MULTISIG. May raise
+    an error when it is neither
+    Args:
+        script (str): the human-readable output script
+    Returns:
+        (bool): True if it is, False otherwise
+    '''
     split_script = script.split()
 
     # TX_PUBKEY
     if (split_script[-1] == 'OP_CHECKSIG'
             and len(split_script) == 2
-            and len(bytes.fromhex(split_script[1])) in [33, 65]):
+            and len(bytes.fromhex(split_script[0])) in [33, 65]):
         return True
 
     # TX_MULTISIG, up to x-of-3
     if (split_script[-1] == 'OP_CHECKMULTISIG'
+            and split_script[0] in ['OP_1', 'OP_2', 'OP_3']
             and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']):
 
         num_pubkeys = int(split_script[-2][-1])
-- 
2.43.0


From 2175d9e3542b5183fec3a1d41812ac47f3098f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 34/48] fix: Decred simnet address prefixes are not those of
 testnet

---
 riemann/networks/networks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riemann/networks/networks.py b/riemann/networks/networks.py
index e2049f7..d3caf22 100644
--- a/riemann/networks/networks.py
+++ b/riemann/networks/networks.py
@@ -353,8 +353,9 @@ class DecredSimnet(Network):
     SYMBOL = 'DCRS'
     NETWORK_NAME = 'decred'
     SUBNET_NAME = 'simnet'
-    P2PKH_PREFIX = b'\x28\xf7'
-    P2SH_PREFIX = b'\x0e\xfc'
+    P2PKH_PREFIX = b'\x0e\x91'
+    P2PK_PREFIX = b'\x27\x6f'
+    P2SH_PREFIX = b'\x0e\x6c'
     SEGWIT = False
     OPCODE_CHANGES = [
         ('OP_BLAKE256', 168),
-- 
2.43.0


From db4cc8d469c598c4f2dddb2a206f664261304fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 35/48] fix: the Bitcoin Cash regtest cashaddr prefix is bchreg

---
 riemann/networks/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/networks.py b/riemann/networks/networks.py
index d3caf22..3107a42 100644
--- a/riemann/networks/networks.py
+++ b/riemann/networks/networks.py
@@ -136,7 +136,7 @@ class BitcoinCashRegtest(Network):
     P2SH_PREFIX = b'\xc4'
     SEGWIT = False
     FORKID = 0
-    CASHADDR_PREFIX = 'bchtest'
+    CASHADDR_PREFIX = 'bchreg'
     CASHADDR_P2SH = b'\x08'
     CASHADDR_P2PKH = b'\x00'
 
-- 
2.43.0


From c18c8b96611386e1173ffcd0d733ff58ea2acd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 36/48] fix: HTLC templates use opcodes that can be serialized

---
 riemann/script/examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/script/examples.py b/riemann/script/examples.py
index 975811e..0e4bd2d 100644
--- a/riemann/script/examples.py
+++ b/riemann/script/examples.py
@@ -33,10 +33,10 @@ htlc_redeem_script = \
 
 # Needs (signature, pubkey, secret)
 # IN THAT ORDER!
-htlc_stack_script_execute = '{sig} {pk} {secret} OP_TRUE'
+htlc_stack_script_execute = '{sig} {pk} {secret} OP_1'
 
 # Needs (signature, pubkey, serialized_redeem_script)
 # IN THAT ORDER!
-htlc_stack_script_refund = '{sig} {pk} OP_FALSE'
+htlc_stack_script_refund = '{sig} {pk} OP_0'
 
 # Don't forget to attach the script hash to the end of the p2sh script sigs
-- 
2.43.0


From f5030c282b3b01675191a72e6d2295820ce7489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 37/48] fix: BIP143, ZIP143 and ZIP243 sighashes refuse an
 amount that is not 8 bytes

---
 riemann/tx/overwinter.py | 1 +
 riemann/tx/sapling.py    | 1 +
 riemann/tx/tx.py         | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 7b643cf..0df7d48 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -305,6 +305,7 @@ class OverwinterTx(z.ZcashByteData):
         data += utils.i2le_padded(sighash_type, 4)
 
         if not joinsplit:
+            self.validate_bytes(prevout_value, 8)
             data += self.tx_ins[index].outpoint
             data += script_code
             data += prevout_value
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 4502a46..6e9a3f7 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -648,6 +648,7 @@ class SaplingTx(z.ZcashByteData):
         data += utils.i2le_padded(sighash_type, 4)
 
         if not joinsplit:
+            self.validate_bytes(prevout_value, 8)
             data += self.tx_ins[index].outpoint
             data += cast(bytes, script_code)
             data += prevout_value
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 2ce3d43..6551409 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -967,6 +967,8 @@ class Tx(ByteData):
         For an excellent pasta dinner, see here:
         https://ricette.giallozafferano.it/Spaghetti-alla-Norma.html
         '''
+        self.validate_bytes(prevout_value, 8)
+
         data = ByteData()
 
         # 1. nVersion of the transaction (4-byte little endian)
-- 
2.43.0


From 49067eb021d20f51e08b8d7818ad0e9d1c0c69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 38/48] fix: Decred sighashes refuse a missing script

---
 riemann/tx/decred.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 17db13f..a63602d 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -347,6 +347,8 @@ class DecredTx(DecredByteData):
     def _sighash_prep(self,
                       index: int,
                       script: Optional[bytes] = None) -> 'DecredTx':
+        self.validate_bytes(script, None)
+
         copy_tx_witnesses = [w.copy(stack_script=b'', redeem_script=b'')
                              for w in self.tx_witnesses]
         copy_tx_witnesses[index] = \
-- 
2.43.0


From 6e1097da9908995dcf6a71de5567466deabfc58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 39/48] fix: BLAKE.addsalt pads a short salt with null bytes

---
 riemann/blake256.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index 044e9c5..aa739de 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -347,7 +347,7 @@ class BLAKE(object):
         # if too short, prefix with null bytes.  if too long,
         # truncate high order bytes
         if len(salt) < saltsize:
-            salt = (chr(0)*(saltsize-len(salt)) + salt)
+            salt = b'\x00'*(saltsize-len(salt)) + salt
         else:
             salt = salt[-saltsize:]
         # prep the salt array
-- 
2.43.0


From ab70421e2ec50d74ea911e45e0412733b4e98286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 40/48] fix: the symbol of Bitcoin Private is BTCP

---
 riemann/networks/networks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/networks/networks.py b/riemann/networks/networks.py
index 3107a42..bce1d5d 100644
--- a/riemann/networks/networks.py
+++ b/riemann/networks/networks.py
@@ -784,7 +784,7 @@ class VertcoinRegtest(Network):
 class BitcoinPrivateMain(Network):
     # Bitcoin Private can pay out to segwit/bech32 wallets,
     # but has no support beyond that. It is upcoming.
-    SYMBOL = 'BCTP'
+    SYMBOL = 'BTCP'
     NETWORK_NAME = 'bitcoin_private'
     SUBNET_NAME = 'main'
     P2PKH_PREFIX = b'\x13\x25'
@@ -804,7 +804,7 @@ class BitcoinPrivateTest(Network):
 
 
 class BitcoinPrivateRegtest(Network):
-    SYMBOL = 'rBCTP'
+    SYMBOL = 'rBTCP'
     NETWORK_NAME = 'bitcoin_private'
     SUBNET_NAME = 'reg'
     P2PKH_PREFIX = b'\x19\x57'
-- 
2.43.0


From 63c24bee13c11435db51139c5fa5b7afa9dfdcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 41/48] fix: BLAKE measures text after encoding it

---
 riemann/blake256.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index aa739de..4cf1395 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -370,9 +370,6 @@ class BLAKE(object):
         BLKBYTES = self.BLKBYTES   # de-referenced for improved readability
         BLKBITS  = self.BLKBITS
 
-        datalen = len(data)
-        if not datalen:  return
-
         if type(data) == type(u''):
 
             # use either of the next two lines for a proper
@@ -390,6 +387,9 @@ class BLAKE(object):
             # that does nothing would at least allow
             # compatibility between Python2 and Python3.
 
+        datalen = len(data)
+        if not datalen:  return
+
         left = len(self.cache)
         fill = BLKBYTES - left
 
-- 
2.43.0


From dade56c4e503d0f03cbda3a5aaae6e552b3e725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 42/48] fix: i2le_script gives -1 as 'ff', not as nothing

---
 riemann/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/utils.py b/riemann/utils.py
index 038c8c8..12a28d8 100644
--- a/riemann/utils.py
+++ b/riemann/utils.py
@@ -41,7 +41,7 @@ def i2le_script(number: int) -> str:
     '''
     if number == 0:
         return '00'
-    for i in range(520):
+    for i in range(1, 521):  # zero bytes cannot express -1
         try:  # this is stupid
             return number.to_bytes(
                 length=i,  # minimal bytes lol
-- 
2.43.0


From 568368b573a579882951daf9a586f1e12cfbc860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 43/48] fix: the work of parsing grows with the length of the
 input, not with its square

---
 riemann/tx/overwinter.py |  6 ++++--
 riemann/tx/sapling.py    |  6 ++++--
 riemann/tx/shared.py     | 21 +++++++++++++++++++++
 riemann/tx/sprout.py     |  6 ++++--
 riemann/tx/tx.py         | 35 +++++++++++++++++++++++------------
 5 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 0df7d48..0dfbf54 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -217,7 +217,8 @@ class OverwinterTx(z.ZcashByteData):
 
         current = 8 + len(tx_ins_num)
         for _ in range(tx_ins_num.number):
-            tx_in = TxIn.from_bytes(byte_string[current:])
+            tx_in = TxIn.from_bytes(
+                shared.length_prefixed(byte_string, current, head=36, tail=4))
             current += len(tx_in)
             tx_ins.append(tx_in)
 
@@ -226,7 +227,8 @@ class OverwinterTx(z.ZcashByteData):
 
         current += len(tx_outs_num)
         for _ in range(tx_outs_num.number):
-            tx_out = TxOut.from_bytes(byte_string[current:])
+            tx_out = TxOut.from_bytes(
+                shared.length_prefixed(byte_string, current, head=8))
             current += len(tx_out)
             tx_outs.append(tx_out)
 
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 6e9a3f7..0c793af 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -521,7 +521,8 @@ class SaplingTx(z.ZcashByteData):
 
         current = 8 + len(tx_ins_num)
         for _ in range(tx_ins_num.number):
-            tx_in = TxIn.from_bytes(byte_string[current:])
+            tx_in = TxIn.from_bytes(
+                shared.length_prefixed(byte_string, current, head=36, tail=4))
             current += len(tx_in)
             tx_ins.append(tx_in)
 
@@ -530,7 +531,8 @@ class SaplingTx(z.ZcashByteData):
 
         current += len(tx_outs_num)
         for _ in range(tx_outs_num.number):
-            tx_out = TxOut.from_bytes(byte_string[current:])
+            tx_out = TxOut.from_bytes(
+                shared.length_prefixed(byte_string, current, head=8))
             current += len(tx_out)
             tx_outs.append(tx_out)
 
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index d142e1c..581d986 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -229,3 +229,24 @@ class VarInt(ByteData):
                              .format(byte_string.hex()))
 
         return VarInt(number)
+
+
+def length_prefixed(
+        byte_string: bytes,
+        start: int,
+        head: int = 0,
+        tail: int = 0) -> bytes:
+    '''
+    Get the bytes of one length-prefixed element out of a longer bytestring.
+    Slicing off the rest of the bytestring for every element instead would
+    copy it as many times as there are elements.
+
+    Args:
+        byte_string: the bytes that contain the element
+        start:       where the element starts
+        head:        number of bytes in the element before its length
+        tail:        number of bytes in the element after its content
+    '''
+    len_start = start + head
+    n = VarInt.from_bytes(byte_string[len_start:len_start + 9])
+    return byte_string[start:len_start + len(n) + n.number + tail]
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 54649eb..1359a33 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -169,7 +169,8 @@ class SproutTx(z.ZcashByteData):
 
         current = 4 + len(tx_ins_num)
         for _ in range(tx_ins_num.number):
-            tx_in = TxIn.from_bytes(byte_string[current:])
+            tx_in = TxIn.from_bytes(
+                shared.length_prefixed(byte_string, current, head=36, tail=4))
             current += len(tx_in)
             tx_ins.append(tx_in)
 
@@ -178,7 +179,8 @@ class SproutTx(z.ZcashByteData):
 
         current += len(tx_outs_num)
         for _ in range(tx_outs_num.number):
-            tx_out = TxOut.from_bytes(byte_string[current:])
+            tx_out = TxOut.from_bytes(
+                shared.length_prefixed(byte_string, current, head=8))
             current += len(tx_out)
             tx_outs.append(tx_out)
 
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 6551409..dd05afe 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -368,11 +368,20 @@ class InputWitness(ByteData):
         '''
         Parse an InputWitness from a bytestring. Also available as from_hex
         '''
-        stack_items = VarInt.from_bytes(byte_string)
-        item_start = len(stack_items)
+        return InputWitness._parse_at(byte_string, 0)
+
+    @classmethod
+    def _parse_at(
+            InputWitness, byte_string: bytes, start: int) -> 'InputWitness':
+        '''
+        Parse the InputWitness that starts at `start` in a bytestring
+        '''
+        stack_items = VarInt.from_bytes(byte_string[start:start + 9])
+        item_start = start + len(stack_items)
         items: List[WitnessStackItem] = []
         while len(items) < stack_items.number:
-            item = WitnessStackItem.from_bytes(byte_string[item_start:])
+            item = WitnessStackItem.from_bytes(
+                shared.length_prefixed(byte_string, item_start))
             item_start += len(item)
             items.append(item)
         return InputWitness(items)
@@ -582,7 +591,8 @@ class Tx(ByteData):
 
         # Deserialize all tx_ins
         for _ in range(tx_ins_num.number):
-            tx_in = TxIn.from_bytes(byte_string[current:])
+            tx_in = TxIn.from_bytes(
+                shared.length_prefixed(byte_string, current, head=36, tail=4))
             current += len(tx_in)
             tx_ins.append(tx_in)
 
@@ -593,7 +603,8 @@ class Tx(ByteData):
         # Deserialize all outputs
         current += len(tx_outs_num)
         for _ in range(tx_outs_num.number):
-            tx_out = TxOut.from_bytes(byte_string[current:])
+            tx_out = TxOut.from_bytes(
+                shared.length_prefixed(byte_string, current, head=8))
             current += len(tx_out)
             tx_outs.append(tx_out)
 
@@ -602,7 +613,7 @@ class Tx(ByteData):
         if flag and len(byte_string[current:]) > 4:
             tx_witnesses_num = tx_ins_num
             for _ in range(tx_witnesses_num.number):
-                tx_witness = InputWitness.from_bytes(byte_string[current:])
+                tx_witness = InputWitness._parse_at(byte_string, current)
                 current += len(tx_witness)
                 tx_witnesses.append(tx_witness)
 
@@ -621,16 +632,16 @@ class Tx(ByteData):
         Return the Tx as a bytestring stripped of witnesses. This is the
         preimage of `tx_id` and `tx_id_le`.
         '''
-        tx = bytes()
+        tx = ByteData()
         tx += self.version
-        tx += VarInt(len(self.tx_ins)).to_bytes()
+        tx += VarInt(len(self.tx_ins))
         for tx_in in self.tx_ins:
-            tx += tx_in.to_bytes()
-        tx += VarInt(len(self.tx_outs)).to_bytes()
+            tx += tx_in
+        tx += VarInt(len(self.tx_outs))
         for tx_out in self.tx_outs:
-            tx += tx_out.to_bytes()
+            tx += tx_out
         tx += self.lock_time
-        return tx
+        return tx.to_bytes()
 
     def is_witness(self) -> bool:
         '''Return True if the transaction witness flag is set'''
-- 
2.43.0


From 301a6bcae107e66ce837449b56062ebe06df19e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:48 +0000
Subject: [PATCH 44/48] fix: SIGHASH_SINGLE refuses a negative input index
 instead of committing to another output

---
 riemann/tx/decred.py     | 2 +-
 riemann/tx/overwinter.py | 2 +-
 riemann/tx/sapling.py    | 2 +-
 riemann/tx/sprout.py     | 2 +-
 riemann/tx/tx.py         | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index a63602d..51980b2 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -368,7 +368,7 @@ class DecredTx(DecredByteData):
             index=index,
             script=script)
 
-        if index >= len(self.tx_outs):
+        if index not in range(len(self.tx_outs)):
             raise NotImplementedError(
                 'I refuse to implement the SIGHASH_SINGLE bug.')
 
diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 0dfbf54..7214ddc 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -356,7 +356,7 @@ class OverwinterTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index >= len(self.tx_outs):
+            if index not in range(len(self.tx_outs)):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 0c793af..40fdd92 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -698,7 +698,7 @@ class SaplingTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index >= len(self.tx_outs):
+            if index not in range(len(self.tx_outs)):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 1359a33..bacea04 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -312,7 +312,7 @@ class SproutTx(z.ZcashByteData):
         if len(self.tx_joinsplits) != 0:
             raise ValueError('Sighash single not permitted with joinsplits.')
 
-        if index >= len(self.tx_outs):
+        if index not in range(len(self.tx_outs)):
             raise NotImplementedError(
                 'I refuse to implement the SIGHASH_SINGLE bug.')
 
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index dd05afe..d6f5a5b 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -919,7 +919,7 @@ class Tx(ByteData):
            The 32-byte digest to be signed.
         '''  # noqa: E501
 
-        if index >= len(self.tx_outs):
+        if index not in range(len(self.tx_outs)):
             raise NotImplementedError(
                 'I refuse to implement the SIGHASH_SINGLE bug.')
 
@@ -1101,7 +1101,7 @@ class Tx(ByteData):
                 outputs += tx_out.to_bytes()
             return utils.hash256(outputs.to_bytes())
         elif (sighash_type == shared.SIGHASH_SINGLE
-              and index < len(self.tx_outs)):
+              and index in range(len(self.tx_outs))):
             # if sighash type is SINGLE
             # and the input index is smaller than the number of outputs,
             # hashOutputs is the double SHA256 of the output at the same index
-- 
2.43.0


From 007c8b431908bc36faefe0885ba2c1e93d4b888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:48 +0000
Subject: [PATCH 45/48] fix: unsigned_witness_tx takes the locktime keyword it
 documents

---
 riemann/simple.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riemann/simple.py b/riemann/simple.py
index 6ea840e..14c2fac 100644
--- a/riemann/simple.py
+++ b/riemann/simple.py
@@ -124,7 +124,7 @@ def unsigned_witness_tx(tx_ins, tx_outs, **kwargs):
 
         **kwargs:
         version     (int): transaction version number
-        locktime    (hex): transaction locktime
+        lock_time   (int): transaction locktime, also called locktime
 
     Returns:
         (Tx instance): unsigned transaction with empty witness
@@ -133,5 +133,6 @@ def unsigned_witness_tx(tx_ins, tx_outs, **kwargs):
         version=kwargs['version'] if 'version' in kwargs else 2,
         tx_ins=tx_ins,
         tx_outs=tx_outs,
-        lock_time=kwargs['lock_time'] if 'lock_time' in kwargs else 0,
+        lock_time=(kwargs['lock_time'] if 'lock_time' in kwargs
+                   else kwargs['locktime'] if 'locktime' in kwargs else 0),
         tx_witnesses=[tb.make_empty_witness() for _ in tx_ins])
-- 
2.43.0


From 4e8cfdcf399df6ab9529c6dcb786d267f80e7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:41 +0000
Subject: [PATCH 46/48] fix: hashing with BLAKE copies a message once, not once
 for every block

---
 riemann/blake256.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index 4cf1395..3fec708 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -404,15 +404,16 @@ class BLAKE(object):
             datalen -= fill
 
         # compress new data until not enough for a full block
+        at = 0
         while datalen >= BLKBYTES:
             self.t += BLKBITS           # update counter
-            self._compress(data[:BLKBYTES])
-            data = data[BLKBYTES:]
+            self._compress(data[at:at + BLKBYTES])
+            at += BLKBYTES
             datalen -= BLKBYTES
 
         # cache all leftover bytes until next call to update()
         if datalen > 0:
-            self.cache = self.cache + data[:datalen]
+            self.cache = self.cache + data[at:]
 
     # - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
-- 
2.43.0


From 3a9f6d4c952ce4c8260b97a1d604240a589a3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:05 +0000
Subject: [PATCH 47/48] fix: attributes of finished objects cannot be deleted

---
 riemann/tx/shared.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 581d986..0ba78a2 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -81,6 +81,11 @@ class ByteData():
             value = bytes(value)  # do not keep the caller's mutable buffer
         object.__setattr__(self, key, value)
 
+    def __delattr__(self, key: str):
+        if self.__immutable:
+            raise TypeError("%r cannot be written to." % self)
+        object.__delattr__(self, key)
+
     def __format__(self, code):
         '''
         ByteData -> str
-- 
2.43.0


From 483e30160c630e0f57dddfa0b9cab1c238259ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:05 +0000
Subject: [PATCH 48/48] fix: parts do not keep ByteData that is still under
 construction

---
 riemann/tx/decred.py | 2 +-
 riemann/tx/shared.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 51980b2..8c977b3 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -172,7 +172,7 @@ class DecredInputWitness(DecredByteData):
         self.value = value
         self.height = height
         self.index = index
-        self.script_len = len(stack_script + redeem_script)
+        self.script_len = len(stack_script) + len(redeem_script)
         self.stack_script = stack_script
         self.redeem_script = redeem_script
         self.script_sig = self.stack_script + self.redeem_script
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 0ba78a2..3c2cdfe 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -79,6 +79,8 @@ class ByteData():
             raise TypeError("%r cannot be written to." % self)
         if isinstance(value, bytearray) and key != '_bytes':
             value = bytes(value)  # do not keep the caller's mutable buffer
+        if isinstance(value, ByteData) and not value.__immutable:
+            value = value.to_bytes()
         object.__setattr__(self, key, value)
 
     def __delattr__(self, key: str):
-- 
2.43.0

