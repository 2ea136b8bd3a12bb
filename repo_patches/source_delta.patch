From 59e1954c8b7d99256c7c759cd216a587a35bffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:52 +0000
Subject: [PATCH 01/24] fix: propagate the carry when incrementing the CTR
 counter block

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index b9fe0b6..d89f24b 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -839,12 +839,11 @@ class GOST34132015ctr(GOST34132015Cipher):
         self._counter = bytearray(self._counter)
 
     def _inc_ctr(self, ctr: bytearray) -> bytearray:
-        internal = 0
-        bit = bytearray(self.block_size)
-        bit[self.block_size - 1] = 0x01
-        for i in range(self.block_size):
-            internal = ctr[i] + bit[i] + (internal << 8)
+        internal = 1
+        for i in range(self.block_size - 1, -1, -1):
+            internal = ctr[i] + internal
             ctr[i] = internal & 0xff
+            internal = internal >> 8
         return ctr
 
     @property
-- 
2.43.0


From ca5b7f3a1541489287faece2ab89c91080be6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:12 +0000
Subject: [PATCH 02/24] fix: buffer MAC input correctly for short, empty and
 split messages

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 37 +++++-------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index d89f24b..1132a9c 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -932,9 +932,7 @@ class GOST34132015mac(GOST34132015):
         value_r = self._cipher_obj.encrypt(bytearray(self._cipher_obj.block_size * b'\x00'))
         self._key_1, self._key_2 = self._get_mac_key(value_r)
         self._fin_buff = bytearray()
-        self._iter_buf = bytearray()
         self._prev_mac = bytearray(self._cipher_obj.block_size)
-        self._cur_mac = bytearray(self._cipher_obj.block_size)
         if data != bytearray(b''):
             self.update(data)
 
@@ -982,33 +980,14 @@ class GOST34132015mac(GOST34132015):
         if not isinstance(data, (bytes, bytearray)):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid text data')
-        data = self._iter_buf + data
-        block = bytearray()
-        prev_block = self._cur_mac
-        for i in range(0, self._get_num_block(data) - 1):
-            block = self._cipher_obj.encrypt(add_xor(prev_block, self._get_block(data, i)))
-            prev_block = block
-        if self._get_pad_size(data) == 0:
-            block = (
-                self._cipher_obj.encrypt(
-                    add_xor(prev_block, data[len(data) - self.block_size:len(data)])
-                )
-            )
-            self._cur_mac = block
-            self._prev_mac = prev_block
-            self._iter_buf = bytearray(b'')
-        else:
-            begin_data = len(data) - 2 * self.block_size + self._get_pad_size(data)
-            end_data = len(data) - self.block_size + self._get_pad_size(data)
-            block = (
-                self._cipher_obj.encrypt(
-                    add_xor(prev_block, data[begin_data:end_data])
-                )
+        data = self._fin_buff + data
+        # The last (complete or incomplete) block is kept for 'mac_final()'.
+        num_block = (len(data) - 1) // self.block_size if len(data) > 0 else 0
+        for i in range(0, num_block):
+            self._prev_mac = self._cipher_obj.encrypt(
+                add_xor(self._prev_mac, self._get_block(data, i))
             )
-            self._cur_mac = block
-            self._prev_mac = block
-            self._iter_buf = data[len(data) - self.block_size + self._get_pad_size(data):]
-        self._fin_buff = data[self.block_size * (self._get_num_block(data) - 1):]
+        self._fin_buff = data[self.block_size * num_block:]
 
     def mac_final(self) -> bytearray:
         """Return the final value of the MAC."""
@@ -1016,7 +995,7 @@ class GOST34132015mac(GOST34132015):
             final_key = self._key_1
         else:
             final_key = self._key_2
-            self._fin_buff = self._set_pad_mode_3(self._fin_buff[self.block_size:])
+            self._fin_buff = self._set_pad_mode_3(self._fin_buff)
         result = bytearray()
         result = self._cipher_obj.encrypt(
             add_xor(add_xor(self._fin_buff, self._prev_mac), final_key)
-- 
2.43.0


From 11305656996db569b79542f95fabc36c0f1f3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 03/24] fix: reject a negative MAC size

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 1132a9c..fa3dfc4 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -1022,7 +1022,7 @@ class GOST34132015mac(GOST34132015):
               size.
         """
         temp = deepcopy(self)
-        if mac_size > temp.block_size:
+        if mac_size < 0 or mac_size > temp.block_size:
             temp.clear()
             raise GOSTCipherError('GOSTCipherError: invalid message authentication code size')
         return temp.mac_final()[0:mac_size:]
-- 
2.43.0


From d084b08a19431b5e9a6cbde540d25eca8fe8c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 04/24] fix: drop buffered hash input once it completes a block

---
 gostcrypto/gosthash/gost_34_11_2012.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gostcrypto/gosthash/gost_34_11_2012.py b/gostcrypto/gosthash/gost_34_11_2012.py
index c64e34a..972e462 100755
--- a/gostcrypto/gosthash/gost_34_11_2012.py
+++ b/gostcrypto/gosthash/gost_34_11_2012.py
@@ -860,8 +860,7 @@ class GOST34112012:
             self._hash_n = self._hash_add_512(self._hash_n, _V_512)
             self._hash_sigma = self._hash_add_512(self._hash_sigma, block)
         self._pad_block_size = _BLOCK_SIZE - len(data) % _BLOCK_SIZE
-        if self._pad_block_size < _BLOCK_SIZE:
-            self._buff = data[-(_BLOCK_SIZE - self._pad_block_size):]
+        self._buff = data[self._num_block * _BLOCK_SIZE:]
 
     def hash_final(self) -> None:
         """Complete the hash calculation after the data update."""
-- 
2.43.0


From 9b200a0c5e2f5a8ca6aac6662efd4f9926858270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:22 +0000
Subject: [PATCH 05/24] fix: copy a 64-byte HMAC key instead of keeping the
 caller's buffer

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 8525cf3..9ad8270 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -122,7 +122,7 @@ class R5011132016:
             self._key = key + add
             self._key = bytearray(self._key)
         elif len(key) == _KEY_SIZE:
-            self._key = key
+            self._key = bytearray(key)
         key = bytearray(len(key))
         if name == 'HMAC_GOSTR3411_2012_256':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.1')
-- 
2.43.0


From 455b5508c3ebe3114d669341eb7b67892428c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 06/24] fix: HMAC of the empty message includes the inner
 padded key

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 9ad8270..4d693e8 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -175,6 +175,8 @@ class R5011132016:
         Returns:
             HMAC message authentication code as a byte object.
         """
+        if self._counter == 0:
+            self.update(bytearray(b''))
         fin_hasher_obj = GOST34112012(self._hasher_obj.name, data=bytearray(b''))
         fin_hasher_obj.update(add_xor(self._key, _O_PAD) + self._hasher_obj.digest())
         result = fin_hasher_obj.digest()
-- 
2.43.0


From 73f34db79f58cc5b1b8e8ebb11db7385be25dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:51 +0000
Subject: [PATCH 07/24] fix: zero_fill returns zero octets of the same length

---
 gostcrypto/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/utils/utils.py b/gostcrypto/utils/utils.py
index b698a01..1a2256d 100755
--- a/gostcrypto/utils/utils.py
+++ b/gostcrypto/utils/utils.py
@@ -77,7 +77,7 @@ def zero_fill(value: bytearray) -> bytearray:
     """
     result = b''
     if isinstance(value, (bytes, bytearray)):
-        result = b'/x00' * len(value)
+        result = b'\x00' * len(value)
         result = bytearray(result)
     return result
 
-- 
2.43.0


From 2e788c3313f185b84d2f1b59931f6c0229e99b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 08/24] fix: PBKDF clear() also clears the HMAC key and
 tolerates a failed constructor

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 9c50f59..73b4fab 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -165,7 +165,10 @@ class R5011112016:
 
     def clear(self):
         """Сlear the password value."""
-        self._password = zero_fill(self._password)
+        if hasattr(self, '_password'):
+            self._password = zero_fill(self._password)
+        if hasattr(self, '_hmac_obj'):
+            self._hmac_obj.clear()
 
     @property
     def salt(self):
-- 
2.43.0


From 95609ef36ed00dfbb91323e37997e48fc4d296e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 09/24] fix: PBKDF reports an overlong password as
 GOSTPBKDFError

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 73b4fab..6f15bde 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -72,7 +72,7 @@ class R5011112016:
             salt: Random value.
             iterations: Number of iterations.
         """
-        if not isinstance(password, (bytes, bytearray)):
+        if not isinstance(password, (bytes, bytearray)) or len(password) > _BLOCK_SIZE:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid password value')
         self._password = bytearray(password)
         self._salt = salt
-- 
2.43.0


From 3011848e9bc6239aa8e331c8f9b3e56ad1f80008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:07 +0000
Subject: [PATCH 10/24] fix: reject an empty initialization vector in CBC, CFB
 and OFB

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index fa3dfc4..aea8c4e 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -456,7 +456,7 @@ class GOST34132015CipherFeedBack(GOST34132015Cipher, ABC):
         """
         GOST34132015Cipher.__init__(self, algorithm, key)
         check_init_vect = isinstance(init_vect, (bytes, bytearray))
-        if (not check_init_vect) or (len(init_vect) % self.block_size) != 0:
+        if (not check_init_vect) or len(init_vect) == 0 or (len(init_vect) % self.block_size) != 0:
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid initialization vector value')
         self._init_vect = init_vect
-- 
2.43.0


From fbba79f16e388572c586e911b089b7f2a6b6e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 11/24] fix: stop the PRNG before its counter overflows into
 the seed

---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index 51893c7..b7c1a55 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -90,7 +90,7 @@ class R132356510062017:
             self._rand_u = bytearray(self._rand_u)
         self._q = rand_size // _SIZE_H
         self._r = rand_size % _SIZE_H
-        self._limit = 2 ** ((_SIZE_M - self._size_s) * 8)
+        self._limit = 2 ** ((_SIZE_M - self._size_s - 1) * 8) - 1
         self._hash_obj = GOST34112012('streebog512', data=bytearray(b''))
 
     def __del__(self) -> None:
-- 
2.43.0


From 9b49f732b9f4a4ec1c81eb66ee1adc56e7275701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 12/24] fix: return copies from the CTR counter and PBKDF salt
 attributes

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 gostcrypto/gostpbkdf/r_50_1_111_2016.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index aea8c4e..8557aeb 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -849,7 +849,7 @@ class GOST34132015ctr(GOST34132015Cipher):
     @property
     def counter(self) -> bytearray:
         """Return the value of the block counter."""
-        return self._counter
+        return bytearray(self._counter)
 
     def encrypt(self, data: bytearray) -> bytearray:
         """
diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 6f15bde..dc5848b 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -173,7 +173,7 @@ class R5011112016:
     @property
     def salt(self):
         """Return a random value (salt)."""
-        return self._salt
+        return bytearray(self._salt)
 
 
 class GOSTPBKDFError(Exception):
-- 
2.43.0


From 24783001810306bb286ffc50ed753ba5068392ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 13/24] fix: reject curves that fail the MOV condition

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index be8eb55..7849328 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -561,7 +561,7 @@ class GOST34102012:
             check_b = 132
         for i in range(1, check_b):
             if self._p ** i % self._q == 1 % self._q:
-                result = result or result
+                result = False
         return result
 
     def _check_q(self) -> bool:
-- 
2.43.0


From b85e90e1bd4c62f3058432d17f952b66b48f3593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 14/24] fix: use the public key even if one of its coordinates
 is zero

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 7849328..053fb5a 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -616,7 +616,7 @@ class GOST34102012:
     def _mul_point(self, mul_value: int, x_op: int = -1,
                    y_op: Any = - 1) -> Tuple[int, int]:
         mul_value = mul_value - 1
-        if x_op > 0 and y_op > 0:
+        if x_op >= 0 and y_op >= 0:
             x_prev = x_op
             y_prev = y_op
         else:
-- 
2.43.0


From b4fce8f529340a50364cdc0301406114589fcdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:29 +0000
Subject: [PATCH 15/24] fix: verify() rejects public keys that are not points
 of the curve

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 053fb5a..714b979 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -547,12 +547,12 @@ class GOST34102012:
         return result
 
     def _check_x_y(self) -> bool:
-        result = True
-        right_side_equation = self._y * self._y % self._p
-        left_side_equation = (self._x ** 3 + self._x * self._a + self._b) % self._p
-        if right_side_equation != left_side_equation:
-            result = False
-        return result
+        return self._on_curve(self._x, self._y)
+
+    def _on_curve(self, x_value: int, y_value: int) -> bool:
+        right_side_equation = y_value * y_value % self._p
+        left_side_equation = (x_value ** 3 + x_value * self._a + self._b) % self._p
+        return right_side_equation == left_side_equation
 
     def _check_p(self) -> bool:
         result = True
@@ -745,6 +745,8 @@ class GOST34102012:
             bytearray_to_int(public_key[:self._size]),
             bytearray_to_int(public_key[self._size:])
         )
+        if max(public_key) >= self._p or not self._on_curve(public_key[0], public_key[1]):
+            raise GOSTSignatureError('GOSTSignatureError: invalid public key value')
         sign_r, sign_s = self._get_r_s(signature)
         if not self._verify_step_1(sign_r, sign_s):
             return False
-- 
2.43.0


From 5e7a8f0e7038eef03f6074f81c623dd324baee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:01 +0000
Subject: [PATCH 16/24] fix: handle the point at infinity; verify() returns
 False for it

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 714b979..f5fd18d 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -595,8 +595,15 @@ class GOST34102012:
         return result
 
     def _add(self, x_1: int, x_2: int, y_1: int, y_2: int) -> Tuple[int, int]:
+        # The point at infinity is represented as (-1, -1).
+        if x_1 < 0:
+            return x_2, y_2
+        if x_2 < 0:
+            return x_1, y_1
         compare_x = compare(int_to_bytearray(x_1, self._size), int_to_bytearray(x_2, self._size))
         compare_y = compare(int_to_bytearray(y_1, self._size), int_to_bytearray(y_2, self._size))
+        if compare_x and (y_1 + y_2) % self._p == 0:
+            return -1, -1
         if compare_x and compare_y:
             grad = (3 * x_1 * x_1 + self._a) * self._invert(2 * y_1, self._p) % self._p
         else:
@@ -757,6 +764,8 @@ class GOST34102012:
         sign_p = self._mul_point(sign_z_1)
         sign_q = self._mul_point(sign_z_2, public_key[0], public_key[1])
         sign_c = self._add(sign_p[0], sign_q[0], sign_p[1], sign_q[1])
+        if sign_c[0] < 0:
+            return False
         sign_r_check = sign_c[0] % self._q
         return compare(int_to_bytearray(sign_r_check, self._size),
                        int_to_bytearray(sign_r, self._size))
-- 
2.43.0


From 97a64cf4bea7b70c974e128b3788c0a9a157be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:04 +0000
Subject: [PATCH 17/24] fix: sign() redraws or rejects a random number that
 gives r = 0, s = 0 or is zero

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 25 ++++++++++++++-------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index f5fd18d..ec3c8ec 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -650,7 +650,7 @@ class GOST34102012:
 
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
-        while bytearray_to_int(rand_k) >= self._q:
+        while not 0 < bytearray_to_int(rand_k) < self._q:
             rand_k = bytearray(os.urandom(self._size))
         return rand_k
 
@@ -692,20 +692,29 @@ class GOST34102012:
         sign_r = 0
         sign_s = 0
         sign_k = 0
-        if rand_k == bytearray(b''):
+        generate_k = rand_k == bytearray(b'')
+        if generate_k:
             rand_k = self._get_rand_k()
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        if bytearray_to_int(rand_k) >= self._q:
+        if not 0 < bytearray_to_int(rand_k) < self._q:
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        while compare_to_zero(int_to_bytearray(sign_s, self._size)):
-            while compare_to_zero(int_to_bytearray(sign_r, self._size)):
-                sign_k = bytearray_to_int(rand_k)
-                sign_c = self._mul_point(sign_k)
-                sign_r = sign_c[0] % self._q
+        while True:
+            sign_k = bytearray_to_int(rand_k)
+            sign_c = self._mul_point(sign_k)
+            sign_r = sign_c[0] % self._q
             sign_s = (sign_r * bytearray_to_int(private_key) + sign_k * sign_e) % self._q
+            if not (
+                    compare_to_zero(int_to_bytearray(sign_r, self._size)) or
+                    compare_to_zero(int_to_bytearray(sign_s, self._size))
+            ):
+                break
+            if not generate_k:
+                private_key = zero_fill(private_key)
+                raise GOSTSignatureError('GOSTSignatureError: invalid random value')
+            rand_k = self._get_rand_k()
         result = int_to_bytearray(sign_r, self._size) + int_to_bytearray(sign_s, self._size)
         private_key = zero_fill(private_key)
         return result
-- 
2.43.0


From 43979ee88e5502ba8ed7c2cf421ea3bc315d6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:08 +0000
Subject: [PATCH 18/24] fix: reject private keys that are zero modulo q

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index ec3c8ec..219b730 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -686,6 +686,8 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
+        if bytearray_to_int(private_key) % self._q == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         if not check_value(digest, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid digest value')
         sign_e = self._set_e(digest)
@@ -796,6 +798,8 @@ class GOST34102012:
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         private_key = bytearray_to_int(private_key)
+        if private_key % self._q == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         public_key = self._mul_point(private_key)
         public_key_x = int_to_bytearray(public_key[0], self._size)
         public_key_y = int_to_bytearray(public_key[1], self._size)
-- 
2.43.0


From a41d42c73b5fe026635b44d0e92accd702f53496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 19/24] fix: set the continuation bit on all but the last octet
 of an OID component

---
 gostcrypto/gostoid/oid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b588b47..b8432d3 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -101,9 +101,9 @@ def _int_to_octet(value: int) -> bytearray:
         return bytearray(value.to_bytes(1, byteorder='big'))
     result = bytearray(_len_int(value, 7))
     for i in range(_len_int(value, 7) - 1, -1, -1):
-        result[i] = value & 0x7F
+        result[i] = 0x80 | (value & 0x7F)
         value = value >> 7
-    result[0] = result[0] | 0x80
+    result[-1] = result[-1] & 0x7F
     return result
 
 
-- 
2.43.0


From c119b2e391deeea241f3b571c54faf977ac01cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:32 +0000
Subject: [PATCH 20/24] fix: report malformed and single-component OIDs as
 GOSTOIDError

---
 gostcrypto/gostoid/oid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b8432d3..ced39ca 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -109,6 +109,8 @@ def _int_to_octet(value: int) -> bytearray:
 
 def _encode_octet(value: tuple) -> bytearray:
     result = bytearray()
+    if len(value) < 2:
+        raise GOSTOIDError('invalid OID value')
     if value[0] == 0:
         if value[1] < 40:
             first_value = value[1]
@@ -172,8 +174,11 @@ class ObjectIdentifier:
         If the object identifiers is incorrectly represented, an exception is
         thrown 'GOSTOIDError('invalid OID value')'.
         """
+        items = self._oid_str.split('.')
+        if not all(item.isascii() and item.isdigit() for item in items):
+            raise GOSTOIDError('invalid OID value')
         try:
-            result = tuple(int(item) for item in self._oid_str.split('.'))
+            result = tuple(int(item) for item in items)
         except ValueError:
             raise GOSTOIDError('invalid OID value')
         return result
-- 
2.43.0


From a4a2ed1bc3b21ea813240a22a72cf0280c6dc64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:35 +0000
Subject: [PATCH 21/24] fix: spell the OID name of 512-paramSetC with a Latin
 letter

---
 gostcrypto/gostoid/oid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index ced39ca..f53873a 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -66,7 +66,7 @@ OBJECT_IDENTIFIER_TC26 = {
     '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
     '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
     '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
-    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetС',
+    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
     '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
     '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
     '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
-- 
2.43.0


From 7c3e5314da9697295dab874de484b51017d8540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:14 +0000
Subject: [PATCH 22/24] fix: clear() of a MAC object also erases the keys
 derived for the last block

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 8557aeb..c32c76d 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -936,6 +936,13 @@ class GOST34132015mac(GOST34132015):
         if data != bytearray(b''):
             self.update(data)
 
+    def clear(self) -> None:
+        """Сlearing the values of iterative encryption keys and of the MAC keys."""
+        super().clear()
+        for name in ('_key_1', '_key_2', '_prev_mac'):
+            if hasattr(self, name):
+                setattr(self, name, zero_fill(getattr(self, name)))
+
     def _set_pad_mode_3(self, data: bytearray) -> bytearray:
         if self._get_pad_size(data) == 0:
             result = data
-- 
2.43.0


From b46d30384a5eb736fa1473f8fa3f09fb8c4d4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 23/24] fix: reject curves with a zero or negative modulus or
 order as GOSTSignatureError

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 219b730..8026d7d 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -529,6 +529,8 @@ class GOST34102012:
         self._y = curve.get('y', 0)
         self._u = curve.get('u', 0)
         self._v = curve.get('v', 0)
+        if self._p <= 0 or self._q <= 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid parameters of the elliptic curve')
         self._edvards_to_canonical()
         if not self._check_curve():
             raise GOSTSignatureError('GOSTSignatureError: invalid parameters of the elliptic curve')
-- 
2.43.0


From 49f03b8499768fe858c08368d6796992e4997e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:01 +0000
Subject: [PATCH 24/24] fix: finalizer of a block cipher whose constructor
 failed raises nothing

---
 gostcrypto/gostcipher/gost_34_12_2015.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_12_2015.py b/gostcrypto/gostcipher/gost_34_12_2015.py
index 6c3da09..79d74ae 100755
--- a/gostcrypto/gostcipher/gost_34_12_2015.py
+++ b/gostcrypto/gostcipher/gost_34_12_2015.py
@@ -569,7 +569,7 @@ class GOST34122015Kuznechik:
 
     def clear(self) -> None:
         """Сlearing the values of iterative encryption keys."""
-        for i in range(10):
+        for i in range(len(self._cipher_iter_key)):
             self._cipher_iter_key[i] = zero_fill(self._cipher_iter_key[i])
 
 
@@ -783,5 +783,5 @@ class GOST34122015Magma:
 
     def clear(self) -> None:
         """Сlearing the values of iterative encryption keys."""
-        for i in range(32):
+        for i in range(len(self._cipher_iter_key)):
             self._cipher_iter_key[i] = zero_fill(self._cipher_iter_key[i])
-- 
2.43.0

