From 5ff09dc88f011ede6ab01094e448924beec82292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 01/16] fix: fp6::frobeniusMap wrote the wrong coefficients for
 powers 3 mod 6

---
 src/fp.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index c57d117..a7a82a4 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1128,9 +1128,11 @@ fp6 fp6::frobeniusMap(const uint64_t& power) const
         }
         case 3:
         {
-            _negate(&c.c0.c0, &c1.c1);
-            c.c1.c1 = c1.c0;
-            c.c2 = c2.negate();
+            fp t;
+            _negate(&t, &c.c1.c1);
+            c.c1.c1 = c.c1.c0;
+            c.c1.c0 = t;
+            c.c2 = c.c2.negate();
             break;
         }
         default:
-- 
2.43.0


From 75f8d7a37821364eecfaa398499ccdf7dba5dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 02/16] fix: fp12 Frobenius map indexed its coefficient table
 out of bounds for powers above 11

---
 src/fp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index a7a82a4..925adc5 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1491,7 +1491,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
     fp12 c;
     c.c0 = c0.frobeniusMap(power);
     c.c1 = c1.frobeniusMap(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1504,7 +1504,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
         }
         default:
         {
-            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
@@ -1515,7 +1515,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
 {
     c0.frobeniusMapAssign(power);
     c1.frobeniusMapAssign(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1528,7 +1528,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
         }
         default:
         {
-            c1 = c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c1 = c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
-- 
2.43.0


From 173b82b7368b86541def4b322630f9afbbdbb0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 03/16] fix: compressed encoding of the identity point used the
 encoding of a non-identity abscissa

---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index b15760a..2b59335 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -180,7 +180,7 @@ void g1::toCompressedBytesBE(const span<uint8_t, 48> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g1 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 48);
         out[0] |= 0xC0;
@@ -898,7 +898,7 @@ void g2::toCompressedBytesBE(const span<uint8_t, 96> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g2 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 96);
         out[0] |= 0xC0;
-- 
2.43.0


From 425a2f0e80ce1e738ec0ad47ecd110c237ff191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 04/16] fix: compressed decoding accepted abscissas not below
 the modulus

---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index 2b59335..b306115 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -113,11 +113,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     scalar::fromBytesBE(in, p.x.d);
     // erase 3 msbs from given input and perform validity check
     p.x.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x = p.x.toMont();
     if(!p.x.isValid())
     {
         return {};
     }
+    p.x = p.x.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
@@ -831,11 +831,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     p.x.c0 = *c0;
     // erase 3 msbs from given input and perform validity check
     p.x.c1.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x.c1 = p.x.c1.toMont();
     if(!p.x.c1.isValid())
     {
         return {};
     }
+    p.x.c1 = p.x.c1.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
-- 
2.43.0


From 316add24c9398c2274ce54b1021d42cff475e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 05/16] fix: compressed decoding accepted many encodings of the
 identity point

---
 src/g.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index b306115..66c8e49 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -1,4 +1,5 @@
 #include <bls12-381/bls12-381.hpp>
+#include <algorithm>
 
 using namespace std;
 
@@ -105,6 +106,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // the encoding of infinity is unique: all other bits must be zero
+        if((in[0] & 0x3F) != 0 || any_of(in.begin() + 1, in.end(), [](const uint8_t b){ return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
@@ -818,6 +824,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // the encoding of infinity is unique: all other bits must be zero
+        if((in[0] & 0x3F) != 0 || any_of(in.begin() + 1, in.end(), [](const uint8_t b){ return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
-- 
2.43.0


From b1c8e79bd163a84c500851cce9af515979395068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 06/16] fix: Add64/Sub64 lost the carry when the second operand
 was all ones and a carry came in

---
 src/arithmetic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index acbe906..c5a1f75 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -440,7 +440,7 @@ tuple<uint64_t, uint64_t> Add64(
 )
 {
     uint64_t sum = (x + y) + carry;
-    uint64_t carryOut = (sum < x);
+    uint64_t carryOut = ((x & y) | ((x | y) & ~sum)) >> 63;
     return {sum, carryOut};
 }
 
@@ -456,7 +456,7 @@ tuple<uint64_t, uint64_t> Sub64(
 )
 {
     uint64_t diff = x - y - borrow;
-    uint64_t borrowOut = (diff > x);
+    uint64_t borrowOut = ((~x & y) | (~(x ^ y) & diff)) >> 63;
     return {diff, borrowOut};
 }
 
-- 
2.43.0


From 29f5277922d49435495c9a8fcbe340d4530997af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 07/16] fix: scalar::add stored the final carry one word too
 high

---
 include/bls12-381/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index f53a259..fabfe83 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -114,11 +114,11 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
     }
     if(carry > 0)
     {
-        if(NC <= N+1)
+        if(NC <= N)
         {
             throw std::invalid_argument("std::array c not large enough to store result!");
         }
-        c[N+1] = static_cast<uint64_t>(carry);
+        c[N] = static_cast<uint64_t>(carry);
     }
     return c;
 };
-- 
2.43.0


From d52ada696e426992b7a52951048b8f49bb8a499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 08/16] fix: hexToBytes read beyond the end of strings shorter
 than two characters

---
 src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 908ffa2..93250bb 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -8,7 +8,7 @@ namespace bls12_381
 vector<uint8_t> hexToBytes(std::string_view s)
 {
     uint64_t start_idx = 0;
-    if(s[0] == '0' && s[1] == 'x')
+    if(s.length() >= 2 && s[0] == '0' && s[1] == 'x')
     {
         start_idx = 2;
     }
-- 
2.43.0


From 8cc101725e76a6828c5e02367e8665972b6b98bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 09/16] fix: fromMessage hashed an uninitialised buffer when
 message expansion failed

---
 src/signatures.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7dbc161..aa376f1 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -1,6 +1,8 @@
 #include <bls12-381/bls12-381.hpp>
 #include "sha256.hpp"
 #include <set>
+#include <limits>
+#include <stdexcept>
 
 using namespace std;
 
@@ -453,7 +455,7 @@ int xmd_sh256(
     const unsigned int SHA256HashSize = 32;
     const unsigned int SHA256_Message_Block_Size = 64;
     const unsigned ell = (buf_len + SHA256HashSize - 1) / SHA256HashSize;
-    if (buf_len < 0 || ell > 255 || dst_len > 255)
+    if (buf_len < 0 || ell > 255 || in_len < 0 || dst_len < 0 || dst_len > 255)
     {
         return -1;
     }
@@ -500,7 +502,11 @@ g2 fromMessage(
 )
 {
     uint8_t buf[4 * 64];
-    xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length());
+    if(msg.size() > static_cast<size_t>(numeric_limits<int>::max()) || dst.length() > 255 ||
+       xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length()) != 0)
+    {
+        throw invalid_argument("fromMessage: message or domain separation tag too long!");
+    }
 
     array<uint64_t, 8> k = {};
     fp2 t = fp2::zero();
-- 
2.43.0


From 36b5214fdf070da72c800fa6699edaeabe1aeb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 10/16] fix: hkdf256_expand leaked its buffers on error returns
 and ignored allocation and HMAC failures

---
 src/signatures.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index aa376f1..fcbcbd2 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -100,30 +100,43 @@ int hkdf256_expand(
     size_t N = (L + 32 - 1) / 32; // Round up
     size_t bytesWritten = 0;
 
-    array<uint8_t, 32> T;
-    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
-    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
-
     if(N < 1 || N > 255)
     {
         //throw invalid_argument("assert(N >= 1 && N <= 255)");
         return -3;
     }
 
+    array<uint8_t, 32> T;
+    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
+    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
+    if(hmacInput1 == NULL || hmacInput == NULL)
+    {
+        free(hmacInput1);
+        free(hmacInput);
+        return -6;
+    }
+
     for(size_t i = 1; i <= N; i++)
     {
+        int r;
         if(i == 1)
         {
             memcpy(hmacInput1, info, infoLen);
             hmacInput1[infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
         }
         else
         {
             memcpy(hmacInput, T.data(), 32);
             memcpy(hmacInput + 32, info, infoLen);
             hmacInput[32 + infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+        }
+        if(r != 0)
+        {
+            free(hmacInput1);
+            free(hmacInput);
+            return r;
         }
         size_t to_write = L - bytesWritten;
         if(to_write > 32)
@@ -133,6 +146,8 @@ int hkdf256_expand(
         if(to_write <= 0 || to_write > 32)
         {
             //throw invalid_argument("assert(to_write > 0 && to_write <= 32)");
+            free(hmacInput1);
+            free(hmacInput);
             return -4;
         }
         memcpy(okm + bytesWritten, T.data(), to_write);
-- 
2.43.0


From 84b046ba135a91f7ce5568889b2a23be2a72db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 11/16] fix: secret_key ignored allocation and key derivation
 failures

---
 src/signatures.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index fcbcbd2..b1ecfb4 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -203,6 +203,10 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     uint8_t saltLen = 20;
 
     uint8_t *ikmHkdf = reinterpret_cast<uint8_t*>(malloc(seed.size() + 1));
+    if(ikmHkdf == NULL)
+    {
+        return {0, 0, 0, 0};
+    }
     memcpy(ikmHkdf, &seed[0], seed.size());
     ikmHkdf[seed.size()] = 0;
 
@@ -218,7 +222,7 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     array<uint64_t, 4> sk;
     while(true)
     {
-        hkdf256_extract_expand(
+        int r = hkdf256_extract_expand(
             okmHkdf.data(),
             L,
             ikmHkdf,
@@ -228,6 +232,11 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
             keyInfoHkdf,
             infoLen + 2
         );
+        if(r != 0)
+        {
+            free(ikmHkdf);
+            return {0, 0, 0, 0};
+        }
 
         // Make sure private key is less than the curve order
         array<uint64_t, 6> skBn = scalar::fromBytesBE<6>(span<uint8_t, 48>(okmHkdf.begin(), okmHkdf.end()));
-- 
2.43.0


From 562abeed393a3366225cbdf6c4ca62a1e1dae67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 12/16] fix: hardened child derivation ignored Lamport key
 expansion failures

---
 include/bls12-381/signatures.hpp |  4 ++--
 src/signatures.cpp               | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/bls12-381/signatures.hpp b/include/bls12-381/signatures.hpp
index 098b539..ada8f8a 100644
--- a/include/bls12-381/signatures.hpp
+++ b/include/bls12-381/signatures.hpp
@@ -65,7 +65,7 @@ int hkdf256_extract_expand(
 );
 
 // Implements IKM To Lamport SK as specified in EIP 2333: https://eips.ethereum.org/EIPS/eip-2333#ikm_to_lamport_sk
-void ikm_to_lamport_sk(
+int ikm_to_lamport_sk(
     uint8_t* outputLamportSk,
     const uint8_t* ikm,
     size_t ikmLen,
@@ -74,7 +74,7 @@ void ikm_to_lamport_sk(
 );
 
 // Implements Parent SK To Lamport PK as specified in EIP 2333: https://eips.ethereum.org/EIPS/eip-2333#parent_sk_to_lamport_pk
-void parent_sk_to_lamport_pk(
+int parent_sk_to_lamport_pk(
     uint8_t* outputLamportPk,
     const std::array<uint64_t, 4>& parentSk,
     uint32_t index
diff --git a/src/signatures.cpp b/src/signatures.cpp
index b1ecfb4..abcc0c2 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -262,7 +262,7 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     return sk;
 }
 
-void ikm_to_lamport_sk(
+int ikm_to_lamport_sk(
     uint8_t* outputLamportSk,
     const uint8_t* ikm,
     size_t ikmLen,
@@ -272,10 +272,10 @@ void ikm_to_lamport_sk(
 {
     // Expands the ikm to 255*HASH_LEN bytes for the lamport sk
     const uint8_t info[1] = {};
-    hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0);
+    return hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0);
 }
 
-void parent_sk_to_lamport_pk(
+int parent_sk_to_lamport_pk(
     uint8_t* outputLamportPk,
     const array<uint64_t, 4>& parentSk,
     uint32_t index
@@ -299,8 +299,10 @@ void parent_sk_to_lamport_pk(
         notIkm[i] = ikm[i] ^ 0xff;
     }
 
-    ikm_to_lamport_sk(lamport0.data(), ikm.data(), 32, salt.data(), 4);
-    ikm_to_lamport_sk(lamport1.data(), notIkm.data(), 32, salt.data(), 4);
+    int r = ikm_to_lamport_sk(lamport0.data(), ikm.data(), 32, salt.data(), 4);
+    if(r != 0) return r;
+    r = ikm_to_lamport_sk(lamport1.data(), notIkm.data(), 32, salt.data(), 4);
+    if(r != 0) return r;
 
     array<uint8_t, 32 * 255 * 2> lamportPk;
 
@@ -320,6 +322,7 @@ void parent_sk_to_lamport_pk(
     sha256 sha;
     sha.update(lamportPk.data(), 32 * 255 * 2);
     sha.digest(outputLamportPk);
+    return 0;
 }
 
 array<uint64_t, 4> derive_child_sk(
@@ -328,7 +331,10 @@ array<uint64_t, 4> derive_child_sk(
 )
 {
     array<uint8_t, 32> lamportPk;
-    parent_sk_to_lamport_pk(lamportPk.data(), parentSk, index);
+    if(parent_sk_to_lamport_pk(lamportPk.data(), parentSk, index) != 0)
+    {
+        return {0, 0, 0, 0};
+    }
     vector<uint8_t> lamportPkVector(lamportPk.data(), lamportPk.data() + 32);
     array<uint64_t, 4> child = secret_key(lamportPkVector);
     return child;
-- 
2.43.0


From b13f05cc7bb6b00683d8589e65b7db98d5adfbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 13/16] fix: miller_loop read out of bounds for an empty list
 of pairs

---
 src/pairing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pairing.cpp b/src/pairing.cpp
index 1f98083..e744a04 100644
--- a/src/pairing.cpp
+++ b/src/pairing.cpp
@@ -114,7 +114,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         {
             f = f.square();
         }
-        for(uint64_t j = 0; j <= pairs.size()-1; j++)
+        for(uint64_t j = 0; j < pairs.size(); j++)
         {
             t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
             t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
@@ -123,7 +123,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         if(((g2::cofactorEFF[0] >> i) & 1) == 1)
         {
             k++;
-            for(uint64_t j = 0; j <= pairs.size()-1; j++)
+            for(uint64_t j = 0; j < pairs.size(); j++)
             {
                 t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
                 t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
-- 
2.43.0


From 91ceff95ed633aa080cfc44a616aadd15a79e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 14/16] fix: hkdf256_hmac copied an overlapping buffer with
 memcpy for long keys

---
 src/signatures.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index abcc0c2..e34a371 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -43,7 +43,7 @@ int hkdf256_hmac(
     }
     if(key_len <= block_size)
     {
-        memcpy(_key, key, key_len);
+        memmove(_key, key, key_len); // key may already be _key
         memset(_key + key_len, 0, block_size - key_len);
         key = _key;
     }
-- 
2.43.0


From 0697909bb06b7369b618ee0241e167f17ee9753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 15/16] fix: doubling multiply-add helpers keep the carry that
 reaches the third word

madd1sb(2^64-2, 2^63+1, 4) is 2*a*b + e = 2^128, but returned (0, 0, 0): the
carries out of the high word were discarded after the doubling. The portable
squaring routine uses these helpers.
---
 src/arithmetic.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index c5a1f75..dac1543 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -546,17 +546,20 @@ tuple<uint64_t, uint64_t, uint64_t> madd2s(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -567,14 +570,16 @@ tuple<uint64_t, uint64_t, uint64_t> madd1s(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -585,16 +590,18 @@ tuple<uint64_t, uint64_t, uint64_t> madd2sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -604,13 +611,14 @@ tuple<uint64_t, uint64_t, uint64_t> madd1sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
-- 
2.43.0


From 7fa5b5045eb6379109411edc298c338971746cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 16/16] fix: g1::mapToCurve returned a point off the curve when
 the SWU point lies in the isogeny kernel

---
 src/g.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index 66c8e49..386fc5f 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -545,6 +545,11 @@ g1 g1::mapToCurve(const fp& e)
     fp x, y, z = fp::one();
     tie(x, y) = swuMapG1(e);
     isogenyMapG1(x, y);
+    if(x.isZero() && y.isZero())
+    {
+        // (0, 0) is not on the curve: x was in the kernel of the isogeny, which maps to the point at infinity
+        return g1::zero();
+    }
     g1 p({x, y, z});
     p = p.clearCofactor();
     return p;
-- 
2.43.0

