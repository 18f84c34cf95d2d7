From 2792610ba43511fc798f415bbb8222548ebdc0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 1/9] fix: reduce the message hash modulo the order when
 signing

---
 cpp/Ecdsa.cpp                            | 3 ++-
 java/io/nayuki/bitcoin/crypto/Ecdsa.java | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/Ecdsa.cpp b/cpp/Ecdsa.cpp
index 46f8c4a..1da5230 100644
--- a/cpp/Ecdsa.cpp
+++ b/cpp/Ecdsa.cpp
@@ -48,7 +48,8 @@ bool Ecdsa::sign(const Uint256 &privateKey, const Sha256Hash &msgHash, const Uin
 	countOps(1 * curvepointCopyOps);
 	
 	Uint256 s = r;
-	const Uint256 z(msgHash.value);
+	Uint256 z(msgHash.value);
+	z.subtract(order, static_cast<uint32_t>(z >= order));
 	multiplyModOrder(s, privateKey);
 	uint32_t carry = s.add(z);
 	s.subtract(order, carry | static_cast<uint32_t>(s >= order));
diff --git a/java/io/nayuki/bitcoin/crypto/Ecdsa.java b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
index 692e67a..c021c94 100644
--- a/java/io/nayuki/bitcoin/crypto/Ecdsa.java
+++ b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
@@ -72,6 +72,7 @@ public final class Ecdsa {
 		Int256Math.copy(val, rOff, val, sOff);
 		Arrays.fill(val, zOff, zOff + NUM_WORDS, 0);
 		Int256Math.bytesToUint(msgHash.toBytes(), val, zOff);
+		Int256Math.uintSubtract(val, zOff, orderOff, Int256Math.lessThan(val, zOff, orderOff) ^ 1, zOff);
 		multiplyModOrder(val, sOff, privateKey, 0, tempOff);
 		int carry = Int256Math.uintAdd(val, sOff, zOff, 1, sOff);
 		Int256Math.uintSubtract(val, sOff, orderOff, carry | (Int256Math.lessThan(val, sOff, orderOff) ^ 1), sOff);
-- 
2.43.0


From 4dedcd2b9e92a20c7209d51dbf348e6948e72f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 2/9] fix: reject mixed-case Bech32 strings when uppercase
 comes first

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 7cd285a..74911ec 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -216,16 +216,18 @@ public final class Bech32 {
 		
 		{  // Normalize to lowercase, rejecting mixed case
 			boolean hasLower = false;
+			boolean hasUpper = false;
 			char[] temp = s.toCharArray();
 			for (int i = 0; i < temp.length; i++) {
 				char c = temp[i];
 				hasLower |= 'a' <= c && c <= 'z';
 				if ('A' <= c && c <= 'Z') {
-					if (hasLower)
-						throw new IllegalArgumentException("String has mixed case");
+					hasUpper = true;
 					temp[i] += 'a' - 'A';
 				}
 			}
+			if (hasLower && hasUpper)
+				throw new IllegalArgumentException("String has mixed case");
 			s = new String(temp);
 		}
 		
-- 
2.43.0


From d353fe21cc70ccaf6ac91c66d288c62dfb065dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 3/9] fix: reject segwit addresses with a whole group of
 padding

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 74911ec..1db6b40 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -140,6 +140,8 @@ public final class Bech32 {
 		assert outputIndex == witProg.length;
 		if (bitBuffer != 0)
 			throw new IllegalArgumentException("Non-zero padding");
+		if (bitBufferLen >= IN_BITS)
+			throw new IllegalArgumentException("Excess padding");
 		return new Object[]{decoded[0], witVer, witProg};
 	}
 	
-- 
2.43.0


From 7762d20d467d4d170dd0151912eb39594aef670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 4/9] fix: report too-short Base58Check strings as illegal
 arguments

---
 java/io/nayuki/bitcoin/crypto/Base58Check.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Base58Check.java b/java/io/nayuki/bitcoin/crypto/Base58Check.java
index 6f3acc8..7ef580f 100644
--- a/java/io/nayuki/bitcoin/crypto/Base58Check.java
+++ b/java/io/nayuki/bitcoin/crypto/Base58Check.java
@@ -63,6 +63,8 @@ public final class Base58Check {
 	// The caller is responsible for handling the version byte(s).
 	public static byte[] base58ToBytes(String s) {
 		byte[] concat = base58ToRawBytes(s);
+		if (concat.length < 4)
+			throw new IllegalArgumentException("Data too short");
 		byte[] data = Arrays.copyOf(concat, concat.length - 4);
 		byte[] hash = Arrays.copyOfRange(concat, concat.length - 4, concat.length);
 		byte[] rehash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);
-- 
2.43.0


From 7182a1de3e3bdcd5caa793739e42398d589a414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 5/9] fix: initialize the selected table entry in
 CurvePointMath.multiply

---
 java/io/nayuki/bitcoin/crypto/CurvePointMath.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/io/nayuki/bitcoin/crypto/CurvePointMath.java b/java/io/nayuki/bitcoin/crypto/CurvePointMath.java
index 791834c..d4334d4 100644
--- a/java/io/nayuki/bitcoin/crypto/CurvePointMath.java
+++ b/java/io/nayuki/bitcoin/crypto/CurvePointMath.java
@@ -212,6 +212,7 @@ public final class CurvePointMath {
 		// Process tableBits bits per iteration (windowed method)
 		copy(ZERO_POINT, 0, val, pOff);
 		int qOff = tempOff + tableLen * POINT_WORDS;
+		copy(ZERO_POINT, 0, val, qOff);
 		for (int i = Int256Math.NUM_WORDS * 32 - tableBits; i >= 0; i -= tableBits) {
 			int inc = (val[nOff + (i >>> 5)] >>> (i & 31)) & (tableLen - 1);
 			for (int j = 0; j < tableLen; j++)
-- 
2.43.0


From 6ee79faaff4f4151a9dfe02c9cc684ed91182f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 6/9] fix: avoid overflow of the halved modulus in reciprocal
 for 2^256-1

---
 cpp/Uint256.cpp                               | 2 +-
 java/io/nayuki/bitcoin/crypto/Int256Math.java | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/Uint256.cpp b/cpp/Uint256.cpp
index 224b6c2..de785ea 100644
--- a/cpp/Uint256.cpp
+++ b/cpp/Uint256.cpp
@@ -147,8 +147,8 @@ void Uint256::reciprocal(const Uint256 &modulus) {
 	Uint256 b = ONE;
 	Uint256 halfModulus = modulus;
 	countOps(5 * uint256CopyOps);
-	halfModulus.add(ONE);
 	halfModulus.shiftRight1();
+	halfModulus.add(ONE);
 	
 	// Loop invariant: x = a*this mod modulus, and y = b*this mod modulus
 	for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {
diff --git a/java/io/nayuki/bitcoin/crypto/Int256Math.java b/java/io/nayuki/bitcoin/crypto/Int256Math.java
index 702dd31..6e7a2f0 100644
--- a/java/io/nayuki/bitcoin/crypto/Int256Math.java
+++ b/java/io/nayuki/bitcoin/crypto/Int256Math.java
@@ -177,8 +177,8 @@ public final class Int256Math {
 		copy(ZERO, 0,   val, cOff);
 		copy(ONE , 0,   val, dOff);
 		copy(ONE, 0, val, oneOff);
-		uintAdd(val, yOff, oneOff, 1, halfModOff);
-		uintShiftRight1(val, halfModOff, 1, halfModOff);
+		uintShiftRight1(val, yOff, 1, halfModOff);
+		uintAdd(val, halfModOff, oneOff, 1, halfModOff);
 		
 		// Loop invariant: a = c*x mod y, and b = d*x mod y
 		for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {
-- 
2.43.0


From 52ec5ade0fce5515de1a54a4dc4fbb70d65fd3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 7/9] fix: do not require 16-byte alignment in asm replace and
 equalTo

---
 cpp/AsmX8664.s | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 34a1509..432482d 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -96,8 +96,10 @@ asm_Uint256_replace:
 	pshufd    $0, %xmm0, %xmm0
 	movdqu     0(%rdi), %xmm1
 	movdqu    16(%rdi), %xmm2
-	pblendvb   0(%rsi), %xmm1
-	pblendvb  16(%rsi), %xmm2
+	movdqu     0(%rsi), %xmm3
+	movdqu    16(%rsi), %xmm4
+	pblendvb  %xmm3, %xmm1
+	pblendvb  %xmm4, %xmm2
 	movdqu    %xmm1,  0(%rdi)
 	movdqu    %xmm2, 16(%rdi)
 	retq
@@ -131,8 +133,10 @@ asm_Uint256_swap:
 asm_Uint256_equalTo:
 	movdqu     0(%rdi), %xmm0
 	movdqu    16(%rdi), %xmm1
-	pcmpeqb    0(%rsi), %xmm0
-	pcmpeqb   16(%rsi), %xmm1
+	movdqu     0(%rsi), %xmm2
+	movdqu    16(%rsi), %xmm3
+	pcmpeqb   %xmm2, %xmm0
+	pcmpeqb   %xmm3, %xmm1
 	pand      %xmm1, %xmm0
 	pmovmskb  %xmm0, %eax
 	cmpl      $0xFFFF, %eax
-- 
2.43.0


From 693e4543f5385eefa3c50635ac4a3a326f6feb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 8/9] fix: ignore the unspecified upper register half of the
 asm enable arguments

---
 cpp/AsmX8664.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 432482d..ed13c1e 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -10,6 +10,7 @@
 /* uint32_t asm_Uint256_add(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_add
 asm_Uint256_add:
+	movl    %edx, %edx  /* The upper half of a 32-bit argument's register is unspecified */
 	negq    %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
@@ -31,6 +32,7 @@ asm_Uint256_add:
 /* uint32_t asm_Uint256_subtract(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_subtract
 asm_Uint256_subtract:
+	movl    %edx, %edx  /* The upper half of a 32-bit argument's register is unspecified */
 	negq    %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
-- 
2.43.0


From f2bc4c25a9d7374cdacdfe4ee3237e855d66f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 9/9] fix: reject Bech32 data whose length overflows the total

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 1db6b40..4254fe7 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -172,7 +172,7 @@ public final class Bech32 {
 			if ((b >>> 5) != 0)
 				throw new IllegalArgumentException("Expected 5-bit groups");
 		}
-		if (human.length + 1 + data.length + 6 > 90)
+		if (data.length > 90 - 6 - 1 - human.length)
 			throw new IllegalArgumentException("Output too long");
 		
 		// Compute checksum
-- 
2.43.0

