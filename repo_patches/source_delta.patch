From 05954f1d8d7a36c66cdcf9482403416e5691190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 01/29] fix: flip the sign of a big number with logical not

Negating the sign field gives -0 == 0 for a positive number and -1 for a
negative one, so 3 - 5 became +2 and -3 * -5 became a negative number.
---
 src/com/bignumber.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 48fffad..18b5749 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -974,7 +974,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t cw;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val.high = 0;
@@ -1001,7 +1001,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val = 0;
@@ -1081,7 +1081,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 
@@ -1121,7 +1121,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 	val = 0;
@@ -1961,7 +1961,7 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 
 	if (al == 1 && (*ad) < val) {
 		*ad = val - (*ad);
-		a->sign = -a->sign;
+		a->sign = !a->sign;
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From 1e6b0779729913aae40c8455695f3efdf3b0d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 02/29] fix: divide when the partial remainder equals the word
 divisor

BnDivInt, BnDivUInt and BnModUInt skipped the division step when the partial
value was equal to the divisor, so 4 / 4 gave quotient 0, remainder 4.
---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 18b5749..f940900 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1092,7 +1092,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1127,7 +1127,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1170,7 +1170,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1201,7 +1201,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1243,7 +1243,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high > 0 || val.low > divisor) {
+		if (val.high > 0 || val.low >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			_BnDiv128(val, divisor, &val.low);
@@ -1263,7 +1263,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > divisor) {
+		if (val >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			val %= (uint32_t)divisor;
-- 
2.43.0


From 2186b927c6351a6c44ae3f5bcf05b9d0e72f56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 03/29] fix: multiplying a big number by the word zero gives a
 one-word zero

The zero words were kept, and the result did not compare equal to zero.
---
 src/com/bignumber.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index f940900..cd57e22 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -973,6 +973,10 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
 		multiplier = -multiplier;
@@ -1000,6 +1004,10 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
 		multiplier = -multiplier;
@@ -1029,6 +1037,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val.high = 0;
 	val.low = 0;
 	for (i = 0; i < bn->length; i++) {
@@ -1051,6 +1063,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val = 0;
 	for (i = 0; i < bn->length; i++) {
 		val = (uint64_t)bn->data[i] * (uint32_t)multiplier + (val >> 32);
-- 
2.43.0


From 6434c415e422c0b4ebd66a3a5e30c08ed9858d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 04/29] fix: normal form of big numbers shifted to zero or from
 zero

Shifting zero left by more than a word kept zero words, shifting everything
out to the right by whole words left a number without words, and a left shift
by nearly 2^32 bits wrapped around and was reported as success.
---
 src/com/bignumber.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index cd57e22..4a8aea2 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1302,15 +1302,15 @@ int BnShiftL(struct RaBigNumber *bn, uint32_t bit)
 	bn_uint_t val;
 	bn_uint_t val_prev;
 
-	if (bit == 0) {
+	if (bit == 0 || BN_ISZERO(bn)) {
 		return RA_ERR_SUCCESS;
 	}
 
-	word = (bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
+	word = bit / BN_WORD_BIT + (bit % BN_WORD_BIT != 0);
 
 	if (bn->max_length < bn->length + word) {
 		// calculate the accurate required word length
-		word = (BnGetBitLength(bn) + bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
+		word = (int)(((uint64_t)BnGetBitLength(bn) + bit + BN_WORD_BIT - 1) / BN_WORD_BIT);
 		if (bn->max_length < word) {
 			assert(0);
 			return RA_ERR_NUMBER_SIZE;
@@ -1393,6 +1393,9 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 		while (src < bn_end) {
 			*dest++ = *src++;
 		}
+		if (dest == bn->data) {		// everything is shifted out
+			*dest++ = 0;
+		}
 	}
 
 	bn->length = (int)(intptr_t)(dest - bn->data);
-- 
2.43.0


From 63f5ac5e1dc91c19794c5b5b2039a97f5cbf791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 05/29] fix: comparison of zero results and of negative numbers
 with a word

a - a leaves a zero with the sign bit set, which BnCmp took for less than
zero. BnCmpUInt took every negative number with a zero lowest word for equal
to any word.
---
 src/com/bignumber.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 4a8aea2..4f069d9 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -260,6 +260,8 @@ int BnSetUByteArray(struct RaBigNumber *bn, const uint8_t *data, int len)
 // a < b : -1, a > b : 1, a = b : 0
 int BnCmp(struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	if (BN_ISZERO(a) && BN_ISZERO(b))
+		return 0;		// sign of zero is not significant
 	if (a->sign == 0) {
 		if (b->sign == 0)
 			return _BnCmp(a, b);
@@ -309,7 +311,7 @@ int BnCmpUInt(struct RaBigNumber *a, bn_uint_t val)
 		return 0;
 	}
 	else {
-		if (a->data[0] == 0)
+		if (BN_ISZERO(a) && val == 0)
 			return 0;
 		return -1;
 	}
-- 
2.43.0


From 4911d4fade2259595c77aea62f780ddaea6505c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 06/29] fix: check the result capacity against both operands of
 an addition

Only the first operand was checked, so a longer second operand was written
past the end of the result.
---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 4f069d9..e79af21 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1633,7 +1633,7 @@ static int _BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumb
 	int al;
 	int bl;
 
-	if (r->max_length < a->length) {
+	if (r->max_length < a->length || r->max_length < b->length) {
 		assert(0);
 		return RA_ERR_NUMBER_SIZE;
 	}
-- 
2.43.0


From dc576ba334e4d5427c0ee218b6372a98e08aed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 07/29] fix: keep the working remainder of BnMod in a temporary
 number

During the division the remainder may be one word longer than the divisor, so
a result of exactly the divisor's length was written past its end (GetGCD
allocates its remainders like that). The result may also be the divisor now.
---
 src/com/bignumber.c | 55 ++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index e79af21..7aa99d4 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -577,6 +577,8 @@ int BnSqr(struct RaBigNumber *r, struct RaBigNumber *a)
 // r = a % b
 int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	int result;
+	struct RaBigNumber *rr;		// remainder, one word longer than r may be
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
 	struct RaBigNumber *bq;		// b * q
@@ -601,18 +603,19 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (a->length < b->length) {
-		BnSet(r, a);
-		return RA_ERR_SUCCESS;
+		return BnSet(r, a);
 	}
 
 	aa = BnNewW(a->length + 1);		// a << n
 	bb = BnNewW(b->length + 1);		// b << n
 	bq = BnNewW(b->length + 1);		// b * qu(32bit)
+	rr = BnNewW(b->length + 1);
 
-	if (aa == NULL || bb == NULL || bq == NULL) {
+	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {
 		BN_SAFEFREE(aa);
 		BN_SAFEFREE(bb);
 		BN_SAFEFREE(bq);
+		BN_SAFEFREE(rr);
 		return RA_ERR_OUT_OF_MEMORY;
 	}
 
@@ -624,33 +627,33 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	BnShiftL(aa, (uint32_t)bit);
 	BnShiftL(bb, (uint32_t)bit);
 
-	// copy first bb->length-1 of aa->data to r
-	// this reduce loop count until r gets greater than bb
-	BnSetInt(r, 0);
+	// copy first bb->length-1 of aa->data to rr
+	// this reduce loop count until rr gets greater than bb
+	BnSetInt(rr, 0);
 	if (b->length > 1) {
-		memcpy(r->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
-		r->data[bb->length] = 0;
-		r->length = bb->length - 1;
+		memcpy(rr->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
+		rr->data[bb->length] = 0;
+		rr->length = bb->length - 1;
 	}
 
 	bu = bb->data[bb->length - 1];		// highst word of bb
 	ad = &aa->data[aa->length - bb->length];
-	rd = &r->data[bb->length - 1];
+	rd = &rr->data[bb->length - 1];
 
 #if BN_WORD_BYTE == 8
 	ru.high = 0;
 	ru.low = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 64);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 64);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length) {
+		if (rr->length > b->length) {
 			ru.low = *rd;
 			ru.high = *(rd + 1);
 		}
-		else if (r->length == b->length) {
+		else if (rr->length == b->length) {
 			ru.low = *rd;
 			ru.high = 0;
 		}
@@ -664,11 +667,11 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
@@ -677,13 +680,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	ru = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 32);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 32);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length)
+		if (rr->length > b->length)
 			ru = ((uint64_t)(*(rd + 1)) << 32) | (*rd);
-		else if (r->length == b->length)
+		else if (rr->length == b->length)
 			ru = *rd;
 		else
 			ru = 0;
@@ -696,25 +699,27 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
 	}
 #endif
 
-	BnShiftR(r, (uint32_t)bit);
-	r->sign = a->sign;
+	BnShiftR(rr, (uint32_t)bit);
+	rr->sign = a->sign;
+	result = BnSet(r, rr);
 
 	BnFree(aa);
 	BnFree(bb);
 	BnFree(bq);
+	BnFree(rr);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
-- 
2.43.0


From fc460f8d44850b55d53076016e457226995da416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 08/29] fix: round the quotient of BnDiv down for short
 dividends too

A dividend shorter than the divisor with the opposite sign gave quotient 0
instead of -1. The errors of the final adjustment are returned.
---
 src/com/bignumber.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 7aa99d4..4831240 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -724,6 +724,7 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	int result;
 	struct RaBigNumber *rr;
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
@@ -758,6 +759,12 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	}
 
 	if (a->length < b->length) {
+		if ((a->sign ^ b->sign) && !BN_ISZERO(a)) {
+			// the quotient is rounded down
+			result = BnAdd(r, a, b);
+			BnSetInt(q, -1);
+			return result;
+		}
 		BnSet(r, a);
 		BnSetInt(q, 0);
 		return RA_ERR_SUCCESS;
@@ -901,11 +908,12 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 
 	rr->sign = a->sign;
 	if (q->sign && !BN_ISZERO(rr)) {
-		BnSubInt(q, 1);
-		BnAdd(r, rr, b);
+		result = BnSubInt(q, 1);
+		if (result == RA_ERR_SUCCESS)
+			result = BnAdd(r, rr, b);
 	}
 	else {
-		BnSet(r, rr);
+		result = BnSet(r, rr);
 	}
 
 	BnFree(aa);
@@ -913,7 +921,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	BnFree(bq);
 	BnFree(rr);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 
-- 
2.43.0


From c6b7cf2a8fafb689102d86e7d2f30b6dcffefaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 09/29] fix: quotient overflow in the 32-bit and the portable
 128-bit division

The 32-bit BnDiv tested a stale word above the remainder for the overflow of
the quotient guess, and the portable _BnDiv128 had no overflow case.
---
 src/com/bignumber.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 4831240..c4e6da6 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -868,7 +868,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 			ru = 0;
 
 		if (ru >= bu) {
-			if  (*(rd + 1) == bu)		// overflow
+			if ((ru >> 32) == bu)		// overflow
 				qu = 0xFFFFFFFF;
 			else
 				qu = (uint32_t)(ru / bu);		// guess the quotient
@@ -2093,6 +2093,10 @@ static uint64_t _BnDiv128(bn_uint128_t a, uint64_t b, uint64_t *remainder)
 	bn_uint128_t bq;
 	int bit;
 
+	if (a.high >= b) {
+		// overflow
+		return UINT64_C(0xFFFFFFFFFFFFFFFF);
+	}
 	q = 0;
 
 	// make (ru / bu) fit to 32bit integer (ru = highst 64bit of r, bu = highst 32bit of bb)
-- 
2.43.0


From c7618364798d0bab8c53d103a01b213198a42c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 10/29] fix: random big numbers of every bit length

The mask of the highest word was computed in int, so lengths above 32 bits in
the last word were wrong. The sign of a reused number was kept, the error of
the generator was dropped, and BnGetRandomRSA wrote before the number for a
non-positive bit length.
---
 src/com/bignumber.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index c4e6da6..5ac34ce 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1441,6 +1441,7 @@ int BnGetBitLength(struct RaBigNumber *bn)
 
 int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
+	int result;
 	int word;
 
 	if (bit <= 0) {
@@ -1454,14 +1455,17 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 		return RA_ERR_NUMBER_SIZE;
 	}
 
-	BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	result = BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	if (result != RA_ERR_SUCCESS)
+		return result;
 
 	bit %= BN_WORD_BIT;
 
 	if (bit > 0) {
-		bn->data[word - 1] &= (1 << bit) - 1;
+		bn->data[word - 1] &= ((bn_uint_t)1 << bit) - 1;
 	}
 	bn->length = word;
+	bn->sign = 0;
 	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
 
@@ -1485,6 +1489,9 @@ int BnGetRandomRSA(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 	int ret;
 	int word;
 
+	if (bit <= 0)
+		return RA_ERR_INVALID_PARAM;
+
 	ret = BnGenRandom(bn, bit, rnd);
 	if (ret != RA_ERR_SUCCESS)
 		return ret;
-- 
2.43.0


From 9cfb2a54c56496ac607c2c44fccf64bebfcd0db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 11/29] fix: check the buffer and the number size when
 converting byte arrays

BnToByteArray wrote the sign byte before it checked the buffer length and used
a failed clone, and BnSetByteArray reported success for a negative number that
does not fit.
---
 src/com/bignumber.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 5ac34ce..6a5f114 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -242,7 +242,7 @@ static int _BnSetByteArray(struct RaBigNumber *bn, const uint8_t *data, int len,
 		bn->length--;
 	}
 	if (bn->sign)
-		BnSubInt(bn, 1);
+		return BnSubInt(bn, 1);
 
 	return RA_ERR_SUCCESS;
 }
@@ -1537,13 +1537,13 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 	if (bn->sign && !BN_ISZERO(bn)) {
 		struct RaBigNumber *neg;
 		neg = BnClone(bn);
+		if (neg == NULL) {
+			return 0;
+		}
 		BnAddInt(neg, 1);		// neg = ~bn + 1 = ~(bn + 1)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0xff;		// negative
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (neg->length - 1) * BN_WORD_BYTE;
@@ -1555,6 +1555,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 			BnFree(neg);
 			return 0;
 		}
+		if (offset > 0) {
+			buffer[0] = 0xff;		// negative
+		}
 		bit = (bit / 8) * 8;
 		for (i = neg->length - 1; i >= 0; i--) {
 			word = ~neg->data[i];
@@ -1573,9 +1576,6 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = bn->data[bn->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0x00;		// positive
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (bn->length - 1) * BN_WORD_BYTE;
@@ -1585,6 +1585,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		if (bufferlen < len) {
 			return 0;
 		}
+		if (offset > 0) {
+			buffer[0] = 0x00;		// positive
+		}
 		bit = (bit / 8) * 8;
 		for (i = bn->length - 1; i >= 0; i--) {
 			word = bn->data[i];
-- 
2.43.0


From 45df9372ff881b3fc35f10d98ab87ae85d038de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 12/29] fix: report gcd results that do not fit

GetGCD and GetGCDEx returned success although the result was not stored.
---
 src/com/gcd.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/com/gcd.c b/src/com/gcd.c
index 684f4eb..8424292 100644
--- a/src/com/gcd.c
+++ b/src/com/gcd.c
@@ -45,9 +45,7 @@ int GetGCD(/*out*/struct RaBigNumber *r, struct RaBigNumber *m, struct RaBigNumb
 		if (BnCmpUInt(r2, 0) == 0)
 			break;
 	}
-	BnSet(r, m);
-
-	result = RA_ERR_SUCCESS;
+	result = BnSet(r, m);
 _EXIT:
 	BN_SAFEFREE(r1);
 	BN_SAFEFREE(r2);
@@ -172,24 +170,27 @@ int GetGCDEx(/*out,nullable*/struct RaBigNumber *r, /*out*/struct RaBigNumber *a
 		t_0 = swap;
 	}
 	if (r != NULL) {
-		BnSet(r, m1);
+		result = BnSet(r, m1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 	if (a != NULL) {
 		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		if (isUnsigned && BN_ISNEG(s_1)) {
-			BnAdd(a, s_1, n);
+			result = BnAdd(a, s_1, n);
 		}
 		else {
-			BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
+			result = BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 	if (b != NULL) {
 		if (isUnsigned && BN_ISNEG(t_1)) {
-			BnAdd(b, t_1, m);
+			result = BnAdd(b, t_1, m);
 		}
 		else {
-			BnSet(b, t_1);
+			result = BnSet(b, t_1);
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 
 	result = RA_ERR_SUCCESS;
-- 
2.43.0


From 844cedfe27008faa95cbde5390315fb83690f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 13/29] fix: refuse even moduli for Montgomery exponentiation

The reduction needs a modulus coprime to the word base; with an even modulus
the results were silently wrong.
---
 src/com/montexpmod.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 7d6ad32..397ca5c 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -70,6 +70,10 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		result = RA_ERR_DIVIDED_BY_ZERO;
 		goto _EXIT;
 	}
+	if (BN_ISEVEN(N)) {
+		result = RA_ERR_INVALID_PARAM;
+		goto _EXIT;
+	}
 	ctx = (struct RaMontCtx*)malloc(sizeof(struct RaMontCtx));
 	if (ctx == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
-- 
2.43.0


From e2d32ba259fdab608e7272bd00a67394d63b29db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 14/29] fix: check the capacity of an accumulating addition

_BnAddR extended the number to the length of the addend without looking at its
capacity.
---
 src/com/bignumber.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 6a5f114..df083f0 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1807,6 +1807,10 @@ int _BnAddR(struct RaBigNumber *a, struct RaBigNumber *b)
 	al = a->length;
 	bl = b->length;
 
+	if (a->max_length < b->length) {
+		assert(0);
+		return RA_ERR_NUMBER_SIZE;
+	}
 	if (a->length < b->length) {
 		memset(a->data + a->length, 0, sizeof(bn_uint_t) * ((size_t)b->length - a->length));
 		a->length = b->length;
-- 
2.43.0


From 7d98545f186fbff92d5ba31b8ae311c65921ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 15/29] fix: primality test of 3 and of negative numbers

The search for a base between 1 and n - 1 never ended.
---
 src/com/prime.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 0f00fec..7011a59 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -286,10 +286,14 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	bn_uint_t data;
 	struct RaMontCtx *ctx = NULL;
 
-	if (BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) ) {
+	if (BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) || BN_ISNEG(bn)) {
 		*probable = BN_ISTWO(bn);
 		return RA_ERR_SUCCESS;
 	}
+	if (BnCmpUInt(bn, 3) == 0) {	// there is no base between 1 and n - 1
+		*probable = 1;
+		return RA_ERR_SUCCESS;
+	}
 
 	n1 = BnClone(bn);
 	BnSubInt(n1, 1);	// n1 = n - 1
-- 
2.43.0


From 7c8df5dbe167262c91e3e57f6d0a634d50aff961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 16/29] fix: generate primes of every bit length

Small candidates were thrown away when they were primes of the sieve table, so
lengths below 17 bits gave numbers that are too long or never ended, a carry
into the next bit was only noticed at 64 bits, and the error of the random
number was ignored. The temporary generator is released on errors.
---
 src/com/prime.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 7011a59..f5c2f89 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -385,6 +385,11 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	uint32_t add;
 	uint64_t val;
 	bn_uint_t mod;
+	int result;
+
+	if (bit < 2) {
+		return RA_ERR_INVALID_PARAM;
+	}
 
 	mods = malloc(NUM_PRIME * sizeof(uint32_t));
 	if (mods == NULL) {
@@ -392,7 +397,11 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	}
 
 	for (;;) {
-		BnGetRandomRSA(bn, bit, rnd);
+		result = BnGetRandomRSA(bn, bit, rnd);
+		if (result != RA_ERR_SUCCESS) {
+			free(mods);
+			return result;
+		}
 
 		for (i = 0; i < NUM_PRIME; i++) {
 			BnModUInt(bn, primes[i], &mod);
@@ -401,6 +410,10 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		add = 0;
 		for (;;) {
 			for (i = 0; i < NUM_PRIME; i++) {
+				if (bn->length == 1 && bn->data[0] + add == primes[i]) {
+					i = NUM_PRIME;		// a prime of the table
+					break;
+				}
 				if ((mods[i] + add) % primes[i] == 0) {
 					add += 2;
 					break;
@@ -415,10 +428,18 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		if (val + add < val)
 			continue;
 
+		result = BnAddUInt(bn, add);
+		if (result != RA_ERR_SUCCESS) {
+			free(mods);
+			return result;
+		}
+		// the highest word may be filled partly
+		if (BnGetBitLength(bn) != bit)
+			continue;
+
 		break;
 	}
 
-	BnAddUInt(bn, add);
 	free(mods);
 
 	return RA_ERR_SUCCESS;
@@ -457,21 +478,23 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 		}
 		result = GenProbablePrimeNumber(bn, bit, rnd);
 		if (result != RA_ERR_SUCCESS) {
-			return result;
+			goto _EXIT;
 		}
 
 		result = CheckMillerRabin(bn, checkCount, rnd, &isPrime);
 		if (result != RA_ERR_SUCCESS) {
-			return result;
+			goto _EXIT;
 		}
 		if (isPrime) {
 			break;
 		}
 	}
+	result = RA_ERR_SUCCESS;
+_EXIT:
 	if (tmpRnd != NULL)
 		RaRandomDestroy(tmpRnd);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int RaIsPrimeNumber(struct RaBigNumber *bn)
-- 
2.43.0


From 9cb2d74ebaea93f2cc397947f9d8ea60aba48683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 17/29] fix: failed allocations in primality test, modulus and
 key check

A failed allocation was used, and the clean-up of a partly created modulus
context freed uninitialised pointers.
---
 src/com/bignumber.c  | 2 ++
 src/com/montexpmod.c | 1 +
 src/com/prime.c      | 3 +++
 src/pk/rsa.c         | 4 ++++
 4 files changed, 10 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index df083f0..831dd1d 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -67,6 +67,8 @@ void BnFree(struct RaBigNumber * bn)
 
 void BnClearFree(struct RaBigNumber* bn)
 {
+	if (bn == NULL)
+		return;
 	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 397ca5c..e89e226 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -79,6 +79,7 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
+	memset(ctx, 0, sizeof(struct RaMontCtx));
 
 	B = BnNewW(2);
 	if (B == NULL) {
diff --git a/src/com/prime.c b/src/com/prime.c
index f5c2f89..76ed6d7 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -296,6 +296,9 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	}
 
 	n1 = BnClone(bn);
+	if (n1 == NULL) {
+		return RA_ERR_OUT_OF_MEMORY;
+	}
 	BnSubInt(n1, 1);	// n1 = n - 1
 
 	s = 0;
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f90f6ce..bb4be2f 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -221,6 +221,10 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	bit = BnGetBitLength(key->mod);
 	temp = BnNew(bit);
 	phi = BnNew(bit);
+	if (temp == NULL || phi == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 
 	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
 
-- 
2.43.0


From df5bc77e9ca8b2180c0ab6bf2bd84ec986294aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 18/29] fix: choose RSA primes for which the public exponent is
 invertible

When 65537 divides p - 1 or q - 1 the key had no valid private exponent.
---
 src/pk/rsa.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index bb4be2f..aa716ad 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -25,6 +25,7 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 	int result;
 	struct RaRsaKeyPair *key = NULL;
 	struct RaBigNumber *phi = NULL;
+	struct RaBigNumber *gcd = NULL;
 	struct RaRandom *rnd = NULL;
 
 	assert((bit % 2) == 0);
@@ -49,6 +50,7 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 	key->coeff = BnNew(bit);
 	key->mont = NULL;
 	phi = BnNew(bit);
+	gcd = BnNew(bit);
 
 	if (key->mod == NULL ||
 		key->pub == NULL ||
@@ -58,7 +60,8 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 		key->exp1 == NULL ||
 		key->exp2 == NULL ||
 		key->coeff == NULL ||
-		phi == NULL)
+		phi == NULL ||
+		gcd == NULL)
 	{
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
@@ -67,23 +70,25 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 	BnSetUInt(key->pub, 65537);
 
 	do {
-		result = RaGenPrimeNumberEx(key->prime1, bit / 2, NULL, NULL, rnd);
-		if (result != RA_ERR_SUCCESS) goto _EXIT;
-
 		do {
-			result = RaGenPrimeNumberEx(key->prime2, bit / 2, NULL, NULL, rnd);
+			result = RaGenPrimeNumberEx(key->prime1, bit / 2, NULL, NULL, rnd);
 			if (result != RA_ERR_SUCCESS) goto _EXIT;
-		} while ( BnCmp( key->prime1, key->prime2 ) == 0 );
 
-		BnMul(key->mod, key->prime1, key->prime2);
-	} while(BnGetBitLength(key->mod) != bit);
+			do {
+				result = RaGenPrimeNumberEx(key->prime2, bit / 2, NULL, NULL, rnd);
+				if (result != RA_ERR_SUCCESS) goto _EXIT;
+			} while ( BnCmp( key->prime1, key->prime2 ) == 0 );
+
+			BnMul(key->mod, key->prime1, key->prime2);
+		} while(BnGetBitLength(key->mod) != bit);
+
+		BnSubInt(key->prime1, 1);
+		BnSubInt(key->prime2, 1);
+		BnMul(phi, key->prime1, key->prime2);
+		result = GetGCDEx(gcd, key->priv, NULL, key->pub, phi, 1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+	} while (!BN_ISONE(gcd));		// the exponent must be invertible
 
-	BnSubInt(key->prime1, 1);
-	BnSubInt(key->prime2, 1);
-	BnMul(phi, key->prime1, key->prime2);
-	result = GetGCDEx(NULL, key->priv, NULL, key->pub, phi, 1);
-	if (result != RA_ERR_SUCCESS) goto _EXIT;
-	
 	//*
 	result = BnMod(key->exp1, key->priv, key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
@@ -106,6 +111,7 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 
 _EXIT:
 	BN_SAFEFREE(phi);
+	BN_SAFEFREE(gcd);
 	if (key != NULL) {
 		RaRsaDestroyKeyPair(key);
 	}
-- 
2.43.0


From fc563b829ff2f767027f11a82e296b9afa0bf26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 19/29] fix: key verification of the public exponent and of
 equal primes

An exponent of zero reached an assertion, and an exponent that is not coprime
to (p-1)(q-1) or a modulus that is a square was taken for valid.
---
 src/pk/rsa.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index aa716ad..e62bd74 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -218,6 +218,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	int bit;
 
 	CHECK_KEY_DATA(BnCmp(key->pub, key->mod) < 0);
+	CHECK_KEY_DATA(BnCmpUInt(key->pub, 1) > 0);
 
 	if (key->priv == NULL) {
 		result = RA_ERR_SUCCESS;
@@ -233,6 +234,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	}
 
 	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
+	CHECK_KEY_DATA(BnCmp(key->prime1, key->prime2) != 0);
 
 	result = RaIsPrimeNumber(key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
@@ -255,6 +257,11 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 
 	BnMul(phi, prime1Sub1, prime2Sub1);
 
+	result = GetGCD(temp, key->pub, phi);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
+
+	CHECK_KEY_DATA(BN_ISONE(temp));
+
 	result = GetGCDEx(NULL, temp, NULL, key->pub, phi, 1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
-- 
2.43.0


From d9b9db3869d7ba4fe67051a1e1db8ab689b3a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 20/29] fix: a signature that cannot be evaluated is not valid

RaRsaVerify ignored the error of the exponentiation, so a signature longer than
the modulus was accepted for the message 0.
---
 src/pk/rsa.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index e62bd74..f1a318c 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -191,7 +191,11 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
 
-	RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	result = RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	if (result != RA_ERR_SUCCESS) {
+		BnFree(decrypted);
+		return result;
+	}
 	result = BnCmp(message, decrypted);
 
 	BnFree(decrypted);
-- 
2.43.0


From 60cde4b85a33d7f0008efa42ad802ac82d57d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 21/29] fix: reject truncated identifiers, empty integers and
 unusable moduli in keys

The algorithm identifier was compared without looking at its length and an
integer without contents was read, both past the end of the data. A zero
modulus reached an assertion, and a negative integer starting with 0xff 0x00
could not be stored.
---
 src/pk/rsa.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f1a318c..2ff86cc 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -307,8 +307,12 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
+	if (node->dataLength <= 0) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	bit = node->dataLength * 8;
-	if (asn1Data[node->dataOffset] == 0x00 || asn1Data[node->dataOffset] == 0xff) {
+	if (asn1Data[node->dataOffset] == 0x00) {
 		bit -= 8;
 	}
 
@@ -362,6 +366,11 @@ int RaRsaCreateKeyPub(const uint8_t *asn1Data, int dataLen, /*out*/struct RaRsaK
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->pub);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
+	// the modulus is a positive odd number
+	if (BN_ISNEG(key->mod) || BN_ISEVEN(key->mod)) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	result = RaMontCreate(key->mod, &key->mont);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
@@ -439,6 +448,11 @@ int RaRsaCreateKeyPriv(const uint8_t *asn1Data, int dataLen, /*out*/struct RaRsa
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->coeff);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
+	// the modulus is a positive odd number
+	if (BN_ISNEG(key->mod) || BN_ISEVEN(key->mod)) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	result = RaMontCreate(key->mod, &key->mont);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
@@ -460,7 +474,7 @@ _EXIT:
 }
 
 #define OID_RSA_Encryption		"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01"		// 1.2.840.113549.1.1.1
-#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
+#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && (node)->dataLength == sizeof(oid)-1 && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
 
 
 // pkcs#8, byte array = BER
-- 
2.43.0


From 41387e355a8a1b82d25b552fe7d9fd3a9e65eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 22/29] fix: export keys with components that are much longer
 than the modulus

Such a component was written as an integer without contents.
---
 src/pk/rsa.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 2ff86cc..2216a4e 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -579,6 +579,12 @@ static int ASN1EncodeLength(uint32_t len, uint8_t *buffer, int bufferlen)
 	return ret;
 }
 
+static int ASN1MaxLength(int len, struct RaBigNumber *bn)
+{
+	int bnlen = BnToByteArray(bn, NULL, 0);
+	return bnlen > len ? bnlen : len;
+}
+
 static const uint8_t rsakeyHeader[] = {
 	0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00
 };
@@ -603,6 +609,14 @@ int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data,
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
+	// the components of an imported key may be longer than its modulus
+	bytelen = ASN1MaxLength(bytelen, key->pub);
+	bytelen = ASN1MaxLength(bytelen, key->priv);
+	bytelen = ASN1MaxLength(bytelen, key->prime1);
+	bytelen = ASN1MaxLength(bytelen, key->prime2);
+	bytelen = ASN1MaxLength(bytelen, key->exp1);
+	bytelen = ASN1MaxLength(bytelen, key->exp2);
+	bytelen = ASN1MaxLength(bytelen, key->coeff);
 	temp = (uint8_t*)malloc(bytelen);
 	if (temp == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
@@ -770,7 +784,7 @@ int RaRsaPubKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, i
 	int bytelen;
 	int len;
 	bit = BnGetBitLength(key->mod);
-	bytelen = bit * 8 + 1;	// max
+	bytelen = ASN1MaxLength(bit * 8 + 1, key->pub);	// max
 
 	temp = (uint8_t*)malloc(bytelen);
 	if (temp == NULL) {
-- 
2.43.0


From f3c9a034858b04da40d717c074eac0fa64614fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 23/29] fix: parse objects after nested and empty constructed
 objects

Only one level was left at the end of a constructed object, so an object after
a doubly nested one was lost, an empty constructed object ended the parsing,
and too deep nesting was not reported.
---
 src/pk/asn1.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index d8e2d60..a2c2180 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -187,19 +187,22 @@ static int ASN1Parse(struct RaAsn1Ctx *ctx)
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		if (ctx->cur->type & RA_ASN1_OBJ_TYPE_CONST) {
-			ASN1Push(ctx);
-			continue;
+			result = ASN1Push(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
 		}
-
-		if (ctx->dataIndex >= ctx->dataEnd ||
-			(ctx->cur->type == 0 && ctx->cur->dataLength == 0) ) {		// end-of-content
+		else if (ctx->cur->type == 0 && ctx->cur->dataLength == 0) {		// end-of-content
 			result = ASN1Pop(ctx);
 			if (result == RA_ERR_OUT_OF_BUFFER) {
-				result = RA_ERR_SUCCESS;
 				break;
 			}
 			if (result != RA_ERR_SUCCESS) goto _EXIT;
 		}
+
+		// leave every object that ends here
+		while (ctx->dataIndex >= ctx->dataEnd && ctx->dataSP > 0) {
+			result = ASN1Pop(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
+		}
 	};
 
 	result = RA_ERR_SUCCESS;
-- 
2.43.0


From e78ad59620acd5c9b29426690b08822292980efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 24/29] fix: random real numbers exclude zero, random integers
 of the full range

The documented open interval contained zero, and the size of the full 32-bit
range wrapped around to zero.
---
 src/com/random.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/com/random.c b/src/com/random.c
index c7618da..1d7af77 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -243,14 +243,14 @@ double RaRandom(struct RaRandom *ctx)
 
 	do {
 		RaRandomBytes(ctx, 4, rnd_buffer);
-		rnd_val = (rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
-	} while (rnd_val == UINT32_MAX);
+		rnd_val = ((uint32_t)rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
+	} while (rnd_val == 0 || rnd_val == UINT32_MAX);
 
 	return (double)rnd_val / UINT32_MAX;
 }
 
 uint32_t RaRandomInt(struct RaRandom *ctx, uint32_t min, uint32_t max)
 {
-	uint32_t range = max - min + 1;
+	double range = (double)max - min + 1;
 	return min + (uint32_t)(range * RaRandom(ctx));
 }
-- 
2.43.0


From ba1e9cabd9bb5d0f8ea8467705eff078526afdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 25/29] fix: lengths near INT_MAX in block cipher updates

The sum with the buffered length overflowed and the block buffer was overrun.
---
 src/cipher/block_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cipher/block_cipher.c b/src/cipher/block_cipher.c
index ccf2273..959d2e4 100644
--- a/src/cipher/block_cipher.c
+++ b/src/cipher/block_cipher.c
@@ -102,7 +102,7 @@ int RaBlockCipherEncrypt(struct RaBlockCipher *ctx, const uint8_t *input, int le
 	if (length <= 0)
 		return 0;
 
-	if (ctx->bufferFilled + length < ctx->blockSize) {
+	if (length < ctx->blockSize - ctx->bufferFilled) {
 		memcpy(ctx->buffer + ctx->bufferFilled, input, (size_t)length);
 		ctx->bufferFilled += length;
 		return 0;
@@ -174,7 +174,7 @@ int RaBlockCipherDecrypt(struct RaBlockCipher *ctx, const uint8_t *input, int le
 	if (length <= 0)
 		return 0;
 
-	if (ctx->bufferFilled + length < ctx->blockSize) {
+	if (length < ctx->blockSize - ctx->bufferFilled) {
 		memcpy(ctx->buffer + ctx->bufferFilled, input, (size_t)length);
 		ctx->bufferFilled += length;
 		return 0;
-- 
2.43.0


From c7a751d498c39b278cfe7fba66ef64eb8fac4043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 26/29] fix: clear released contexts and big numbers with a
 store the compiler keeps

The memset before free is a dead store, and gcc -O2 removed it everywhere.
---
 src/cipher/aes.c          |  2 +-
 src/cipher/aria.c         |  2 +-
 src/cipher/blowfish.c     |  2 +-
 src/cipher/des.c          |  2 +-
 src/cipher/rc4.c          |  2 +-
 src/cipher/seed.c         |  2 +-
 src/com/bignumber.c       |  2 +-
 src/com/montexpmod.c      |  2 +-
 src/com/random.c          | 12 ++++++------
 src/digest/has160.c       |  2 +-
 src/digest/md2.c          |  2 +-
 src/digest/md4.c          |  2 +-
 src/digest/md5.c          |  2 +-
 src/digest/sha1.c         |  2 +-
 src/digest/sha2.c         |  2 +-
 src/include/racrypt_com.h | 16 ++++++++++++++++
 src/pk/rsa.c              |  2 +-
 17 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/cipher/aes.c b/src/cipher/aes.c
index da5c555..5a67ed1 100644
--- a/src/cipher/aes.c
+++ b/src/cipher/aes.c
@@ -364,7 +364,7 @@ int RaAesCreate(const uint8_t *key, enum RaAesKeyType keyType, enum RaBlockCiphe
 void RaAesDestroy(struct RaAesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAesCtx));
+		RaClearMemory(ctx, sizeof(struct RaAesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/aria.c b/src/cipher/aria.c
index 0a060d0..f1fc729 100644
--- a/src/cipher/aria.c
+++ b/src/cipher/aria.c
@@ -358,7 +358,7 @@ int RaAriaCreate(const uint8_t *key, enum RaAriaKeyType keyType, enum RaBlockCip
 void RaAriaDestroy(struct RaAriaCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAriaCtx));
+		RaClearMemory(ctx, sizeof(struct RaAriaCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/blowfish.c b/src/cipher/blowfish.c
index 2c3707a..e95a90d 100644
--- a/src/cipher/blowfish.c
+++ b/src/cipher/blowfish.c
@@ -317,7 +317,7 @@ int RaBlowfishCreate(const uint8_t *key, int keyLen, enum RaBlockCipherMode opMo
 void RaBlowfishDestroy(struct RaBlowfishCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaBlowfishCtx));
+		RaClearMemory(ctx, sizeof(struct RaBlowfishCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/des.c b/src/cipher/des.c
index 3d5a7f4..20fccd8 100644
--- a/src/cipher/des.c
+++ b/src/cipher/des.c
@@ -569,7 +569,7 @@ int RaDesCreate(const uint8_t *key, enum RaDesKeyType keyType, enum RaBlockCiphe
 void RaDesDestroy(struct RaDesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaDesCtx));
+		RaClearMemory(ctx, sizeof(struct RaDesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/rc4.c b/src/cipher/rc4.c
index 5f08f42..a418f0c 100644
--- a/src/cipher/rc4.c
+++ b/src/cipher/rc4.c
@@ -22,7 +22,7 @@ int RaRc4Create(const uint8_t* key, int keyLen, struct RaRc4Ctx** ctxp)
 void RaRc4Destroy(struct RaRc4Ctx* ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaRc4Ctx));
+		RaClearMemory(ctx, sizeof(struct RaRc4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/seed.c b/src/cipher/seed.c
index 7c8bd69..11612ab 100644
--- a/src/cipher/seed.c
+++ b/src/cipher/seed.c
@@ -322,7 +322,7 @@ int RaSeedCreate(const uint8_t *key, enum RaBlockCipherMode opMode, struct RaSee
 void RaSeedDestroy(struct RaSeedCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSeedCtx));
+		RaClearMemory(ctx, sizeof(struct RaSeedCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 831dd1d..766683a 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -69,7 +69,7 @@ void BnClearFree(struct RaBigNumber* bn)
 {
 	if (bn == NULL)
 		return;
-	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
+	RaClearMemory(bn, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
 
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index e89e226..7181463 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -134,7 +134,7 @@ void RaMontDestroy(struct RaMontCtx* ctx)
 		BnClearFree(ctx->BB);
 		BnClearFree(ctx->tmp);
 		BnClearFree(ctx->mul);
-		memset(ctx, 0, sizeof(struct RaMontCtx));
+		RaClearMemory(ctx, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/random.c b/src/com/random.c
index 1d7af77..c35be23 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -40,7 +40,7 @@ int RaRandomCreate(enum RaRandomAlgorithm algorithm, uint8_t *seed, int seed_len
 	}
 	result = RaRandomInit(ctx, algorithm, seed, seed_len);
 	if (result != RA_ERR_SUCCESS) {
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 		return result;
 	}
@@ -68,7 +68,7 @@ void RaRandomDestroy(struct RaRandom *ctx)
 				break;
 			}
 		}
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 	}
 }
@@ -111,7 +111,7 @@ static int RaRandomInit(struct RaRandom *ctx, enum RaRandomAlgorithm algorithm,
 	}
 
 	RaRandomUpdate(ctx, seed, seed_len);
-	memset(default_seed, 0, RA_RAND_SEED_LEN);
+	RaClearMemory(default_seed, RA_RAND_SEED_LEN);
 
 	return RA_ERR_SUCCESS;
 }
@@ -194,7 +194,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaMd5Update((struct RaMd5Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.md5_ctx, ctx->alg_ctx, sizeof(struct RaMd5Ctx));
 		RaMd5Final(&alg_ctx.md5_ctx, ctx->buffer);
-		memset(&alg_ctx.md5_ctx, 0, sizeof(struct RaMd5Ctx));
+		RaClearMemory(&alg_ctx.md5_ctx, sizeof(struct RaMd5Ctx));
 		break;
 	case RA_RAND_SHA512:
 	case RA_RAND_SHA256:
@@ -202,7 +202,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaSha2Update((struct RaSha2Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.sha2_ctx, ctx->alg_ctx, sizeof(struct RaSha2Ctx));
 		RaSha2Final(&alg_ctx.sha2_ctx, ctx->buffer);
-		memset(&alg_ctx.sha2_ctx, 0, sizeof(struct RaSha2Ctx));
+		RaClearMemory(&alg_ctx.sha2_ctx, sizeof(struct RaSha2Ctx));
 		break;
 	case RA_RAND_SHA160:
 	default:
@@ -210,7 +210,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaSha1Update((struct RaSha1Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.sha1_ctx, ctx->alg_ctx, sizeof(struct RaSha1Ctx));
 		RaSha1Final(&alg_ctx.sha1_ctx, ctx->buffer);
-		memset(&alg_ctx.sha1_ctx, 0, sizeof(struct RaSha1Ctx));
+		RaClearMemory(&alg_ctx.sha1_ctx, sizeof(struct RaSha1Ctx));
 		break;
 	}
 	ctx->buffer_offset = 0;
diff --git a/src/digest/has160.c b/src/digest/has160.c
index 30a367a..16dee4c 100644
--- a/src/digest/has160.c
+++ b/src/digest/has160.c
@@ -34,7 +34,7 @@ int RaHas160Create(struct RaHas160Ctx **ctxp)
 void RaHas160Destroy(struct RaHas160Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaHas160Ctx));
+		RaClearMemory(ctx, sizeof(struct RaHas160Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md2.c b/src/digest/md2.c
index d25a2a0..e037a8b 100644
--- a/src/digest/md2.c
+++ b/src/digest/md2.c
@@ -48,7 +48,7 @@ int RaMd2Create(struct RaMd2Ctx **ctxp)
 void RaMd2Destroy(struct RaMd2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd2Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md4.c b/src/digest/md4.c
index 3a8ef2e..85ddd49 100644
--- a/src/digest/md4.c
+++ b/src/digest/md4.c
@@ -39,7 +39,7 @@ int RaMd4Create(struct RaMd4Ctx **ctxp)
 void RaMd4Destroy(struct RaMd4Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd4Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md5.c b/src/digest/md5.c
index 67fca1d..8e770e7 100644
--- a/src/digest/md5.c
+++ b/src/digest/md5.c
@@ -41,7 +41,7 @@ int RaMd5Create(struct RaMd5Ctx **ctxp)
 void RaMd5Destroy(struct RaMd5Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd5Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd5Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha1.c b/src/digest/sha1.c
index eabed91..ce0c850 100644
--- a/src/digest/sha1.c
+++ b/src/digest/sha1.c
@@ -30,7 +30,7 @@ int RaSha1Create(struct RaSha1Ctx **ctxp)
 void RaSha1Destroy(struct RaSha1Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha1Ctx));
+		RaClearMemory(ctx, sizeof(struct RaSha1Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index fac0c6b..df27cb6 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -35,7 +35,7 @@ int RaSha2Create(enum RaDigestAlgorithm algorithm, struct RaSha2Ctx **ctxp)
 void RaSha2Destroy(struct RaSha2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha2Ctx));
+		RaClearMemory(ctx, sizeof(struct RaSha2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/include/racrypt_com.h b/src/include/racrypt_com.h
index edb8046..7d36fcd 100644
--- a/src/include/racrypt_com.h
+++ b/src/include/racrypt_com.h
@@ -3,6 +3,8 @@
 #ifndef __RA_COM_H__
 #define __RA_COM_H__
 
+#include <string.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -15,6 +17,20 @@ extern "C" {
 #define RA_ERR_INVALID_PARAM				(-5)
 #define RA_ERR_INVALID_DATA					(-6)
 
+/**
+* @brief Clear memory that is not used any more. Unlike a call of memset, it is not removed by the compiler.
+*/
+static inline void RaClearMemory(void *ptr, size_t len)
+{
+#if defined(__GNUC__) || defined(__clang__)
+	memset(ptr, 0, len);
+	__asm__ __volatile__("" : : "r"(ptr) : "memory");
+#else
+	volatile unsigned char *p = (volatile unsigned char *)ptr;
+	while (len-- > 0)
+		*p++ = 0;
+#endif
+}
 
 #ifdef __cplusplus
 }
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 2216a4e..6fbb495 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -153,7 +153,7 @@ void RaRsaDestroyKeyPair(struct RaRsaKeyPair *key)
 	if (key->mont != NULL) {
 		RaMontDestroy(key->mont);
 	}
-	memset(key, 0, sizeof(struct RaRsaKeyPair));
+	RaClearMemory(key, sizeof(struct RaRsaKeyPair));
 	free(key);
 }
 
-- 
2.43.0


From c91dab5f251fac912b67257b9f4b0f37e3089509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:02 +0000
Subject: [PATCH 27/29] fix: BnDouble loses carries when the result is the
 operand

---
 src/com/bignumber.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 766683a..080ac64 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -365,6 +365,7 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 {
 	int i;
 	int c;
+	int n;
 	bn_uint_t *rd;
 	bn_uint_t *ad;
 
@@ -378,8 +379,9 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 	ad = &a->data[0];
 	r->length = a->length;
 	for (i = 0; i < a->length; i++) {
+		n = (int)(((*ad) >> (BN_WORD_BIT - 1)) & 1);
 		*rd = ((*ad) << 1) + c;
-		c = (int)(((*ad) >> (BN_WORD_BIT - 1)) & 1);
+		c = n;
 		ad++;
 		rd++;
 	}
-- 
2.43.0


From 6e4d1af68478b464b676e441c8920eba96f81cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 28/29] fix: take the seed from descriptor 0 of the random
 device too

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index c35be23..7504666 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -156,7 +156,7 @@ static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN
 	int size;
 	result = RA_ERR_INVALID_DATA;
 	fd = open("/dev/urandom", O_RDONLY);
-	if (fd > 0) {
+	if (fd >= 0) {
 		size = read(fd, seedBytes, RA_RAND_SEED_LEN - 4);
 		if (size == RA_RAND_SEED_LEN - 4) {
 			result = RA_ERR_SUCCESS;
-- 
2.43.0


From 1d02acb26248a2a40d6ac4029012dcf8f1f61173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 29/29] fix: signs of a division whose quotient is stored in an
 operand

---
 src/com/bignumber.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 080ac64..d0e6436 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -906,15 +906,17 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 		q->length = 1;
 		q->data[0] = 0;
 	}
-	q->sign = a->sign ^ b->sign;
+	// q may be a or b
+	q->sign = aa->sign ^ bb->sign;
 
 	BnShiftR(rr, (uint32_t)bit);
+	BnShiftR(bb, (uint32_t)bit);
 
-	rr->sign = a->sign;
+	rr->sign = aa->sign;
 	if (q->sign && !BN_ISZERO(rr)) {
 		result = BnSubInt(q, 1);
 		if (result == RA_ERR_SUCCESS)
-			result = BnAdd(r, rr, b);
+			result = BnAdd(r, rr, bb);
 	}
 	else {
 		result = BnSet(r, rr);
-- 
2.43.0

