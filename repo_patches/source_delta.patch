From f52209f77d1f8622e681c4d01e3a43e3dd30b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 001/138] fix: integer parsing must not read past the given
 length while skipping whitespace

---
 base/data/m_str_num.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index fec26e3..2b84a04 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -31,7 +31,7 @@ M_BEGIN_IGNORE_DEPRECATIONS
 
 static void eat_whitespace(const char **s, size_t *len)
 {
-	for (; M_chr_isspace(**s) && *len; (*s)++, (*len)--)
+	for (; *len && M_chr_isspace(**s); (*s)++, (*len)--)
 		;
 }
 
-- 
2.43.0


From d6e5b162fe863497cfe671076d02c5b754144e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 002/138] fix: integer parsing recognises the 0x prefix when
 digits follow it

---
 base/data/m_str_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index 2b84a04..ab92de4 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -123,7 +123,7 @@ static void M_str_intconv_prep(const char **s, size_t *len, unsigned char *base,
 
 	/* Auto-determine base */
 	if (*base == 0) {
-		if (*len >= 2 && M_str_caseeq_max(*s, "0x", *len)) {
+		if (*len >= 2 && M_str_caseeq_max(*s, "0x", 2)) {
 			*base = 16;
 		} else if (*len >= 1 && **s== '0') {
 			*base = 8;
@@ -133,7 +133,7 @@ static void M_str_intconv_prep(const char **s, size_t *len, unsigned char *base,
 	}
 
 	/* Hex is allowed a 0x prefix ... strip it */
-	if (*base == 16 && *len >= 2 && M_str_caseeq_max(*s, "0x", *len)) {
+	if (*base == 16 && *len >= 2 && M_str_caseeq_max(*s, "0x", 2)) {
 		(*s) += 2;
 		(*len)    -= 2;
 	}
-- 
2.43.0


From aada49b802f8dcc2148c5e855d8cfa14cb584760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 003/138] fix: integer parsing detects every 64bit overflow

---
 base/data/m_str_num.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index ab92de4..4115e72 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -90,7 +90,7 @@ static M_str_int_retval_t M_str_to_uint64_int(const char *s, size_t len, unsigne
 			break;
 
 		v = ret * base + digit;
-		if (v < ret) {
+		if (ret > M_UINT64_MAX / base || v < digit) {
 			overflow = M_true;
 			/* Don't stop consuming valid characters
 			 * break; */
-- 
2.43.0


From a9c1a9aa8a5a211ec7342c749dc5960b9abebf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 004/138] fix: clearing malloc error callbacks clears every
 slot

---
 base/mem/m_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/mem/m_mem.c b/base/mem/m_mem.c
index 87bf5b6..16ffef6 100644
--- a/base/mem/m_mem.c
+++ b/base/mem/m_mem.c
@@ -131,7 +131,7 @@ void M_malloc_clear_errorcb(void)
 	if (error_cbs_cnt <= 1)
 		return;
 
-	M_mem_set(error_cbs+1, 0, (sizeof(error_cbs)/sizeof(*error_cbs))-1); 
+	M_mem_set(error_cbs+1, 0, sizeof(error_cbs)-sizeof(*error_cbs));
 	error_cbs_cnt = 1;
 }
 
-- 
2.43.0


From 4825cee8a5aea86784174e658cdb2754f5ed47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 005/138] fix: decimal rounding by 20 or more places

---
 base/math/m_round.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/math/m_round.c b/base/math/m_round.c
index 024fb0a..81ae610 100644
--- a/base/math/m_round.c
+++ b/base/math/m_round.c
@@ -33,6 +33,10 @@ M_uint64 M_uint64_prec_round(M_uint64 num, int currentDecimals, int wantedDecima
 	if (wantedDecimals >= currentDecimals)
 		return num;
 
+	/* 10^20 doesn't fit in 64 bits. Every value is less than half of it, so it always rounds to zero. */
+	if ((M_int64)currentDecimals - wantedDecimals >= 20)
+		return 0;
+
 	/* coverity[return_constant : FALSE] */
 	roundDivisor = M_uint64_exp(10, currentDecimals-wantedDecimals);
 
-- 
2.43.0


From b58d8745fdda9bdd734bad311365c126aed6b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 006/138] fix: decimal compare is exact when operands have no
 common scale

---
 base/math/m_decimal.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 9104b4f..65faf64 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -522,8 +522,7 @@ M_int8 M_decimal_cmp(const M_decimal_t *dec1, const M_decimal_t *dec2)
 {
 	M_decimal_t           tdec1;
 	M_decimal_t           tdec2;
-	M_uint8               wanted_dec;
-	M_uint8               num_dec;
+	M_int8                sign;
 
 	/* Invalid scenarios, but do something somewhat logical */
 	if (dec1 && !dec2)
@@ -539,20 +538,16 @@ M_int8 M_decimal_cmp(const M_decimal_t *dec1, const M_decimal_t *dec2)
 	M_decimal_duplicate(&tdec2, dec2);
 	M_decimal_reduce(&tdec2);
 
-	wanted_dec = M_MAX(tdec1.num_dec, tdec2.num_dec);
-
-	/* Loop until both numbers can be represented by the same number of
-	 * decimal places */
-	num_dec    = wanted_dec;
-	while (num_dec) {
-		M_decimal_duplicate(&tdec1, dec1);
-		M_decimal_duplicate(&tdec2, dec2);
-
-		if (M_decimal_transform(&tdec1, num_dec, M_DECIMAL_ROUND_TRADITIONAL) == M_DECIMAL_SUCCESS &&
-		    M_decimal_transform(&tdec2, num_dec, M_DECIMAL_ROUND_TRADITIONAL) == M_DECIMAL_SUCCESS) {
-			break;
-		}
-		num_dec--;
+	/* Bring both to the larger number of decimal places. If that overflows the
+	 * magnitude exceeds everything the other one can hold, so the sign decides */
+	if (tdec1.num_dec < tdec2.num_dec) {
+		sign = tdec1.num < 0 ? -1 : 1;
+		if (M_decimal_transform(&tdec1, tdec2.num_dec, M_DECIMAL_ROUND_NONE) != M_DECIMAL_SUCCESS)
+			return sign;
+	} else {
+		sign = tdec2.num < 0 ? 1 : -1;
+		if (M_decimal_transform(&tdec2, tdec1.num_dec, M_DECIMAL_ROUND_NONE) != M_DECIMAL_SUCCESS)
+			return sign;
 	}
 
 	if (tdec1.num > tdec2.num)
-- 
2.43.0


From 8b5c77fcb8df44d0d394ca06f2dff7ed65331cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 007/138] fix: decimal divide detects overflow of the combined
 result

---
 base/math/m_decimal.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 65faf64..beca3a5 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -431,15 +431,19 @@ enum M_DECIMAL_RETVAL M_decimal_divide(M_decimal_t *dest, const M_decimal_t *dec
 		afterdecrv = M_DECIMAL_TRUNCATION;
 
 	/* Loop losing precision until we can represent the number appropriately */
-	while (wanted_dec) {
+	while (1) {
 		M_int64 exp;
 
 		if ((rv = M_decimal_exp_int64(&exp, 10, wanted_dec)) != M_DECIMAL_SUCCESS)
 			return rv;
 
 		rv = M_decimal_mult_int64(&dest->num, num, exp);
+		if (rv == M_DECIMAL_SUCCESS)
+			rv = M_decimal_add_int64(&dest->num, dest->num, afterdec);
 		if (rv == M_DECIMAL_SUCCESS)
 			break;
+		if (wanted_dec == 0)
+			return rv;
 
 		/* Otherwise overflow occurred trying to store such a big number, so we need
 		 * to truncate.  However, if we're truncating zeros, that's fine */
@@ -449,10 +453,6 @@ enum M_DECIMAL_RETVAL M_decimal_divide(M_decimal_t *dest, const M_decimal_t *dec
 		wanted_dec--;
 	}
 
-	if (wanted_dec) {
-		dest->num += afterdec;
-	}
-
 	dest->num_dec = wanted_dec;
 
 	if (afterdecrv == M_DECIMAL_TRUNCATION || preprv == M_DECIMAL_TRUNCATION) {
-- 
2.43.0


From 597221190665e71b364537b868424ec2b807075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 008/138] fix: decimal to string with more decimals than fit in
 64 bits

---
 base/math/m_decimal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index beca3a5..d2e24a8 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -623,7 +623,9 @@ enum M_DECIMAL_RETVAL M_decimal_to_str(const M_decimal_t *dec, char *buf, size_t
 	ptr_len--;
 
 	/* Output digits after decimal */
-	M_snprintf(ptr, ptr_len, "%0*llu", (int)dec->num_dec, num % M_uint64_exp(10, dec->num_dec));
+	if (dec->num_dec < num_digits)
+		num %= M_uint64_exp(10, dec->num_dec);
+	M_snprintf(ptr, ptr_len, "%0*llu", (int)dec->num_dec, num);
 
 	return M_DECIMAL_SUCCESS;
 }
-- 
2.43.0


From 7263522e35b7ae60aec1699328d36889bd3d4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 009/138] fix: decimal multiply must not wrap the number of
 decimals

---
 base/math/m_decimal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index d2e24a8..32615f6 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -343,7 +343,8 @@ enum M_DECIMAL_RETVAL M_decimal_multiply(M_decimal_t *dest, const M_decimal_t *d
 	for (i=0; ; i++) {
 		rv = M_decimal_mult_int64(&num, tdec1.num, tdec2.num);
 
-		if (rv != M_DECIMAL_OVERFLOW)
+		/* multiplication doubles the number of decimal places, which must stay representable */
+		if (rv != M_DECIMAL_OVERFLOW && tdec1.num_dec <= M_UINT8_MAX / 2)
 			break;
 
 		if (tdec1.num_dec == 0)
-- 
2.43.0


From 7d43d3f4900f33042f1cb906a1989c7aa8a053ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 010/138] fix: decimal parsing keeps the sign after leading
 white space

---
 base/math/m_decimal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 32615f6..4cf5fb1 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -656,7 +656,9 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 
 	/* Handle a case of -0.123, where "-0" will be read before decimal but we
 	 * need to apply it after */
-	if (*string == '-') {
+	while (num_read < len && M_chr_isspace(string[num_read]))
+		num_read++;
+	if (num_read < len && string[num_read] == '-') {
 		is_neg = M_TRUE;
 	}
 
-- 
2.43.0


From 04029885de608c25cbcdb7c4cdbe36b2009f0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 011/138] fix: decimal fraction is made of digits only

---
 base/math/m_decimal.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 4cf5fb1..e240bbb 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -685,6 +685,12 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 		num_read++;
 
 		len_left = len - num_read;
+		if (len_left == 0)
+			end = ptr;
+
+		/* Only digits are part of the number, no sign or white space */
+		if (len_left && !M_chr_isdigit(*ptr))
+			return M_DECIMAL_INVALID;
 
 		/* Read in a loop.  If the read causes an overflow, read one less
 		 * until it no longer overflows.  Save the original end position
-- 
2.43.0


From 553c36d7b7ecc3340484309e7cf5ebc35daa3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 012/138] fix: decimal fraction with many leading zeros

---
 base/math/m_decimal.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index e240bbb..f45a5a6 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -736,12 +736,17 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 		while (num_digits) {
 			M_int64 exp;
 
-			/* Not possible to overflow this calc. M_str_to_int64_ex was called previously on the decimal
- 			 * portion. If we're here there was no overflow so we know that we cannot have more than 19 digits. */
-			M_decimal_exp_int64(&exp, 10, (M_uint8)num_digits);
+			/* Leading zeros don't count for M_str_to_int64_ex, so there can be more digits than fit */
+			if (num_digits <= M_UINT8_MAX) {
+				if (num == 0) {
+					val->num = 0;
+					break;
+				}
 
-			if (M_decimal_mult_int64(&val->num, num, exp) != M_DECIMAL_OVERFLOW) {
-				break;
+				if (M_decimal_exp_int64(&exp, 10, (M_uint8)num_digits) == M_DECIMAL_SUCCESS &&
+				    M_decimal_mult_int64(&val->num, num, exp) != M_DECIMAL_OVERFLOW) {
+					break;
+				}
 			}
 
 			M_decimal_div_int64(&afterdec, afterdec, 10, M_DECIMAL_ROUND_NONE);
-- 
2.43.0


From 8be29cdbb688a1d5178f4ef5046cda2d28cd0da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 013/138] fix: decimal parsing must not read past the given
 length

---
 base/math/m_decimal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index f45a5a6..4f4312f 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -772,7 +772,7 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 	M_decimal_reduce(val);
 
 	/* Handle the exponent/sci notation, e.g.   1.24e-2 == 0.0124 */
-	if (end != NULL && string + len + 1 > end && M_chr_tolower(*end) == 'e') {
+	if (end != NULL && end < string + len && M_chr_tolower(*end) == 'e') {
 		M_decimal_t           multiplier;
 		enum M_DECIMAL_RETVAL exprv;
 
-- 
2.43.0


From 36d518c0ddad1a020d0ca03d3c1f9d3cf25639f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 014/138] fix: decimal exponents too small to represent are an
 overflow

---
 base/math/m_decimal.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 4f4312f..c987897 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -796,15 +796,16 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 
 			M_decimal_from_int(&multiplier, exp, 0);
 		} else {
-			num *= -1;
-			if (num > 255)
+			if (num < -255)
 				return M_DECIMAL_OVERFLOW;
+			num *= -1;
 			M_decimal_from_int(&multiplier, 1, (M_uint8)num);
 		}
 
 		exprv = M_decimal_multiply(val, val, &multiplier);
 		switch (exprv) {
 			case M_DECIMAL_OVERFLOW:
+			case M_DECIMAL_INVALID: /* Too small to be represented */
 				return M_DECIMAL_OVERFLOW;
 			case M_DECIMAL_TRUNCATION:
 				rv = M_DECIMAL_TRUNCATION;
-- 
2.43.0


From a99e461bf019a46e397e441206ac5669c8c196cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 015/138] fix: an exact decimal quotient is not rounded

---
 base/math/m_decimal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index c987897..851b2d2 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -137,7 +137,7 @@ static enum M_DECIMAL_RETVAL M_decimal_div_int64(M_int64 *out, M_int64 num, M_in
 	*out = num / denom;
 
 	/* Round */
-	if (round != M_DECIMAL_ROUND_NONE) {
+	if (round != M_DECIMAL_ROUND_NONE && num % denom != 0) {
 		moddenom = denom/10;
 		if (moddenom) {
 			M_uint8 digit = (M_uint8)(M_ABS(num / moddenom) % 10);
-- 
2.43.0


From f12d59d45c2f3b011b9619d4cdfc0bf071b46545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 016/138] fix: decimal parsing reports no end for a trailing
 decimal point again

---
 base/math/m_decimal.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 851b2d2..2c6b34e 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -685,8 +685,6 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 		num_read++;
 
 		len_left = len - num_read;
-		if (len_left == 0)
-			end = ptr;
 
 		/* Only digits are part of the number, no sign or white space */
 		if (len_left && !M_chr_isdigit(*ptr))
-- 
2.43.0


From 3be5adbec58c1748d505fa9ed08693f0eeb67aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 017/138] fix: replacing a match at the end of a string

---
 base/data/m_str.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index cfc864e..9221433 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -1772,11 +1772,10 @@ char *M_strdup_replace_str(const char *s, const char *b, const char *a)
 		M_buf_add_str(buf, a);
 
 		p += b_len;
+		lp = p;
 		if ((size_t)(p-s) >= s_len) {
 			break;
 		}
-
-		lp = p;
 	}
 
 	if ((size_t)(lp-s) <= s_len)
-- 
2.43.0


From 11f6e4e877e82dc65439b1583fea9b247e3991af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 018/138] fix: splitting into at most one part

---
 base/data/m_str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index 9221433..cd373ca 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -999,7 +999,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 
 	/* Count number of delimiters to get number of output sections */
 	on_quote = M_FALSE;
-	for (i=0; i<s_len; i++) {
+	for (i=0; i<s_len && max_sects != 1; i++) {
 		if (quote_char != 0 && dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
 			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
@@ -1035,7 +1035,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 	num_strs  = 0;
 	beginsect = 0;
 	on_quote  = M_FALSE;
-	for (i=0; i<s_len; i++) {
+	for (i=0; i<s_len && max_sects != 1; i++) {
 		if (quote_char != 0 && dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
 			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
-- 
2.43.0


From 51f8cc075c5edf1fc52c8e6e063b32f04f84aacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 019/138] fix: case-insensitive patterns fold case in ranges

---
 base/data/m_str_patmatch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/data/m_str_patmatch.c b/base/data/m_str_patmatch.c
index 28291ae..565d9e7 100644
--- a/base/data/m_str_patmatch.c
+++ b/base/data/m_str_patmatch.c
@@ -142,7 +142,9 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 							}
 						} else {
 							/* Check Range */
-							if (pat[i-1] < s[str_start] && s[str_start] < pat[i+1]) {
+							if ((pat[i-1] < s[str_start] && s[str_start] < pat[i+1]) ||
+								(casecmp && pat[i-1] < M_chr_tolower(s[str_start]) && M_chr_tolower(s[str_start]) < pat[i+1]) ||
+								(casecmp && pat[i-1] < M_chr_toupper(s[str_start]) && M_chr_toupper(s[str_start]) < pat[i+1])) {
 								if (not_pat)
 									return M_FALSE;
 								return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
-- 
2.43.0


From 44d13da79c22f4a5d49129b84ca9f1586074332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 020/138] fix: merging a buffer whose front was dropped

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index c28148f..2794867 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -167,7 +167,7 @@ void M_buf_merge(M_buf_t *dest, M_buf_t *source)
 {
 	if (dest == NULL || source == NULL)
 		return;
-	M_buf_add_bytes(dest, source->data, source->data_length);
+	M_buf_add_bytes(dest, M_buf_peek(source), source->data_length);
 	M_buf_cancel(source);
 }
 
-- 
2.43.0


From c487e53ff035eed32aec578606a36a8bc0f66f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 021/138] fix: justified append to a buffer with a dropped
 front

---
 base/data/m_buf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 2794867..04c60ad 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -684,9 +684,6 @@ static void M_buf_add_bytes_just_transform(M_buf_t *buf, M_uint32 transform_type
 	if (bytes == NULL && bytes_length > 0)
 		return;
 
-	/* Record offset before appending anything */
-	offset       = buf->data_consumed + buf->data_length;
-
 	/* Perform transformation on data *first*, record length appended */
 	bytes_length = M_buf_add_bytes_transform(buf, transform_type, bytes, bytes_length);
 
@@ -695,6 +692,9 @@ static void M_buf_add_bytes_just_transform(M_buf_t *buf, M_uint32 transform_type
 		ensure_space(buf, width);
 	}
 
+	/* Start of the appended data, calculated only now as ensuring space may move data to the start of the buffer */
+	offset = buf->data_consumed + buf->data_length - bytes_length;
+
 	/* Justify data in-place */
 	justified_length   = M_str_justify_max(((char *)buf->data) + offset, M_MAX(bytes_length, width) + 1, ((char *)buf->data) + offset, bytes_length, justify_type, fill_char, width);
 	if (justified_length >= bytes_length) {
-- 
2.43.0


From 164fbe11f6c6dec0c0cca8e3939c6be4fc17244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 022/138] fix: pad justified decimals on the left

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 04c60ad..61de96f 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -1095,7 +1095,7 @@ M_bool M_buf_add_decimal_just(M_buf_t *buf, const M_decimal_t *decimal, M_bool i
 		M_buf_add_byte(buf, '-');
 	}
 
-	M_buf_add_str_just(buf, ptr, M_STR_JUSTIFY_LEFT, '0', max_width);
+	M_buf_add_str_just(buf, ptr, M_STR_JUSTIFY_RIGHT, '0', max_width);
 
 	return M_TRUE;
 }
-- 
2.43.0


From c66eb03a3623af1843e9f3ef1d20c953eb434fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 023/138] fix: report hex text that does not decode

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 61de96f..b6c1ccd 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -443,7 +443,7 @@ M_bool M_buf_add_bytes_hex(M_buf_t *buf, const char *hex_bytes)
 	bin_len = M_bincodec_decode(bin, bin_len, hex_bytes, hex_len, M_BINCODEC_HEX);
 	M_buf_direct_write_end(buf, bin_len);
 
-	return M_TRUE;
+	return (bin_len > 0)? M_TRUE : M_FALSE;
 }
 
 
-- 
2.43.0


From 7d50a75531ffbddcb9ebc3ec77cd77eb79d806af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 024/138] fix: uninitialised line count when a string does not
 fit

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index b6c1ccd..0c89e68 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -494,7 +494,7 @@ size_t M_buf_add_str_lines(M_buf_t *buf, const char *str, size_t max_lines, size
 	const char *newline)
 {
 	size_t   i;
-	size_t   num_lines;
+	size_t   num_lines = 0;
 	char   **strs;
 
 	if (buf == NULL || M_str_isempty(str))
-- 
2.43.0


From aef03436b8ebde9399f45e23386ae16c3e48422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 025/138] fix: append the smallest 64-bit integer right

---
 base/data/m_buf.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 0c89e68..986743c 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -781,10 +781,8 @@ static size_t num_digits(M_int64 n, unsigned char base)
 {
 	size_t count = 0;
 
-	if (n < 0) {
-		n *= -1;
+	if (n < 0)
 		count++;
-	}
 
 	do {
 		n /= base;
@@ -796,7 +794,8 @@ static size_t num_digits(M_int64 n, unsigned char base)
 
 M_bool M_buf_add_int_just(M_buf_t *buf, M_int64 n, size_t width)
 {
-	char space[32];
+	char     space[32];
+	M_uint64 un = (M_uint64)n;
 
 	if (buf == NULL || width == 0)
 		return M_FALSE;
@@ -804,11 +803,11 @@ M_bool M_buf_add_int_just(M_buf_t *buf, M_int64 n, size_t width)
 	/* Prepend negative */
 	if (width >= 1 && n < 0) {
 		M_buf_add_byte(buf, '-');
-		n *= -1;
+		un = 0 - un;
 		width--;
 	}
 
-	M_snprintf(space, sizeof(space), "%lld", n);
+	M_snprintf(space, sizeof(space), "%llu", un);
 	M_buf_add_str_just(buf, space, M_STR_JUSTIFY_RIGHT, '0', width);
 	return M_str_len(space) <= width;
 }
@@ -976,7 +975,7 @@ M_bool M_buf_add_int_money_dot(M_buf_t *buf, M_int64 amount, size_t max_width)
 {
 	char   space[32];
 	size_t r;
-	M_uint64 amnt = (M_uint64)M_ABS(amount);
+	M_uint64 amnt = amount < 0 ? 0 - (M_uint64)amount : (M_uint64)amount;
 
 	if (buf == NULL)
 		return M_FALSE;
@@ -996,23 +995,23 @@ M_bool M_buf_add_int_money_just(M_buf_t *buf, M_int64 amount, size_t max_width)
 
 M_bool M_buf_add_int_money_dot_just(M_buf_t *buf, M_int64 amount, size_t max_width)
 {
-	char   space[32];
-	size_t r;
+	char     space[32];
+	size_t   r;
+	M_uint64 amnt = amount < 0 ? 0 - (M_uint64)amount : (M_uint64)amount;
 
 	if (buf == NULL)
 		return M_FALSE;
 
+	r = M_snprintf(space, sizeof(space), "%llu.%02llu", amnt / 100, amnt % 100);
+	if (r + (amount < 0 ? 1 : 0) > max_width)
+		return M_FALSE;
+
 	/* Prepend negative */
-	if (max_width >= 1 && amount < 0) {
+	if (amount < 0) {
 		M_buf_add_byte(buf, '-');
-		amount *= -1;
 		max_width--;
 	}
 
-	r = M_snprintf(space, sizeof(space), "%lld.%02lld", amount / 100, amount % 100);
-	if (r > max_width)
-		return M_FALSE;
-
 	M_buf_add_str_just(buf, space, M_STR_JUSTIFY_RIGHT, '0', max_width);
 	return M_TRUE;
 }
-- 
2.43.0


From e622583a805b25e0b96e1336142bb71bd0acf823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 026/138] fix: keep the buffer terminated after a direct write
 of nothing

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 986743c..fa29f17 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -300,7 +300,7 @@ unsigned char *M_buf_direct_write_start(M_buf_t *buf, size_t *len)
 
 void M_buf_direct_write_end(M_buf_t *buf, size_t len)
 {
-	if (buf == NULL || len == 0)
+	if (buf == NULL || buf->data == NULL)
 		return;
 
 	buf->data_length += len;
-- 
2.43.0


From 405d1de8ab1697c3588e2eacfae7b0fa5db00df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 027/138] fix: quote an empty string as documented

---
 base/data/m_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index fa29f17..c8e745e 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -1159,7 +1159,8 @@ void M_buf_add_str_quoted(M_buf_t *buf, char quote_char, char escape_char, const
 	if (buf == NULL || src == NULL)
 		return;
 
-	if (always_quote)
+	/* An empty string is always quoted to tell it from NULL */
+	if (always_quote || *src == '\0')
 		quote_level = 1;
 
 	for (i=0; src[i] != '\0' && quote_level < 2; i++) {
-- 
2.43.0


From 60513e3e7cef3a9d0d0abb3bd01e22e8f278a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 028/138] fix: decode Base32 within the given length and honour
 padding

---
 base/bincodec/m_base32.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/base/bincodec/m_base32.c b/base/bincodec/m_base32.c
index 55af062..55ddf65 100644
--- a/base/bincodec/m_base32.c
+++ b/base/bincodec/m_base32.c
@@ -118,12 +118,15 @@ size_t M_base32_encode(char *out, size_t out_len, const M_uint8 *in, size_t in_l
 
 size_t M_base32_decode(M_uint8 *out, size_t out_len, const char *in, size_t in_len)
 {
-	size_t cnt = 0;
+	static const size_t pad_bytes[8] = { 5, 4, 0, 3, 2, 0, 1, 0 }; /* Bytes in a block by number of padding characters */
+	size_t              cnt          = 0;
+	size_t              pos          = 0;
+	size_t              pad          = 0;
 
 	if (out == NULL || out_len == 0 || in == NULL || in_len == 0 || out_len < M_base32_decode_size(in_len))
 		return 0;
 
-	while (*in) {
+	while (1) {
 		M_uint64 n = 0;
 		size_t   i;
 
@@ -132,26 +135,37 @@ size_t M_base32_decode(M_uint8 *out, size_t out_len, const char *in, size_t in_l
 			int v;
 
 			/* Skip any whitespace */
-			while (M_chr_isspace(*in))
-				in++;
+			while (pos < in_len && M_chr_isspace(in[pos]))
+				pos++;
 
-			/* Out of data */
-			if (!*in)
-				return 0;
+			/* Out of data, fine between blocks */
+			if (pos >= in_len || in[pos] == '\0')
+				return i == 0 ? cnt : 0;
 
-			v = M_base32_rev_charset[(M_uint8)*(in++)];
+			v = M_base32_rev_charset[(M_uint8)in[pos]];
 			/* invalid character */
 			if (v < 0)
 				return 0;
 
+			/* Padding is only allowed at the end */
+			if (in[pos] == '=') {
+				pad++;
+			} else if (pad > 0) {
+				return 0;
+			}
+
+			pos++;
 			n |= ((M_uint64)v) << (35 - (i * 5));
 		}
 
-		/* Write out 5 bytes */
-		for (i=0; i<5; i++) {
+		/* Not a possible amount of padding */
+		if (pad >= 8 || pad_bytes[pad] == 0)
+			return 0;
+
+		/* Write out up to 5 bytes */
+		for (i=0; i<pad_bytes[pad]; i++) {
 			out[cnt++] = (n >> (32 - (i*8))) & 0xFF;
 		}
 	}
-	return cnt;
 }
 
-- 
2.43.0


From 464fd40ca8df103ba6f3e7c328810942780fd709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 029/138] fix: decoding blank Base64 text

---
 base/bincodec/m_base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/bincodec/m_base64.c b/base/bincodec/m_base64.c
index 4da2940..749a000 100644
--- a/base/bincodec/m_base64.c
+++ b/base/bincodec/m_base64.c
@@ -221,7 +221,7 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 
 	/* Remove whitespace at the end so we can validate any trailing padding. And so we know when
  	 * we're really done decoding. */
-	while (M_chr_isspace(in[inlen-1]))
+	while (inlen > 0 && M_chr_isspace(in[inlen-1]))
 		inlen--;
 
 	if (inlen == 0)
-- 
2.43.0


From a3de3cf9ce2fa2f490ef71c39285e017853fbe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 030/138] fix: reject Base64 data after padding

---
 base/bincodec/m_base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/bincodec/m_base64.c b/base/bincodec/m_base64.c
index 749a000..4fc2947 100644
--- a/base/bincodec/m_base64.c
+++ b/base/bincodec/m_base64.c
@@ -83,7 +83,7 @@ static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size
 	(*idx)++;
 	if (c == '=') {
 		/* Ensure we don't have any ='s in the middle of the data. Padding is only allowed at the end. */
-		if (*idx-1 < inlen-2) {
+		if (*idx-1 < inlen-2 || in[inlen-1] != '=') {
 			return M_FALSE;
 		}
 		return M_TRUE;
-- 
2.43.0


From bdc88e849565e079fc13ccef8a5718497dede3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 031/138] fix: decode wrapped hex of any length

---
 base/bincodec/m_hex.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/bincodec/m_hex.c b/base/bincodec/m_hex.c
index b55336d..90ef5a6 100644
--- a/base/bincodec/m_hex.c
+++ b/base/bincodec/m_hex.c
@@ -108,10 +108,14 @@ size_t M_hex_decode(const char *in, size_t inLen, M_uint8 *out, size_t outLen)
 	size_t pos  = 0;
 	M_bool fail = M_FALSE;
 
-	if (in == NULL || inLen == 0 || inLen%2 != 0 || out == NULL || outLen < inLen/2)
+	if (in == NULL || inLen == 0 || out == NULL || outLen < inLen/2)
 		return 0;
 
-	while (get_byte(in, inLen, &i, &c1, &fail) && get_byte(in, inLen, &i, &c2, &fail)) {
+	while (get_byte(in, inLen, &i, &c1, &fail)) {
+		/* Digits come in pairs */
+		if (!get_byte(in, inLen, &i, &c2, &fail))
+			return 0;
+
 		out[pos++] = (M_uint8)(hex2dec(c1) << 4 | hex2dec(c2));
 	}
 
-- 
2.43.0


From f836e2fa890323854a7c5fc52cba05620b001404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 032/138] fix: detect hex within the given length

---
 base/bincodec/m_bincodec_conv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/bincodec/m_bincodec_conv.c b/base/bincodec/m_bincodec_conv.c
index ddfd935..042e9cd 100644
--- a/base/bincodec/m_bincodec_conv.c
+++ b/base/bincodec/m_bincodec_conv.c
@@ -32,11 +32,11 @@
 
 size_t M_hex_or_base64_to_bin(M_uint8 *out, size_t outlen, const char *in, size_t inlen)
 {
-	if (in == NULL || *in == '\0')
+	if (in == NULL || inlen == 0 || *in == '\0')
 		return 0;
 
 	/* Detect if Hex */
-	if (inlen % 2 == 0 && M_str_ishex(in))
+	if (inlen % 2 == 0 && M_str_ishex_max(in, inlen))
 		return M_hex_decode(in, inlen, out, outlen);
 
 	/* Must be base64 if we're here */
-- 
2.43.0


From 0a134fd26508529fcfcdff40c331a9dcdc03533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 033/138] fix: decode size when detecting hex

---
 base/bincodec/m_bincodec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/bincodec/m_bincodec.c b/base/bincodec/m_bincodec.c
index 5de3bc4..c6788bf 100644
--- a/base/bincodec/m_bincodec.c
+++ b/base/bincodec/m_bincodec.c
@@ -33,8 +33,9 @@ size_t M_bincodec_decode_size(size_t inLen, M_bincodec_codec_t codec)
 {
 	switch (codec) {
 		case M_BINCODEC_BASE64:
-		case M_BINCODEC_BASE64ORHEX:
 			return M_base64_decode_size(inLen);
+		case M_BINCODEC_BASE64ORHEX:
+			return M_MAX(M_base64_decode_size(inLen), inLen/2);
 		case M_BINCODEC_BASE32:
 			return M_base32_decode_size(inLen);
 		case M_BINCODEC_HEX:
-- 
2.43.0


From 0e452dc1629cd4d1dff372e609005d4ffccf33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 034/138] fix: decode Base64 whose padding is wrapped

---
 base/bincodec/m_base64.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/base/bincodec/m_base64.c b/base/bincodec/m_base64.c
index 4fc2947..3ab4ae3 100644
--- a/base/bincodec/m_base64.c
+++ b/base/bincodec/m_base64.c
@@ -60,7 +60,7 @@ static __inline__ void M_base64_encode_adder(char *out, size_t bidx, size_t *pos
 		out[(*pos)++] = '\n';
 }
 
-static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size_t inlen, size_t *idx)
+static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size_t inlen, size_t datalen, size_t *idx)
 {
 	char c;
 
@@ -83,7 +83,7 @@ static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size
 	(*idx)++;
 	if (c == '=') {
 		/* Ensure we don't have any ='s in the middle of the data. Padding is only allowed at the end. */
-		if (*idx-1 < inlen-2 || in[inlen-1] != '=') {
+		if (*idx-1 < datalen) {
 			return M_FALSE;
 		}
 		return M_TRUE;
@@ -214,7 +214,9 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 	M_int32 c;
 	M_int32 d;
 	size_t  i;
-	size_t  pos = 0;
+	size_t  pos     = 0;
+	size_t  padding = 0;
+	size_t  datalen;
 
 	if (out == NULL || outlen == 0 || in == NULL || inlen == 0)
 		return 0;
@@ -227,12 +229,20 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 	if (inlen == 0)
 		return 0;
 
+	/* Find where the padding starts. It can be split by line wrapping. */
+	for (datalen=inlen; datalen > 0 && (in[datalen-1] == '=' || M_chr_isspace(in[datalen-1])); datalen--) {
+		if (in[datalen-1] == '=')
+			padding++;
+	}
+	if (padding > 2)
+		return 0;
+
 	for (i=0; i<inlen; ) {
 		/* Take the four ascii characters and transform them into an int. */
-		if (!M_base64_get_decchar(&a, in, inlen, &i) ||
-			!M_base64_get_decchar(&b, in, inlen, &i) ||
-			!M_base64_get_decchar(&c, in, inlen, &i) ||
-			!M_base64_get_decchar(&d, in, inlen, &i))
+		if (!M_base64_get_decchar(&a, in, inlen, datalen, &i) ||
+			!M_base64_get_decchar(&b, in, inlen, datalen, &i) ||
+			!M_base64_get_decchar(&c, in, inlen, datalen, &i) ||
+			!M_base64_get_decchar(&d, in, inlen, datalen, &i))
 		{
 			return 0;
 		}
@@ -243,12 +253,12 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 			return 0;
 		}
 		/* We need to check for padding to know if we need to write these bytes or not. */
-		if (i != inlen || (i == inlen && in[inlen-2] != '=')) {
+		if (i != inlen || (i == inlen && padding < 2)) {
 			if (!M_base64_write_decchar(out, outlen, (unsigned char)((tmp >> 8) & 0xFF), &pos)) {
 				return 0;
 			}
 		}
-		if (i != inlen || (i == inlen && in[inlen-1] != '=')) {
+		if (i != inlen || (i == inlen && padding < 1)) {
 			if (!M_base64_write_decchar(out, outlen, (unsigned char)(tmp & 0xFF), &pos)) {
 				return 0;
 			}
-- 
2.43.0


From 5603e414b0f45a296f6f1e331ef198a8aa2f517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 035/138] fix: truncating white space of an empty parser

---
 base/data/m_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index c523923..bf4abff 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -774,7 +774,7 @@ size_t M_parser_truncate_whitespace(M_parser_t *parser, M_uint32 flags)
 
 	/* If we start on a newline, go ahead and consume that even if we're consuming
 	 * whitespace to the new line */
-	if (flags & M_PARSER_WHITESPACE_TO_NEWLINE && parser->data[dlen-1] == '\n')
+	if (flags & M_PARSER_WHITESPACE_TO_NEWLINE && dlen != 0 && parser->data[dlen-1] == '\n')
 		dlen--;
 
 	for ( ; dlen != 0; dlen--) {
-- 
2.43.0


From 4c5d85f7d276c08249f2c780aa4c52895d9d31f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 036/138] fix: find boundaries that follow a partial match

---
 base/data/m_parser.c | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index bf4abff..2183dc0 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -986,10 +986,10 @@ size_t M_parser_consume_until(M_parser_t *parser, const unsigned char *pat, size
 
 size_t M_parser_consume_boundary(M_parser_t *parser, const unsigned char *pat, size_t len, M_bool eat_pat, M_bool *found)
 {
-	size_t consumed_len = 0;
-	M_bool myfound;
-	size_t i            = 0;
-	size_t j            = 0;
+	const unsigned char *ptr;
+	size_t               consumed_len = 0;
+	size_t               partial_len;
+	M_bool               myfound;
 
 	if (found == NULL)
 		found = &myfound;
@@ -998,23 +998,21 @@ size_t M_parser_consume_boundary(M_parser_t *parser, const unsigned char *pat, s
 	if (parser == NULL || pat == NULL || len == 0)
 		return 0;
 
-	do {
-		M_bool eq = (parser->data[i] == pat[j]);
-		i++;
-		if (eq) {
-			j++;
-			if (j >= len) {
-				*found = M_TRUE;
-			}
-		} else {
-			consumed_len = i;
-			j            = 0;
-		}
-	} while (i < parser->data_len && !(*found));
+	ptr = M_mem_mem(parser->data, parser->data_len, pat, len);
+	if (ptr != NULL) {
+		*found       = M_TRUE;
+		consumed_len = (size_t)(ptr - parser->data);
 
-	/* Skip past end of boundry if it was fully found. */
-	if (*found && eat_pat)
-		consumed_len += len;
+		/* Skip past end of boundry if it was fully found. */
+		if (eat_pat)
+			consumed_len += len;
+	} else {
+		/* Stop at the longest partial match the data ends with */
+		partial_len = M_MIN(len-1, parser->data_len);
+		while (partial_len > 0 && !M_mem_eq(parser->data + parser->data_len - partial_len, pat, partial_len))
+			partial_len--;
+		consumed_len = parser->data_len - partial_len;
+	}
 
 	M_parser_consume(parser, consumed_len);
 	return consumed_len;
-- 
2.43.0


From 5b39eca048e8f0d116f460112330aae53336a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 037/138] fix: a read into a too small buffer consumes nothing

---
 base/data/m_parser.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 2183dc0..af0dc18 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -121,6 +121,8 @@ static void M_parser_mark_clear_int(M_parser_t *parser, enum M_PARSER_MARKED_TYP
 }
 
 
+static M_bool M_parser_rewind_int(M_parser_t *parser, size_t len);
+
 static size_t M_parser_read_bytes_mark_int(M_parser_t *parser, enum M_PARSER_MARKED_TYPE type, unsigned char *buf, size_t buf_len)
 {
 	const unsigned char *ptr;
@@ -134,8 +136,14 @@ static size_t M_parser_read_bytes_mark_int(M_parser_t *parser, enum M_PARSER_MAR
 	if (ptr == NULL || len == 0)
 		return 0;
 
-	if (len > buf_len)
+	if (len > buf_len) {
+		/* Don't lose what was consumed for the caller */
+		if (type == M_PARSER_MARKED_INT) {
+			M_parser_rewind_int(parser, len);
+			M_parser_mark_clear_int(parser, M_PARSER_MARKED_INT);
+		}
 		return 0;
+	}
 
 	M_mem_copy(buf, ptr, len);
 
-- 
2.43.0


From 2f0d3093e97e6dbb1794787aa002c65d496653aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 038/138] fix: exact comparison with data after a NUL

---
 base/data/m_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index af0dc18..a525a8c 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -575,6 +575,10 @@ M_bool M_parser_compare_str(const M_parser_t *parser, const char *str, size_t ma
 	if (str_len == 0 || str_len > parser->data_len)
 		return M_FALSE;
 
+	/* Entire parser must match */
+	if (max_len == 0 && str_len != parser->data_len)
+		return M_FALSE;
+
 	if (max_len > str_len)
 		max_len = str_len;
 
-- 
2.43.0


From cbe1f288828824ac63d997f6bd58553be64f4f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 039/138] fix: number of bytes read into a buffer

---
 base/data/m_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index a525a8c..6152338 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -1949,7 +1949,7 @@ size_t M_parser_read_buf_max(M_parser_t *parser, M_buf_t *buf, size_t len)
 
 	M_buf_add_bytes(buf, parser->data, len);
 	M_parser_consume(parser, len);
-	return M_TRUE;
+	return len;
 }
 
 size_t M_parser_read_buf_until(M_parser_t *parser, M_buf_t *buf, const unsigned char *pat, size_t pat_len, M_bool eat_pat)
-- 
2.43.0


From 74f4358e8165769ccb351b2359dd2bcee40a3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 040/138] fix: free an empty split

---
 base/data/m_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 6152338..b8fd3c5 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -1756,6 +1756,7 @@ M_parser_t **M_parser_split_pat(M_parser_t *parser, const unsigned char *pat, si
 		}
 	}
 	M_parser_mark_rewind_int(parser, M_PARSER_MARKED_INT);
+	M_parser_mark_clear_int(parser, M_PARSER_MARKED_INT);
 
 	if (cnt == 1 && flags & M_PARSER_SPLIT_FLAG_NODELIM_ERROR)
 		return NULL;
@@ -1828,7 +1829,7 @@ M_parser_t **M_parser_split_str_pat(M_parser_t *parser, const char *pat, size_t
 void M_parser_split_free(M_parser_t **parsers, size_t cnt)
 {
 	size_t i;
-	if (parsers == NULL || cnt == 0)
+	if (parsers == NULL)
 		return;
 
 	for (i=0; i<cnt; i++)
-- 
2.43.0


From e74f5defff5f62ff65a92e205e4930ae3842d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 041/138] fix: appending after a mark at the end of the data

---
 base/data/m_parser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index b8fd3c5..9f89186 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -437,9 +437,9 @@ static void M_parser_ensure_space(M_parser_t *parser, size_t len)
 
 		keep_len   = parser->data_len + len_marked;
 
-		/* Make sure we don't move to same position where we are, and we are actually moving
-		 * data at all */
-		if (parser->data_dyn != mark_start && keep_len != 0) {
+		/* Make sure we don't move to same position where we are. Marks need to be updated even
+		 * if there is no data to be moved. */
+		if (parser->data_dyn != mark_start) {
 			/* Update mark offsets.  Remember, they can be different, so just
 			 * do math instead of setting them to 0 */
 			if (parser->mark_int != -1)
@@ -448,7 +448,8 @@ static void M_parser_ensure_space(M_parser_t *parser, size_t len)
 				parser->mark_user -= (mark_start - parser->data_dyn);
 
 			/* Move the data into position */
-			M_mem_move(parser->data_dyn, mark_start, keep_len);
+			if (keep_len != 0)
+				M_mem_move(parser->data_dyn, mark_start, keep_len);
 		}
 
 		parser->data = parser->data_dyn + len_marked;
-- 
2.43.0


From 935991ed701510470f87a7bbbac09ff57588e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 042/138] fix: rewinding clears the mark as documented

---
 base/data/m_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 9f89186..46f2804 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -689,6 +689,9 @@ static size_t M_parser_mark_rewind_int(M_parser_t *parser, enum M_PARSER_MARKED_
 	
 	if (len != 0)
 		M_parser_rewind_int(parser, len);
+
+	/* Nothing consumed after the mark anymore, so this only forgets the mark */
+	M_parser_mark_clear_int(parser, type);
 	return len;
 }
 
-- 
2.43.0


From 89082059b24532bbba8796bff52993be302796e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 043/138] fix: integer text of a specified length must be that
 long

---
 base/data/m_parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 46f2804..cb3ef2b 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -338,7 +338,8 @@ static M_bool M_parser_read_int_binary(M_parser_t *parser, size_t len, M_bool is
 static M_bool M_parser_read_int_ascii(M_parser_t *parser, size_t len, unsigned char base, M_int64 *integer)
 {
 	M_str_int_retval_t  rv;
-	const char         *end = NULL;
+	const char         *end   = NULL;
+	M_bool              exact = len != 0;
 
 	if (parser == NULL || integer == NULL || len > parser->data_len || parser->data_len == 0)
 		return M_FALSE;
@@ -350,6 +351,10 @@ static M_bool M_parser_read_int_ascii(M_parser_t *parser, size_t len, unsigned c
 	if (rv != M_STR_INT_SUCCESS)
 		return M_FALSE;
 
+	/* A specified length must be used entirely */
+	if (exact && (size_t)(((const unsigned char *)end) - parser->data) != len)
+		return M_FALSE;
+
 	M_parser_consume(parser, (size_t)(((const unsigned char *)end) - parser->data));
 	return M_TRUE;
 }
@@ -358,7 +363,8 @@ static M_bool M_parser_read_int_ascii(M_parser_t *parser, size_t len, unsigned c
 static M_bool M_parser_read_uint_ascii(M_parser_t *parser, size_t len, unsigned char base, M_uint64 *integer)
 {
 	M_str_int_retval_t  rv;
-	const char         *end = NULL;
+	const char         *end   = NULL;
+	M_bool              exact = len != 0;
 
 	if (parser == NULL || integer == NULL || len > parser->data_len || parser->data_len == 0)
 		return M_FALSE;
@@ -370,6 +376,10 @@ static M_bool M_parser_read_uint_ascii(M_parser_t *parser, size_t len, unsigned
 	if (rv != M_STR_INT_SUCCESS)
 		return M_FALSE;
 
+	/* A specified length must be used entirely */
+	if (exact && (size_t)(((const unsigned char *)end) - parser->data) != len)
+		return M_FALSE;
+
 	M_parser_consume(parser, (size_t)(((const unsigned char *)end) - parser->data));
 	return M_TRUE;
 }
-- 
2.43.0


From 027b5dcd20372c81f7b9a5c9ceb0dec3294924a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 044/138] fix: reject BCD data that is not a number or does not
 fit

---
 base/data/m_parser.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index cb3ef2b..2bed1e6 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -1170,19 +1170,21 @@ M_bool M_parser_read_uint(M_parser_t *parser, enum M_PARSER_INTEGER_TYPE type, s
 
 M_bool M_parser_read_uint_bcd(M_parser_t *parser, size_t len, M_uint64 *integer)
 {
-	size_t pos = 1;
-	size_t i;
+	M_uint64 val = 0;
+	size_t   i;
 
 	if (parser == NULL || integer == NULL || len == 0 || len > 10 || len > parser->data_len)
 		return M_FALSE;
 
-	*integer = 0;
-	for (i=len; i-->0; ) {
-		*integer += (parser->data[i] & 0x0F) * pos;
-		pos *= 10;
-		*integer += (parser->data[i] >> 4) * pos;
-		pos *= 10;
+	for (i=0; i<len*2; i++) {
+		M_uint64 digit = (M_uint64)(i % 2 == 0 ? parser->data[i/2] >> 4 : parser->data[i/2] & 0x0F);
+
+		/* Not a decimal digit or won't fit */
+		if (digit > 9 || val > (M_UINT64_MAX - digit) / 10)
+			return M_FALSE;
+		val = val * 10 + digit;
 	}
+	*integer = val;
 
 	M_parser_consume(parser, len);
 	return M_TRUE;
-- 
2.43.0


From aaf5639a10492b92cea50aa4cad5fa4b6036229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 045/138] fix: bits past the end of added bytes are not kept

---
 base/data/m_bit_buf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/data/m_bit_buf.c b/base/data/m_bit_buf.c
index 2cea9c6..e540eef 100644
--- a/base/data/m_bit_buf.c
+++ b/base/data/m_bit_buf.c
@@ -272,7 +272,11 @@ void M_bit_buf_add_bytes(M_bit_buf_t *bbuf, const void *vbytes, size_t nbits)
 	 * to the internal buffer.
 	 */
 	if ((bbuf->nbits % 8) == 0) {
-		M_buf_add_bytes(bbuf->bits, bytes, nbytes_whole + (nbits_left > 0? 1 : 0));
+		M_buf_add_bytes(bbuf->bits, bytes, nbytes_whole);
+		if (nbits_left > 0) {
+			/* Bits past the end must be zero, they aren't part of the data being added. */
+			M_buf_add_byte(bbuf->bits, (unsigned char)(bytes[nbytes_whole] & (0xFF << (8 - nbits_left))));
+		}
 		bbuf->nbits += nbits;
 		return;
 	}
-- 
2.43.0


From 5a859280dc14429ceb204fdc4b359784f1c1a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 046/138] fix: truncating a bit buffer doesn't lengthen it

---
 base/data/m_bit_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/data/m_bit_buf.c b/base/data/m_bit_buf.c
index e540eef..38a4920 100644
--- a/base/data/m_bit_buf.c
+++ b/base/data/m_bit_buf.c
@@ -112,7 +112,8 @@ void M_bit_buf_truncate(M_bit_buf_t *bbuf, size_t len_bits)
 	size_t num_full_bytes = len_bits / 8; /* number of FULL bytes, does not include last partial byte. */
 	size_t part_bits      = len_bits % 8;
 
-	if (bbuf == NULL) {
+	/* Can only remove data */
+	if (bbuf == NULL || len_bits >= bbuf->nbits) {
 		return;
 	}
 	bbuf->nbits = len_bits;
-- 
2.43.0


From efcbc132dc526b2e7b2df5bcea245456cba66570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 047/138] fix: unaligned bit reads stay inside the data

---
 base/data/m_bit_parser.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index d4d4f5f..4ef8329 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -66,7 +66,7 @@ static size_t peek_next_bytes(const M_bit_parser_t *bparser, M_uint8 *dest, size
 	if (nbits == 0) {
 		return 0;
 	}
-	if (bparser->offset + nbits > bparser->nbits) {
+	if (nbits > M_bit_parser_len(bparser)) {
 		return 0;
 	}
 
@@ -86,7 +86,11 @@ static size_t peek_next_bytes(const M_bit_parser_t *bparser, M_uint8 *dest, size
 		M_uint8 invskip = (M_uint8)(8 - bitskip); /* number of bits to skip from right side of next byte */
 		size_t  i;
 		for (i=0; i<nbytes; i++) {
-			dest[i] = (M_uint8)((src[i] << bitskip) | (src[i + 1] >> invskip));
+			dest[i] = (M_uint8)(src[i] << bitskip);
+			/* The rest is in the next byte, which may not exist if this one holds all that's left to read. */
+			if (nbits - (i * 8) > invskip) {
+				dest[i] = (M_uint8)(dest[i] | (src[i + 1] >> invskip));
+			}
 		}
 	}
 
@@ -402,7 +406,7 @@ M_bool M_bit_parser_read_buf(M_bit_parser_t *bparser, M_buf_t *buf, size_t nbits
 	if (nbits == 0) {
 		return M_TRUE;
 	}
-	if (bparser == NULL || buf == NULL) {
+	if (bparser == NULL || buf == NULL || nbits > M_bit_parser_len(bparser)) {
 		return M_FALSE;
 	}
 
-- 
2.43.0


From 3f5e0aba78663958afb6a96f8ee69035a154d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 048/138] fix: don't count bits past the end of the data

---
 base/data/m_bit_parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index 4ef8329..55c147f 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -287,6 +287,11 @@ size_t M_bit_parser_count(const M_bit_parser_t *bparser, M_uint8 bit)
 		count += M_uint8_popcount(bparser->bytes[byte_idx]);
 	}
 
+	/* The unused bits of the last byte aren't part of the data. */
+	if (bparser->nbits % 8 != 0) {
+		count -= M_uint8_popcount((M_uint8)((bparser->bytes[nbytes - 1] << (bparser->nbits % 8)) & 0xFF));
+	}
+
 	/* If user requested number of unset bits, subtract count from total number of bits, and return that.
 	 * If user requested number of set bits, return count directly.
 	 */
-- 
2.43.0


From c7613acf801ab1ef610c74093240cfe4485b5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 049/138] fix: reading a signed bit field past the end fails

---
 base/data/m_bit_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index 55c147f..9fc5cc1 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -525,7 +525,7 @@ M_bool M_bit_parser_read_int(M_bit_parser_t *bparser, size_t nbits, M_bit_parser
 		*res = 0;
 	}
 
-	if (bparser == NULL || nbits < 2 || res == NULL) {
+	if (bparser == NULL || nbits < 2 || nbits > 64 || res == NULL || M_bit_parser_len(bparser) < nbits) {
 		return M_FALSE;
 	}
 
-- 
2.43.0


From 53bed950f849547d000e812c4bd0578632a6b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 050/138] fix: decimal text ending in its decimal point sets
 the end pointer

---
 base/math/m_decimal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 2c6b34e..9174197 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -686,6 +686,13 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 
 		len_left = len - num_read;
 
+		/* Nothing after the decimal, there must have been something before it */
+		if (len_left == 0) {
+			if (*string == '.')
+				return M_DECIMAL_INVALID;
+			end = ptr;
+		}
+
 		/* Only digits are part of the number, no sign or white space */
 		if (len_left && !M_chr_isdigit(*ptr))
 			return M_DECIMAL_INVALID;
-- 
2.43.0


From 0397f38e0ab4ef302e901be1d656bc92999c2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 051/138] fix: utf-8 index past invalid data or at the end
 fails

---
 base/utf8/m_utf8.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index 63e3451..abd3a11 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -332,20 +332,18 @@ M_utf8_error_t M_utf8_cp_at(const char *str, size_t idx, M_uint32 *cp)
 	if (M_str_isempty(str))
 		return M_UTF8_ERROR_INVALID_PARAM;
 
-	while (*next != '\0' && res == M_UTF8_ERROR_SUCCESS) {
+	while (res == M_UTF8_ERROR_SUCCESS && *next != '\0') {
 		res = M_utf8_get_cp(str, cp, &next);
 		str = next;
 		if (i == idx)
-			break;
+			return res;
 		i++;
 	}
 	if (res != M_UTF8_ERROR_SUCCESS)
 		return res;
 
-	if (i != idx)
-		return M_UTF8_ERROR_INVALID_PARAM;
-
-	return M_UTF8_ERROR_SUCCESS;
+	/* Reached the end before the index. */
+	return M_UTF8_ERROR_INVALID_PARAM;
 }
 
 M_utf8_error_t M_utf8_chr_at(const char *str, char *buf, size_t buf_size, size_t *len, size_t idx)
-- 
2.43.0


From 2bcbb502a6286489e133ba4e86f8415744f02f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 052/138] fix: noncharacters of planes 10 to 15 are invalid too

---
 base/utf8/m_utf8.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index abd3a11..21a98a4 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -134,6 +134,12 @@ M_bool M_utf8_is_valid_cp(M_uint32 cp)
 		cp == 0x7FFFE || cp == 0x7FFFF ||
 		cp == 0x8FFFE || cp == 0x8FFFF ||
 		cp == 0x9FFFE || cp == 0x9FFFF ||
+		cp == 0xAFFFE || cp == 0xAFFFF ||
+		cp == 0xBFFFE || cp == 0xBFFFF ||
+		cp == 0xCFFFE || cp == 0xCFFFF ||
+		cp == 0xDFFFE || cp == 0xDFFFF ||
+		cp == 0xEFFFE || cp == 0xEFFFF ||
+		cp == 0xFFFFE || cp == 0xFFFFF ||
 		cp == 0x10FFFE || cp == 0x10FFFF ||
 		(cp >= 0xFDD0 && cp <= 0xFDEF))
 	{
-- 
2.43.0


From 5b0968b789aaa479bfc679932d026b65525356a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 053/138] fix: letters in ranges are letters

---
 base/utf8/m_utf8_check.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/base/utf8/m_utf8_check.c b/base/utf8/m_utf8_check.c
index 88b4d06..f7c0746 100644
--- a/base/utf8/m_utf8_check.c
+++ b/base/utf8/m_utf8_check.c
@@ -44,6 +44,36 @@ static int M_utf8_compar_cp(const void *arg1, const void *arg2, void *thunk)
 	return 1;
 }
 
+/* Letters (Lo) the Unicode data only lists the first and last code point of. */
+static M_bool is_lo_range(M_uint32 cp)
+{
+	static const struct {
+		M_uint32 first;
+		M_uint32 last;
+	} ranges[] = {
+		{ 0x3400,  0x4DBF  }, /* CJK Ideograph Extension A */
+		{ 0x4E00,  0x9FFF  }, /* CJK Ideograph */
+		{ 0xAC00,  0xD7A3  }, /* Hangul Syllable */
+		{ 0x17000, 0x187F7 }, /* Tangut Ideograph */
+		{ 0x18D00, 0x18D08 }, /* Tangut Ideograph Supplement */
+		{ 0x20000, 0x2A6DF }, /* CJK Ideograph Extension B */
+		{ 0x2A700, 0x2B739 }, /* CJK Ideograph Extension C */
+		{ 0x2B740, 0x2B81D }, /* CJK Ideograph Extension D */
+		{ 0x2B820, 0x2CEA1 }, /* CJK Ideograph Extension E */
+		{ 0x2CEB0, 0x2EBE0 }, /* CJK Ideograph Extension F */
+		{ 0x30000, 0x3134A }, /* CJK Ideograph Extension G */
+		{ 0x31350, 0x323AF }  /* CJK Ideograph Extension H */
+	};
+	size_t i;
+
+	for (i=0; i<sizeof(ranges)/sizeof(*ranges); i++) {
+		if (cp >= ranges[i].first && cp <= ranges[i].last) {
+			return M_TRUE;
+		}
+	}
+	return M_FALSE;
+}
+
 static M_bool is_x_chr(const char *str, const char **next, M_bool(*cp_func)(M_uint32))
 {
 	M_uint32 cp;
@@ -153,6 +183,9 @@ M_bool M_utf8_isalpha_cp(M_uint32 cp)
 	if (M_sort_binary_search(&M_utf8_table_Lo, M_utf8_table_Lo_len, sizeof(*M_utf8_table_Lo), &cp, M_FALSE, M_utf8_compar_cp, NULL, NULL))
 		return M_TRUE;
 
+	if (is_lo_range(cp))
+		return M_TRUE;
+
 	if (M_sort_binary_search(&M_utf8_table_Nl, M_utf8_table_Nl_len, sizeof(*M_utf8_table_Nl), &cp, M_FALSE, M_utf8_compar_cp, NULL, NULL))
 		return M_TRUE;
 
-- 
2.43.0


From 704f3ac9f5c966a9c8688bbd43511ad6d5b9be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 054/138] fix: U+13440 is a combining mark

---
 base/utf8/m_utf8_tables.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/utf8/m_utf8_tables.c b/base/utf8/m_utf8_tables.c
index 9f65c52..4e0c631 100644
--- a/base/utf8/m_utf8_tables.c
+++ b/base/utf8/m_utf8_tables.c
@@ -52,7 +52,7 @@ const M_uint32 M_utf8_table_Cf[] = {
 	0x2067, 0x2068, 0x2069, 0x206A, 0x206B, 0x206C, 0x206D, 0x206E, 0x206F, 0xFEFF,
 	0xFFF9, 0xFFFA, 0xFFFB, 0x110BD, 0x110CD, 0x13430, 0x13431, 0x13432, 0x13433, 0x13434,
 	0x13435, 0x13436, 0x13437, 0x13438, 0x13439, 0x1343A, 0x1343B, 0x1343C, 0x1343D, 0x1343E,
-	0x1343F, 0x13440, 0x1BCA0, 0x1BCA1, 0x1BCA2, 0x1BCA3, 0x1D173, 0x1D174, 0x1D175, 0x1D176,
+	0x1343F, 0x1BCA0, 0x1BCA1, 0x1BCA2, 0x1BCA3, 0x1D173, 0x1D174, 0x1D175, 0x1D176,
 	0x1D177, 0x1D178, 0x1D179, 0x1D17A, 0xE0001, 0xE0020, 0xE0021, 0xE0022, 0xE0023, 0xE0024,
 	0xE0025, 0xE0026, 0xE0027, 0xE0028, 0xE0029, 0xE002A, 0xE002B, 0xE002C, 0xE002D, 0xE002E,
 	0xE002F, 0xE0030, 0xE0031, 0xE0032, 0xE0033, 0xE0034, 0xE0035, 0xE0036, 0xE0037, 0xE0038,
@@ -65,7 +65,7 @@ const M_uint32 M_utf8_table_Cf[] = {
 	0xE0075, 0xE0076, 0xE0077, 0xE0078, 0xE0079, 0xE007A, 0xE007B, 0xE007C, 0xE007D, 0xE007E,
 	0xE007F
 };
-const size_t M_utf8_table_Cf_len = 171;
+const size_t M_utf8_table_Cf_len = 170;
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
@@ -2495,7 +2495,7 @@ const M_uint32 M_utf8_table_Mn[] = {
 	0x11CAE, 0x11CAF, 0x11CB0, 0x11CB2, 0x11CB3, 0x11CB5, 0x11CB6, 0x11D31, 0x11D32, 0x11D33,
 	0x11D34, 0x11D35, 0x11D36, 0x11D3A, 0x11D3C, 0x11D3D, 0x11D3F, 0x11D40, 0x11D41, 0x11D42,
 	0x11D43, 0x11D44, 0x11D45, 0x11D47, 0x11D90, 0x11D91, 0x11D95, 0x11D97, 0x11EF3, 0x11EF4,
-	0x11F00, 0x11F01, 0x11F36, 0x11F37, 0x11F38, 0x11F39, 0x11F3A, 0x11F40, 0x11F42, 0x13447,
+	0x11F00, 0x11F01, 0x11F36, 0x11F37, 0x11F38, 0x11F39, 0x11F3A, 0x11F40, 0x11F42, 0x13440, 0x13447,
 	0x13448, 0x13449, 0x1344A, 0x1344B, 0x1344C, 0x1344D, 0x1344E, 0x1344F, 0x13450, 0x13451,
 	0x13452, 0x13453, 0x13454, 0x13455, 0x16AF0, 0x16AF1, 0x16AF2, 0x16AF3, 0x16AF4, 0x16B30,
 	0x16B31, 0x16B32, 0x16B33, 0x16B34, 0x16B35, 0x16B36, 0x16F4F, 0x16F8F, 0x16F90, 0x16F91,
@@ -2554,7 +2554,7 @@ const M_uint32 M_utf8_table_Mn[] = {
 	0xE01E2, 0xE01E3, 0xE01E4, 0xE01E5, 0xE01E6, 0xE01E7, 0xE01E8, 0xE01E9, 0xE01EA, 0xE01EB,
 	0xE01EC, 0xE01ED, 0xE01EE, 0xE01EF
 };
-const size_t M_utf8_table_Mn_len = 1984;
+const size_t M_utf8_table_Mn_len = 1985;
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
-- 
2.43.0


From 70ff95647d2a09df595a32099be2e6164dc2500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 055/138] fix: title case uses the title case table

---
 base/utf8/m_utf8_case.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/utf8/m_utf8_case.c b/base/utf8/m_utf8_case.c
index a50631f..a05e16f 100644
--- a/base/utf8/m_utf8_case.c
+++ b/base/utf8/m_utf8_case.c
@@ -290,10 +290,10 @@ M_utf8_error_t M_utf8_totitle_cp(M_uint32 cp, M_uint32 *title_cp)
 		return M_UTF8_ERROR_BAD_CODE_POINT;
 
 	/* Not found means it's a title or not one that maps to an upper. */
-	if (!M_sort_binary_search(M_utf8_table_uptolow, M_utf8_table_uptolow_len, sizeof(*M_utf8_table_uptolow), &tmap, M_FALSE, M_utf8_compar_cp_map, NULL, &idx))
+	if (!M_sort_binary_search(M_utf8_table_title, M_utf8_table_title_len, sizeof(*M_utf8_table_title), &tmap, M_FALSE, M_utf8_compar_cp_map, NULL, &idx))
 		return M_UTF8_ERROR_SUCCESS;
 
-	*title_cp = M_utf8_table_uptolow[idx].cp2;
+	*title_cp = M_utf8_table_title[idx].cp2;
 	return M_UTF8_ERROR_SUCCESS;
 }
 
-- 
2.43.0


From 3470089ce5758fca8c897dd166642dd2237ecb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 056/138] fix: read JSON numbers as JSON defines them

---
 formats/json/m_json_reader.c | 56 +++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index c729efa..0b532a1 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -492,13 +492,67 @@ static M_json_node_t *M_json_read_null(M_parser_t *parser, M_uint32 flags, M_jso
 	return M_json_node_create(M_JSON_TYPE_NULL);
 }
 
+/* Length of the number at the start of the data. 0 if it's not a valid number. */
+static size_t M_json_number_len(M_parser_t *parser)
+{
+	const char *s   = (const char *)M_parser_peek(parser);
+	size_t      len = M_parser_len(parser);
+	size_t      i   = 0;
+
+	if (i < len && s[i] == '-')
+		i++;
+
+	/* Integer part, no leading zeros. */
+	if (i >= len || !M_chr_isdigit(s[i]))
+		return 0;
+	if (s[i] == '0') {
+		i++;
+		if (i < len && M_chr_isdigit(s[i])) {
+			return 0;
+		}
+	}
+	while (i < len && M_chr_isdigit(s[i]))
+		i++;
+
+	/* Fraction. */
+	if (i < len && s[i] == '.') {
+		i++;
+		if (i >= len || !M_chr_isdigit(s[i]))
+			return 0;
+		while (i < len && M_chr_isdigit(s[i])) {
+			i++;
+		}
+	}
+
+	/* Exponent. */
+	if (i < len && (s[i] == 'e' || s[i] == 'E')) {
+		i++;
+		if (i < len && (s[i] == '+' || s[i] == '-'))
+			i++;
+		if (i >= len || !M_chr_isdigit(s[i]))
+			return 0;
+		while (i < len && M_chr_isdigit(s[i])) {
+			i++;
+		}
+	}
+
+	return i;
+}
+
 static M_json_node_t *M_json_read_number(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
 {
 	M_json_node_t         *node;
 	M_decimal_t            decimal;
 	enum M_DECIMAL_RETVAL  rv;
+	size_t                 len;
+
+	len = M_json_number_len(parser);
+	if (len == 0) {
+		*error = M_JSON_ERROR_INVALID_NUMBER;
+		return NULL;
+	}
 
-	rv = M_parser_read_decimal(parser, 0, !(flags & M_JSON_READER_ALLOW_DECIMAL_TRUNCATION), &decimal);
+	rv = M_parser_read_decimal(parser, len, !(flags & M_JSON_READER_ALLOW_DECIMAL_TRUNCATION), &decimal);
 	if ((!(flags & M_JSON_READER_ALLOW_DECIMAL_TRUNCATION) && rv != M_DECIMAL_SUCCESS) ||
 		((flags & M_JSON_READER_ALLOW_DECIMAL_TRUNCATION) && rv != M_DECIMAL_SUCCESS && rv != M_DECIMAL_TRUNCATION))
 	{
-- 
2.43.0


From 1da0dd7b6d47768a6f847d4be0800b0a5a325fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 057/138] fix: parse bit list entries with a zero id

---
 base/data/m_bitlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_bitlist.c b/base/data/m_bitlist.c
index 11dd6e0..c8d6af7 100644
--- a/base/data/m_bitlist.c
+++ b/base/data/m_bitlist.c
@@ -129,7 +129,7 @@ static M_bool M_bitlist_parse_int(M_uint64 *out, M_bitlist_flags_t flags, const
 			M_snprintf(error, error_len, "unrecognized value '%s'", elems[i]);
 			goto done;
 		}
-		if (found && !(flags & M_BITLIST_FLAG_DONT_REQUIRE_POWEROF2) && !M_uint64_is_power_of_two(id)) {
+		if (found && id != 0 && !(flags & M_BITLIST_FLAG_DONT_REQUIRE_POWEROF2) && !M_uint64_is_power_of_two(id)) {
 			M_snprintf(error, error_len, "'%s' is not a power of 2", elems[i]);
 			goto done;
 		}
-- 
2.43.0


From 7343b5567c67fa1a5c0e9a14c3cd0d8b1a614701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 058/138] fix: count a removed multi value

---
 base/hash/m_hashtable.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/hash/m_hashtable.c b/base/hash/m_hashtable.c
index 0d1bf5b..cd9fd72 100644
--- a/base/hash/m_hashtable.c
+++ b/base/hash/m_hashtable.c
@@ -685,6 +685,8 @@ M_bool M_hashtable_multi_remove(M_hashtable_t *h, const void *key, size_t idx, M
 	if (destroy_vals)
 		h->value_free(value);
 
+	h->num_values--;
+
 	return M_TRUE;
 
 }
-- 
2.43.0


From 8488595c62faec45f7de054baf1be0de12b0d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 059/138] fix: free duplicate keys when merging a table with
 sorted values

---
 base/hash/m_hashtable.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/hash/m_hashtable.c b/base/hash/m_hashtable.c
index cd9fd72..7e287b5 100644
--- a/base/hash/m_hashtable.c
+++ b/base/hash/m_hashtable.c
@@ -884,6 +884,7 @@ void M_hashtable_merge(M_hashtable_t **dest, M_hashtable_t *src)
 	const void                   *value;
 	M_hashtable_enum_t            hashenum;
 	struct M_hashtable_callbacks  callbacks;
+	M_uint32                      flags;
 
 	if (dest == NULL || src == NULL)
 		return;
@@ -899,9 +900,11 @@ void M_hashtable_merge(M_hashtable_t **dest, M_hashtable_t *src)
 	callbacks.key_duplicate_insert   = src->key_duplicate_insert;
 	callbacks.key_duplicate_copy     = src->key_duplicate_copy;
 	callbacks.key_free               = src->key_free;
-	h3 = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags, &callbacks);
+	/* Only keys are tracked. Sorting values isn't possible without a value_equality callback. */
+	flags = (M_uint32)src->flags & ~((M_uint32)M_HASHTABLE_MULTI_SORTED);
+	h3 = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, flags, &callbacks);
 	/* hm is for tracking keys that have been put into other hashtables. We don't want anything freed. */
-	hm = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags, NULL);
+	hm = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, flags, NULL);
 
 	/* Since will be doing direct pointer copying of keys and values,
 	 * rather than reallocing and freeing the old ones.  Make sure
-- 
2.43.0


From ac96e44bf93a65271e3f3757670588ee66354ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 060/138] fix: an escaped escape does not escape the closing
 quote

---
 base/data/m_str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index cd373ca..5fde611 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -1005,7 +1005,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
 				i++;
 				continue;
-			} else if (escape_char != 0 && quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (escape_char != 0 && quote_char != escape_char && is_escaped(dupstr, dupstr+i, (char)escape_char)) {
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
@@ -1041,7 +1041,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
 				i++;
 				continue;
-			} else if (escape_char != 0 && quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (escape_char != 0 && quote_char != escape_char && is_escaped(dupstr, dupstr+i, (char)escape_char)) {
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
-- 
2.43.0


From c9d0dd1686e9e6781df1c9632b50a4f14b5adcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 061/138] fix: hex encode bytes over 127 in dictionaries with
 two digits

---
 base/hash/m_hash_dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/hash/m_hash_dict.c b/base/hash/m_hash_dict.c
index bfa7d61..533e8b7 100644
--- a/base/hash/m_hash_dict.c
+++ b/base/hash/m_hash_dict.c
@@ -353,7 +353,7 @@ M_bool M_hash_dict_serialize_buf(const M_hash_dict_t *dict, M_buf_t *buf, char d
 					M_buf_add_byte(buf, (unsigned char)escape);
 
 				if (!M_chr_isprint(*val) && flags & M_HASH_DICT_SER_FLAG_HEXENCODE_NONPRINT) {
-					M_bprintf(buf, "[%02X]", (unsigned int)*val);
+					M_bprintf(buf, "[%02X]", (unsigned int)(unsigned char)*val);
 				} else {
 					M_buf_add_byte(buf, (unsigned char)*val);
 				}
-- 
2.43.0


From 299fd17240152b804f2c2e708956db7ddfa7ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 062/138] fix: do not read dictionary text of length zero

---
 base/hash/m_hash_dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/hash/m_hash_dict.c b/base/hash/m_hash_dict.c
index 533e8b7..e4525e0 100644
--- a/base/hash/m_hash_dict.c
+++ b/base/hash/m_hash_dict.c
@@ -445,7 +445,7 @@ M_hash_dict_t *M_hash_dict_deserialize(const char *str, size_t len, char delim,
 	size_t          i;
 	M_bool          success = M_FALSE;
 
-	if (M_str_isempty(str)) {
+	if (len == 0 || M_str_isempty(str)) {
 		return NULL;
 	}
 	kvs = M_str_explode_quoted((unsigned char)delim, str, len, (unsigned char)quote, (unsigned char)escape, 0, &num_kvs, NULL);
-- 
2.43.0


From d9f5ef795c8d8dce3f7452cfad3ac9b14aefcd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 063/138] fix: insert after the last equal element when it ends
 the searched range

---
 base/sort/m_sort_binary.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/sort/m_sort_binary.c b/base/sort/m_sort_binary.c
index a6809bf..68eb1f8 100644
--- a/base/sort/m_sort_binary.c
+++ b/base/sort/m_sort_binary.c
@@ -147,8 +147,10 @@ static M_bool M_sort_binary_idx(const void *base, size_t nmemb, size_t esize, co
 
 		/* Since we're not finding a match, that means we're probably inserting,
 		 * so we want to insert to the *end* of the identical matches */
-		while (mid < (size_t)right && eq == 0) {
+		while (eq == 0) {
 			mid++;
+			if (mid > (size_t)right)
+				break;
 			eq = compar(key, (const unsigned char *)base+(mid*esize), thunk);
 		}
 		*idx = mid;
-- 
2.43.0


From 3ff1a4e761e50ea7c3f70e01dba7c8c86d09de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 064/138] fix: removing duplicates from a sorted list keeps the
 distinct values

---
 base/list/m_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 1c4ea1f..4e70f56 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -775,8 +775,8 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 					;
 				/* We want to do a bulk remove since the duplicates will be contiguous and one move
 				 * operation will be faster than multiple. */
-				if (j > i)
-					M_list_remove_range(d, M_list_convert_idx_at(d, i+1), M_list_convert_idx_at(d, j));
+				if (j > i+1)
+					M_list_remove_range(d, i+1, j-1);
 			}
 		}
 	/* O(n^2) because we're unsorted so insertion order is assumed and we want to maintain the insertion order. */
-- 
2.43.0


From 41ad051f2220a514764e6d36590c3262944fcfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 065/138] fix: remove the matching value from a stack

---
 base/list/m_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 4e70f56..8ccac44 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -352,7 +352,7 @@ static size_t M_list_match_op_val_int(M_list_t *d, const void *val, const void *
 				d->value_free(d->start[i]);
 				d->start[i] = ptr;
 			} else if (match_op == M_LIST_MATCH_OP_REMOVE) {
-				M_list_remove_at(d, i);
+				M_list_remove_at(d, M_list_convert_idx_at(d, i));
 			}
 			cnt++;
 		}
-- 
2.43.0


From f62141c6cd2b3c2b538e5ef54e27c2aabfea3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 066/138] fix: remove every instance of a pointer from a sorted
 list

---
 base/list/m_list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 8ccac44..d2d70f7 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -292,6 +292,9 @@ static size_t M_list_match_op_val_int(M_list_t *d, const void *val, const void *
 					if (val == d->start[i]) {
 						if (match_op == M_LIST_MATCH_OP_REMOVE || match_op == M_LIST_MATCH_OP_REPLACE) {
 							M_list_remove_at(d, i);
+							/* The match we started at has moved down. */
+							start--;
+							end--;
 						}
 						cnt++;
 					}
-- 
2.43.0


From ab7829beff1ca1139e5d1bb8bce7ab69eb24c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 067/138] fix: always pass a list's thunk to its equality
 function

---
 base/list/m_list.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index d2d70f7..7b54206 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -571,7 +571,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 			/* Scan up if we don't have a match for entries that also match the value. */
 			if (!ret) {
 				for (i=(*idx)+1; i<d->elements; i++) {
-					if (d->equality(&val, &d->start[i], NULL) != 0) {
+					if (d->equality(&val, &d->start[i], d->thunk) != 0) {
 						break;
 					}
 					if (val == d->start[i]) {
@@ -584,7 +584,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 			/* Scan down if we don't have a match for entries that also match the value. */
 			if (!ret) {
 				for (i=*idx; i-->0; ) {
-					if (d->equality(&val, &d->start[i], NULL) != 0) {
+					if (d->equality(&val, &d->start[i], d->thunk) != 0) {
 						break;
 					}
 					if (val == d->start[i]) {
@@ -610,7 +610,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 				return M_TRUE;
 			}
 		} else {
-			if (d->equality(&val, &d->start[i], NULL) == 0) {
+			if (d->equality(&val, &d->start[i], d->thunk) == 0) {
 				*idx = M_list_convert_idx_at(d, i);
 				return M_TRUE;
 			}
@@ -765,7 +765,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 			if (type & M_LIST_MATCH_PTR) {
 				/* Matching pointers means we have to find each individual match and remove it. */
 				/* Only look forward until we run out of matches because matches will be adjacent. */
-				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], NULL) == 0; j++) {
+				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], d->thunk) == 0; j++) {
 					/* Only remove if the pointer actually matches. */
 					if (d->start[i] == d->start[j]) {
 						M_list_remove_at(d, M_list_convert_idx_at(d, j));
@@ -774,7 +774,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 				}
 			} else {
 				/* Matching values means we can find where the value starts and ends an only remove the range. */
-				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], NULL) == 0; j++)
+				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], d->thunk) == 0; j++)
 					;
 				/* We want to do a bulk remove since the duplicates will be contiguous and one move
 				 * operation will be faster than multiple. */
@@ -786,7 +786,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 	} else {
 		for (i=0; i<d->elements; i++) {
 			for (j=i+1; j<d->elements; j++) {
-				if ((!(type & M_LIST_MATCH_PTR) && d->equality(&d->start[i], &d->start[j], NULL) == 0) || (type & M_LIST_MATCH_PTR && d->start[i] == d->start[j])) {
+				if ((!(type & M_LIST_MATCH_PTR) && d->equality(&d->start[i], &d->start[j], d->thunk) == 0) || (type & M_LIST_MATCH_PTR && d->start[i] == d->start[j])) {
 					M_list_remove_at(d, M_list_convert_idx_at(d, j));
 					/* Need to ensure we don't skip anything. We've removed item at j and the item after
  					 * as shifted to fill j. We need to decrement j so the for loop will increment j and
@@ -847,6 +847,7 @@ M_list_t *M_list_duplicate(const M_list_t *d)
 	callbacks.duplicate_copy   = d->duplicate_copy;
 	callbacks.value_free       = d->value_free;
 	dupd = M_list_create(&callbacks, d->flags);
+	dupd->thunk = d->thunk;
 
 	M_list_insert_begin(dupd);
 	for (i=0; i<d->elements; i++) {
@@ -882,6 +883,7 @@ static void M_list_merge_int(M_list_t **dest, M_list_t *src, const M_list_t *dup
 		callbacks.duplicate_copy   = src->duplicate_copy;
 		callbacks.value_free       = src->value_free;
 		*dest = M_list_create(&callbacks, src->flags);
+		(*dest)->thunk = src->thunk;
 	}
 
 	/* If dest is a set we're never going to include duplicates. */
-- 
2.43.0


From e71a75be10712e1c1f6bfcae551d40b5f30b2dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 068/138] fix: sort again when only the thunk of a list changes

---
 base/list/m_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 7b54206..acda45d 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -437,7 +437,7 @@ void M_list_change_sorting(M_list_t *d, M_sort_compar_t equality, M_uint32 sorte
 	/* Nothing is changing */
 	if ((sorted_flags & M_LIST_SORTED) == (d->flags & M_LIST_SORTED)     &&
 			(sorted_flags & M_LIST_STABLE) == (d->flags & M_LIST_STABLE) &&
-			equality == d->equality)
+			equality == d->equality && thunk == d->thunk)
 	{
 		return;
 	}
-- 
2.43.0


From 1d0d6629712fcbbae5e5d5b8dd2282ace04b0d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 069/138] fix: check and convert the indexes given to
 M_list_swap

---
 base/list/m_list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index acda45d..7ce46f4 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -820,9 +820,12 @@ M_bool M_list_swap(M_list_t *d, size_t idx1, size_t idx2)
 {
 	void *temp;
 
-	if (d == NULL || d->elements == 0 || (d->flags & M_LIST_SORTED) || idx1 == idx2 || idx1 > d->elements || idx2 > d->elements)
+	if (d == NULL || d->elements == 0 || (d->flags & M_LIST_SORTED) || idx1 == idx2 || idx1 >= d->elements || idx2 >= d->elements)
 		return M_FALSE;
 
+	idx1           = M_list_convert_idx_at(d, idx1);
+	idx2           = M_list_convert_idx_at(d, idx2);
+
 	temp           = d->start[idx1];
 	d->start[idx1] = d->start[idx2];
 	d->start[idx2] = temp;
-- 
2.43.0


From 564e3dca65bd4e3ea990cf686fce99565387ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 070/138] fix: remove ranges from stacks

---
 base/list/m_list.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 7ce46f4..a43c673 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -716,12 +716,16 @@ M_bool M_list_remove_range(M_list_t *d, size_t start, size_t end)
 	if (d == NULL || start > end || start >= d->elements)
 		return M_FALSE;
 
-	start = M_list_convert_idx_at(d, start);
-	end   = M_list_convert_idx_at(d, end);
-
 	if (end >= d->elements)
 		end = d->elements-1;
 
+	if (d->flags & M_LIST_STACK) {
+		/* The order is reversed so the end of the range is stored first. */
+		i     = start;
+		start = M_list_convert_idx_at(d, end);
+		end   = M_list_convert_idx_at(d, i);
+	}
+
 	if (end == d->elements-1)
 		remove_to_end = M_TRUE;
 
-- 
2.43.0


From f57081817bd48ba347ccb385f25801a3a1ed1243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 071/138] fix: insert at the index asked for

---
 base/list/m_list.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index a43c673..d899d08 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -500,7 +500,12 @@ M_bool M_list_insert_at(M_list_t *d, const void *val, size_t idx)
 	if ((d->flags & M_LIST_SORTED) && !d->multi_insert) {
 		return M_FALSE;
 	}
-	return M_list_insert_at_int(d, val, M_list_convert_idx_at(d, idx), M_LIST_INSERT_INITIAL|M_LIST_INSERT_DUP);
+	/* An index past the end means append. A stack stores its last element first. */
+	if (idx > d->elements)
+		idx = d->elements;
+	if (d->flags & M_LIST_STACK)
+		idx = d->elements - idx;
+	return M_list_insert_at_int(d, val, idx, M_LIST_INSERT_INITIAL|M_LIST_INSERT_DUP);
 }
 
 void M_list_insert_begin(M_list_t *d)
-- 
2.43.0


From 55ccb5129a255fd1ba5f36989603683c8867a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 072/138] fix: keep sets unique when replacing at an index

---
 base/list/m_list.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index d899d08..fcd05dd 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -820,6 +820,15 @@ M_bool M_list_replace_at(M_list_t *d, const void *val, size_t idx)
 
 	idx = M_list_convert_idx_at(d, idx);
 
+	/* A set can't have the value twice. It can only be present at the index being replaced. */
+	if (d->flags & (M_LIST_SET_VAL|M_LIST_SET_PTR)) {
+		size_t i;
+		for (i=0; i<d->elements; i++) {
+			if (i != idx && ((d->flags & M_LIST_SET_PTR)?(val == d->start[i]):(d->equality(&val, &d->start[i], d->thunk) == 0)))
+				return M_FALSE;
+		}
+	}
+
 	d->value_free(d->start[idx]);
 	d->start[idx] = d->duplicate_insert(val);
 	return M_TRUE;
-- 
2.43.0


From 396f29f451ab024d1f8505373d7f05611547f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 073/138] fix: keep the destination's own rules when merging
 into an empty list

---
 base/list/m_list.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index fcd05dd..2ccbf1c 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -892,8 +892,7 @@ static void M_list_merge_int(M_list_t **dest, M_list_t *src, const M_list_t *dup
 		return;
 	}
 
-	if ((*dest == NULL || M_list_len(*dest) == 0) && dups == NULL) {
-		M_list_destroy(*dest, M_TRUE);
+	if (*dest == NULL && dups == NULL) {
 		*dest = src;
 		return;
 	}
@@ -937,8 +936,7 @@ void M_list_merge(M_list_t **dest, M_list_t *src, M_bool include_duplicates, M_u
 		return;
 	}
 
-	if (*dest == NULL || M_list_len(*dest) == 0) {
-		M_list_destroy(*dest, M_TRUE);
+	if (*dest == NULL) {
 		*dest = src;
 		return;
 	}
-- 
2.43.0


From 4b81b7a3da69983d8380dab02bc9833b44c57d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 074/138] fix: keep sets unique when merging a sorted list

---
 base/list/m_list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 2ccbf1c..fe52c51 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -909,6 +909,8 @@ static void M_list_merge_int(M_list_t **dest, M_list_t *src, const M_list_t *dup
 	/* If dest is a set we're never going to include duplicates. */
 	if ((*dest)->flags & (M_LIST_SET_VAL|M_LIST_SET_PTR)) {
 		include_duplicates = M_FALSE;
+		if (dups == NULL)
+			dups = *dest;
 		type               = ((*dest)->flags&M_LIST_SET_PTR)?M_LIST_MATCH_PTR:M_LIST_MATCH_VAL;
 	}
 
-- 
2.43.0


From 22eabb3db070e177c1d7fe61a2cddd05c9971ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 075/138] fix: free the wrapped value when a binary list does
 not take it

---
 base/list/m_list_bin.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/base/list/m_list_bin.c b/base/list/m_list_bin.c
index 7e82aaf..36a398c 100644
--- a/base/list/m_list_bin.c
+++ b/base/list/m_list_bin.c
@@ -45,7 +45,7 @@ M_list_bin_t *M_list_bin_create(M_uint32 flags)
 	M_list_flags_t          lflags    = M_LIST_NONE;
 	struct M_list_callbacks callbacks = {
 		M_sort_compar_binwraped,
-		NULL, /* The wrapper will manage copying for insert. */
+		M_bin_wrapeddup_vp,
 		M_bin_wrapeddup_vp,
 		M_free
 	};
@@ -73,7 +73,10 @@ void M_list_bin_destroy(M_list_bin_t *d)
 M_bool M_list_bin_insert(M_list_bin_t *d, const M_uint8 *val, size_t len)
 {
 	M_uint8 *duped_val = M_bin_wrap(val, len);
-	return M_list_insert((M_list_t *)d, duped_val);
+	M_bool   ret       = M_list_insert((M_list_t *)d, duped_val);
+
+	M_free(duped_val);
+	return ret;
 }
 
 size_t M_list_bin_insert_idx(const M_list_bin_t *d, const M_uint8 *val, size_t len)
@@ -91,7 +94,10 @@ size_t M_list_bin_insert_idx(const M_list_bin_t *d, const M_uint8 *val, size_t l
 M_bool M_list_bin_insert_at(M_list_bin_t *d, const M_uint8 *val, size_t len, size_t idx)
 {
 	M_uint8 *duped_val = M_bin_wrap(val, len);
-	return M_list_insert_at((M_list_t *)d, duped_val, idx);
+	M_bool   ret       = M_list_insert_at((M_list_t *)d, duped_val, idx);
+
+	M_free(duped_val);
+	return ret;
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
@@ -223,9 +229,8 @@ size_t M_list_bin_replace_val(M_list_bin_t *d, const M_uint8 *val, size_t len, c
 
 	cnt = M_list_replace_val((M_list_t *)d, duped_val, new_duped_val, M_list_bin_convert_match_type(type));
 	M_free(duped_val);
+	M_free(new_duped_val);
 
-	if (cnt == 0)
-		M_free(new_duped_val);
 	return cnt;
 }
 
@@ -236,8 +241,7 @@ M_bool M_list_bin_replace_at(M_list_bin_t *d, const M_uint8 *val, size_t len, si
 
 	duped_val = M_bin_wrap(val, len);
 	ret       = M_list_replace_at((M_list_t *)d, duped_val, idx);
-	if (!ret)
-		M_free(duped_val);
+	M_free(duped_val);
 
 	return ret;
 }
-- 
2.43.0


From 969fd41958edebe6ee1eec4ba7663858b631a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 076/138] fix: compare the bytes of wrapped binary values

---
 base/sort/m_sort_compar.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/base/sort/m_sort_compar.c b/base/sort/m_sort_compar.c
index f60d5d5..affbdde 100644
--- a/base/sort/m_sort_compar.c
+++ b/base/sort/m_sort_compar.c
@@ -79,10 +79,10 @@ int M_sort_compar_u64_desc(const void *arg1, const void *arg2, void *thunk)
 
 int M_sort_compar_binwraped(const void *arg1, const void *arg2, void *thunk)
 {
-	M_uint8 *val1;
-	M_uint8 *val2;
-	size_t   len1;
-	size_t   len2;
+	const M_uint8 *val1;
+	const M_uint8 *val2;
+	size_t         len1;
+	size_t         len2;
 
 	(void)thunk;
 
@@ -93,12 +93,11 @@ int M_sort_compar_binwraped(const void *arg1, const void *arg2, void *thunk)
 	if (arg2 == NULL)
 		return 1;
 
-	val1 = *(M_uint8 * const *)arg1;
-	val2 = *(M_uint8 * const *)arg2;
-	M_mem_copy(&len1, val1, sizeof(len1));
-	M_mem_copy(&len2, val2, sizeof(len1));
+	/* The data doesn't directly follow its length. */
+	val1 = M_bin_unwrap(*(M_uint8 * const *)arg1, &len1);
+	val2 = M_bin_unwrap(*(M_uint8 * const *)arg2, &len2);
 
-	return M_mem_cmpsort(val1, len1+sizeof(len1), val2, len2+sizeof(len2));
+	return M_mem_cmpsort(val1, len1, val2, len2);
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
-- 
2.43.0


From 695a544304dbb9f03a0481e906b7707c631dd19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 077/138] fix: insert equal values of a sorted M_llist in order

---
 base/list/m_llist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 7d1a75f..b63651a 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -254,7 +254,7 @@ static M_bool M_llist_insert_sorted(M_llist_node_t *node)
 		if (n1 != NULL) {
 			/* At the current level, scan forward to find the insertion point.  Our
 			 * node will be appended to the node found */
-			while (n1->links.sorted.next[i] != NULL && d->equality(&(node->val), &(n1->links.sorted.next[i]->val), d->equality_thunk) > 0) {
+			while (n1->links.sorted.next[i] != NULL && d->equality(&(node->val), &(n1->links.sorted.next[i]->val), d->equality_thunk) >= 0) {
 				n1 = n1->links.sorted.next[i];
 			}
 		}
-- 
2.43.0


From db687b912c54aa0017ede40029ec147b4104a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 078/138] fix: stop after one round when removing values from a
 circular M_llist

---
 base/list/m_llist.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index b63651a..76ce070 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -353,6 +353,7 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 	M_llist_node_t *next;
 	M_bool          val_match;
 	M_bool          match;
+	M_bool          is_last;
 	size_t          cnt = 0;
 
 	if (d == NULL || val == NULL || (!(type & M_LLIST_MATCH_PTR) && d->equality == NULL))
@@ -374,6 +375,7 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 	while (node != NULL) {
 		/* Store the next pointer in case we're removing so we know where we're moving to. */
 		next      = M_llist_node_next(node);
+		is_last   = (next == NULL || next == first)?M_TRUE:M_FALSE;
 		val_match = M_FALSE;
 		match     = M_FALSE;
 
@@ -399,6 +401,10 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 		/* If we have a match remove if necessary and add to our count. */
 		if (match) {
 			if (match_op == M_LLIST_MATCH_OP_REMOVE) {
+				/* A circular list ends where it starts, which moves when the first node is removed. */
+				if (node == first) {
+					first = next;
+				}
 				if (M_llist_remove_node(node)) {
 					cnt++;
 				}
@@ -417,11 +423,10 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 		if (cnt == 1 && !(type & M_LLIST_MATCH_ALL) && match_op != M_LLIST_MATCH_OP_COUNT) {
 			break;
 		}
-		node = next;
-
-		if (node == first) {
+		if (is_last) {
 			break;
 		}
+		node = next;
 	}
 	
 	return cnt;
-- 
2.43.0


From 247a38c21f81813dfe595ba70ec6ffc05b17093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 079/138] fix: keep the comparator thunk when duplicating an
 M_llist

---
 base/list/m_llist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 76ce070..64e163a 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -1023,6 +1023,7 @@ M_llist_t *M_llist_duplicate(const M_llist_t *d)
 	callbacks.duplicate_copy   = d->duplicate_copy;
 	callbacks.value_free       = d->value_free;
 	dupd = M_llist_create(&callbacks, d->flags);
+	dupd->equality_thunk = d->equality_thunk;
 
 	first = M_llist_first(d);
 	node  = first;
-- 
2.43.0


From b5bad804fdae3e7545b03a23a2353969e3621f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 080/138] fix: empty a circular M_llist when its only node is
 removed

---
 base/list/m_llist.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 64e163a..2299791 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -192,9 +192,13 @@ static void M_llist_node_unlink(M_llist_node_t *n)
 
 	d = n->parent;
 
-	/* Unlink n and relink it's neighbors. */
+	/* Unlink n and relink it's neighbors. The only node of a circular list is its own neighbor. */
 	next = n->links.unsorted.next;
 	prev = n->links.unsorted.prev;
+	if (next == n) {
+		next = NULL;
+		prev = NULL;
+	}
 	if (next != NULL)
 		next->links.unsorted.prev = prev;
 	if (prev != NULL)
@@ -202,9 +206,9 @@ static void M_llist_node_unlink(M_llist_node_t *n)
 
 	/* Fix head and tail. */
 	if (n == d->head.unsorted.head)
-		d->head.unsorted.head = n->links.unsorted.next;
+		d->head.unsorted.head = next;
 	if (n == d->tail)
-		d->tail = n->links.unsorted.prev;
+		d->tail = prev;
 
 	n->links.unsorted.next = NULL;
 	n->links.unsorted.prev = NULL;
-- 
2.43.0


From 9bba42fd67bdb9613b3e77bedb0bd2bf21215bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 081/138] fix: duplicate the value, not the key, in M_cache

---
 base/cache/m_cache.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/cache/m_cache.c b/base/cache/m_cache.c
index 680cea9..7e73fc0 100644
--- a/base/cache/m_cache.c
+++ b/base/cache/m_cache.c
@@ -57,8 +57,8 @@ static M_cache_value_t *M_cache_value_create(const M_cache_t *c, const void *key
 		cval->key = M_CAST_OFF_CONST(void *, key);
 	}
 
-	if (c->value_duplicate != NULL) {
-		cval->value = c->value_duplicate(key);
+	if (c->value_duplicate != NULL && value != NULL) {
+		cval->value = c->value_duplicate(value);
 	} else {
 		cval->value = M_CAST_OFF_CONST(void *, value);
 	}
@@ -184,7 +184,7 @@ M_bool M_cache_insert(M_cache_t *c, const void *key, const void *value)
 	if (!newval) {
 		/* Update bucket data value. */
 		if (c->value_duplicate != NULL && value != NULL) {
-			cval->value = c->value_duplicate(key);
+			cval->value = c->value_duplicate(value);
 		} else {
 			cval->value = M_CAST_OFF_CONST(void *, value);
 		}
-- 
2.43.0


From bca76d580f04dfe56fc76ee7ccaf2ffc26ab3747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 082/138] fix: set the length when there is nothing to unwrap

---
 base/data/m_bin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/data/m_bin.c b/base/data/m_bin.c
index 91ec288..06a72d9 100644
--- a/base/data/m_bin.c
+++ b/base/data/m_bin.c
@@ -83,6 +83,7 @@ M_uint8 *M_bin_unwrapdup(const M_uint8 *value, size_t *len)
 
 	if (len == NULL)
 		len = &mylen;
+	*len = 0;
 
 	if (value == NULL)
 		return NULL;
-- 
2.43.0


From 723a577cdd4045907bfacbb9a0bbcb1cd164cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 083/138] fix: initialise the running flag of interleaved
 states

---
 base/data/m_state_machine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index d8c46ac..5a07aed 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -190,6 +190,7 @@ static M_state_machine_state_t *M_state_machine_state_create_interleaved(M_uint6
 	s->d.interleaved.pre  = pre;
 	s->d.interleaved.post = post;
 	s->d.interleaved.idx  = 0;
+	s->d.interleaved.running = M_FALSE;
 
 	return s;
 }
-- 
2.43.0


From b54a12a76bfb2391993a6128442514c8cbd13cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 084/138] fix: pass the status to the machine exit trace

---
 base/data/m_state_machine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 5a07aed..cc49de8 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -844,7 +844,7 @@ static M_state_machine_status_t M_state_machine_run_machine(M_state_machine_t *m
 	M_state_machine_status_t status;
 	M_state_machine_call_trace(M_STATE_MACHINE_TRACE_MACHINEENTER, master, current, M_STATE_MACHINE_STATUS_NONE, M_FALSE, 0);
 	status = M_state_machine_run_states(master, current, data);
-	M_state_machine_call_trace(M_STATE_MACHINE_TRACE_MACHINEEXIT, master, current, M_STATE_MACHINE_STATUS_NONE, M_FALSE, 0);
+	M_state_machine_call_trace(M_STATE_MACHINE_TRACE_MACHINEEXIT, master, current, status, M_FALSE, 0);
 	return status;
 }
 
-- 
2.43.0


From 8da61bc3deffaeee1b18bf9afb97afb70993add5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 085/138] fix: finish waiting cleanups with ONE_CLEANUP

---
 base/data/m_state_machine.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index cc49de8..886e3a1 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -366,8 +366,9 @@ static M_state_machine_status_t M_state_machine_run_cleanup(M_state_machine_t *m
 			case M_STATE_MACHINE_STATUS_PAUSE:
 			case M_STATE_MACHINE_STATUS_WAIT:
 				/* Put the id back so when this is called again this cleanup
-				 * machine will run. */
+				 * machine will run. It has not finished so it must not be skipped. */
 				M_list_u64_insert(current->cleanup_ids, id);
+				M_hash_u64vp_remove(current->cleanup_seen_ids, id, M_FALSE);
 				return status;
 			case M_STATE_MACHINE_STATUS_DONE:
 				continue;
@@ -385,11 +386,6 @@ static M_state_machine_status_t M_state_machine_run_cleanup(M_state_machine_t *m
 				status = M_STATE_MACHINE_STATUS_DONE;
 				break;
 		}
-
-		/* If we're only allowing cleanup run once we need to track that this one ran. */
-		if (current->flags & M_STATE_MACHINE_ONE_CLEANUP) {
-			M_hash_u64vp_remove(current->cleanup_seen_ids, id, M_FALSE);
-		}
 	}
 
 	/* All cleanup machines ran so clear the seen states. */
-- 
2.43.0


From 473249c712c193def2eca2a6bc5b946eb4d21293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 086/138] fix: do not clean up states that were skipped

---
 base/data/m_state_machine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 886e3a1..a03afa1 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -730,7 +730,7 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 		}
 
 		/* State ran so it should cleanup if necessary. */
-		if (state->type != M_STATE_MACHINE_STATE_TYPE_SUBM && state->type != M_STATE_MACHINE_STATE_TYPE_INTERLEAVED && status != M_STATE_MACHINE_STATUS_WAIT) {
+		if (state->type != M_STATE_MACHINE_STATE_TYPE_SUBM && state->type != M_STATE_MACHINE_STATE_TYPE_INTERLEAVED && status != M_STATE_MACHINE_STATUS_WAIT && status != M_STATE_MACHINE_STATUS_CONTINUE) {
 			M_list_u64_insert(current->cleanup_ids, current->current_id);
 		}
 
-- 
2.43.0


From 1f48af1f304e9201c47d80cd19fdff8b48359396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 087/138] fix: report ERROR_NO_PREV

---
 base/data/m_state_machine.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index a03afa1..45f3bf9 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -798,13 +798,14 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 			break;
 
 			case M_STATE_MACHINE_STATUS_PREV:
-				current->current_id = M_state_machine_pop_prev_id(current);
+				next_id = M_state_machine_pop_prev_id(current);
 				/* No previous id to move to */
-				if (current->current_id == 0) {
+				if (next_id == 0) {
 					current->cleanup_reason = M_STATE_MACHINE_CLEANUP_REASON_ERROR;
 					current->return_status  = M_STATE_MACHINE_STATUS_ERROR_NO_PREV;
 					continue;
 				}
+				current->current_id = next_id;
 			break;
 
 			case M_STATE_MACHINE_STATUS_NONE:
-- 
2.43.0


From 6a69367272c22e18577a6b7fbc587f35ce60352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:27 +0000
Subject: [PATCH 088/138] fix: process a group of short options once

---
 base/data/m_getopt_parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/data/m_getopt_parse.c b/base/data/m_getopt_parse.c
index db2e812..fb51a97 100644
--- a/base/data/m_getopt_parse.c
+++ b/base/data/m_getopt_parse.c
@@ -138,6 +138,7 @@ static M_getopt_error_t M_getopt_parse_option_short(const M_getopt_t *g, const c
 				return ret;
 			}
 		}
+		return M_GETOPT_ERROR_SUCCESS;
 	}
 
 	opt = M_hash_u64vp_get_direct(g->short_opts, (M_uint64)option[0]);
-- 
2.43.0


From 87e034b9aa84b52921c15ed099b49cd180ccb690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 089/138] fix: reject numbers followed by other text

---
 base/data/m_getopt_parse.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/data/m_getopt_parse.c b/base/data/m_getopt_parse.c
index fb51a97..3ddb00d 100644
--- a/base/data/m_getopt_parse.c
+++ b/base/data/m_getopt_parse.c
@@ -31,11 +31,12 @@
 static M_bool M_getopt_parse_option_value_integer(const M_getopt_option_t *opt, const char *val, void *thunk)
 {
 	M_int64            val_int = 0;
+	const char        *endptr  = NULL;
 	M_str_int_retval_t ret_int;
 
 	if (val != NULL) {
-		ret_int = M_str_to_int64_ex(val, M_str_len(val), 10, &val_int, NULL);
-		if (ret_int != M_STR_INT_SUCCESS) {
+		ret_int = M_str_to_int64_ex(val, M_str_len(val), 10, &val_int, &endptr);
+		if (ret_int != M_STR_INT_SUCCESS || *endptr != '\0') {
 			return M_FALSE;
 		}
 	}
@@ -45,12 +46,13 @@ static M_bool M_getopt_parse_option_value_integer(const M_getopt_option_t *opt,
 static M_bool M_getopt_parse_option_value_decimal(const M_getopt_option_t *opt, const char *val, void *thunk)
 {
 	M_decimal_t           val_dec;
+	const char           *endptr = NULL;
 	enum M_DECIMAL_RETVAL ret_dec;
 
 	M_decimal_create(&val_dec);
 	if (val != NULL) {
-		ret_dec = M_decimal_from_str(val, M_str_len(val), &val_dec, NULL);
-		if (ret_dec != M_DECIMAL_SUCCESS) {
+		ret_dec = M_decimal_from_str(val, M_str_len(val), &val_dec, &endptr);
+		if (ret_dec != M_DECIMAL_SUCCESS || *endptr != '\0') {
 			return M_FALSE;
 		}
 	}
-- 
2.43.0


From 9887f1e6ee3314383b2de4997362c2a4ea20d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 090/138] fix: normalise day counts across leap days correctly

---
 base/time/m_time_gm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_gm.c b/base/time/m_time_gm.c
index 3873d09..4a0ce69 100644
--- a/base/time/m_time_gm.c
+++ b/base/time/m_time_gm.c
@@ -89,11 +89,13 @@ void M_time_normalize_tm(struct M_time_tm *tm)
 
 	/* Optimization: normalize days to years. Not necesary
 	 * to the calc, but helps */
+	normalize_range(&tm->year, &tm->month, 0, 11);
 	while (1) {
+		/* From March on the leap day is in the following February */
 		if (tm->day > 0) {
-			is_leapyear = IS_LEAPYEAR(tm->year);
+			is_leapyear = IS_LEAPYEAR(tm->month >= 2 ? tm->year+1 : tm->year);
 		} else {
-			is_leapyear = IS_LEAPYEAR(tm->year-1);
+			is_leapyear = IS_LEAPYEAR(tm->month >= 2 ? tm->year : tm->year-1);
 		}
 		num_year_days = is_leapyear?366:365;
 
-- 
2.43.0


From 3421c37dd6e5a9ac4f5368e8090598ba7869aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 091/138] fix: load zoneinfo on Unix and the Windows database
 on Windows

---
 base/time/m_time_tzs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_tzs.c b/base/time/m_time_tzs.c
index cd18e7e..94e5623 100644
--- a/base/time/m_time_tzs.c
+++ b/base/time/m_time_tzs.c
@@ -123,7 +123,7 @@ M_time_load_source_t M_time_tzs_load(M_time_tzs_t **tzs, M_uint32 zones, M_uint3
 	if (tzs == NULL)
 		return M_TIME_LOAD_SOURCE_FAIL;
 
-#ifndef _WIN32
+#ifdef _WIN32
 	*tzs = M_time_tzs_load_win_zones(zones, alias_f, flags);
 #else
 	*tzs = M_time_tzs_load_zoneinfo(NULL, zones, alias_f, flags);
-- 
2.43.0


From 7e0d332ba92ae7f5aa0e6add3fcbbfccf75c3ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 092/138] fix: correct the offsets of the fallback US zones

---
 base/time/m_time_tzs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/time/m_time_tzs.c b/base/time/m_time_tzs.c
index 94e5623..92c458f 100644
--- a/base/time/m_time_tzs.c
+++ b/base/time/m_time_tzs.c
@@ -141,10 +141,10 @@ M_time_load_source_t M_time_tzs_load(M_time_tzs_t **tzs, M_uint32 zones, M_uint3
 
 	*tzs = M_time_tzs_create();
 	/* Main US timezones. DST rules implemented in 2007. */
-	M_time_tzs_add_posix_str(*tzs, "EST4EDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
-	M_time_tzs_add_posix_str(*tzs, "CST5CDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
-	M_time_tzs_add_posix_str(*tzs, "MST6MDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
-	M_time_tzs_add_posix_str(*tzs, "PST7PDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
+	M_time_tzs_add_posix_str(*tzs, "EST5EDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
+	M_time_tzs_add_posix_str(*tzs, "CST6CDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
+	M_time_tzs_add_posix_str(*tzs, "MST7MDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
+	M_time_tzs_add_posix_str(*tzs, "PST8PDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
 
 	return M_TIME_LOAD_SOURCE_FALLBACK;
 }
-- 
2.43.0


From 075d4f3a92aba3d23cfae8f43cd7447c2cc8995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 093/138] fix: honour backward occurrences in DST rules

---
 base/time/m_time_tz_rule.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index a679ec0..9e33ba6 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -63,7 +63,7 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 		start_day = 1;
 	} else {
 		start_day = M_time_days_in_month(atime.year, atime.month);
-		if (atime.day == 0) {
+		if (start_day == 0) {
 			return M_FALSE;
 		}
 	}
@@ -83,7 +83,7 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 		if (day > start_day) {
 			day -= 7;
 		}
-		day -= 7 * (occur-1);
+		day += 7 * (occur+1);
 	}
 
 	/* Check that the day is really valid for the month. */
-- 
2.43.0


From 9a268371be96ab931be1e504739d45048460dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 094/138] fix: read week 5 of a DST rule as the last week

---
 base/time/m_time_tz_rule.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index 9e33ba6..b619c25 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -78,6 +78,9 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 		if (day < 1)
 			day += 7;
 		day += 7 * (occur-1);
+		/* The fifth occurrence is the last one when there are only four. */
+		if (occur == 5 && day > M_time_days_in_month(year, change->month))
+			day -= 7;
 	} else {
 		day = start_day - (atime.wday - aday);
 		if (day > start_day) {
-- 
2.43.0


From 8611a277b35572dea710d423835b6d6364e70201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 095/138] fix: find the transition day before adding its time

---
 base/time/m_time_tz_rule.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index b619c25..d9eeb30 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -47,9 +47,6 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
  	 * day of the month is and from there we can determine what day of the month we're dealing with. */
 	atime.year  = year;
 	atime.month = change->month;
-	atime.hour  = change->hour;
-	atime.min   = change->min;
-	atime.sec   = change->sec;
 	occur       = change->occur;
 	aday        = change->wday;
 
@@ -93,7 +90,10 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 	if (!M_time_is_valid_day(year, atime.month, day)) {
 		return M_FALSE;
 	}
-	atime.day = day;
+	atime.day   = day;
+	atime.hour  = change->hour;
+	atime.min   = change->min;
+	atime.sec   = change->sec;
 
 	*out = M_time_fromgm(&atime);
 	return M_TRUE;
-- 
2.43.0


From 6afcf1b60489672abbf3c164a4448d280658ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 096/138] fix: end DST on time east of Greenwich

---
 base/time/m_time_tz_rule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index d9eeb30..229a55a 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -149,7 +149,7 @@ static M_bool M_time_tz_rule_isdst(const M_time_tz_dst_rule_t *adjust, const M_t
 
 	M_mem_copy(&myltime, ltime, sizeof(myltime));
 	cur_time    = M_time_fromgm(&myltime);
-	offset_diff = M_ABS(adjust->offset) - M_ABS(adjust->offset_dst);
+	offset_diff = adjust->offset_dst - adjust->offset;
 	isdst       = ltime->isdst==1?M_TRUE:M_FALSE;
 
 	if (dststart < dstend) {
-- 
2.43.0


From dc20a17a60c981fda92c26b51ec6452c63340922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 097/138] fix: apply DST in the southern summer

---
 base/time/m_time_tz_rule.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index 229a55a..6668fff 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -120,10 +120,10 @@ static M_bool M_time_tz_rule_isdst_mid(M_time_t cur_time, M_time_t dststart, M_t
 
 static M_bool M_time_tz_rule_isdst_ends(M_time_t cur_time, M_time_t dststart, M_time_t dstend, M_time_t offset_diff, M_bool isdst)
 {
-	if (!isdst && cur_time <= dststart && cur_time >= dststart-offset_diff)
+	if (!isdst && cur_time <= dstend && cur_time >= dstend-offset_diff)
 		return M_FALSE;
 
-	if (cur_time > dststart || cur_time < dstend)
+	if (cur_time < dststart && cur_time > dstend)
 		return M_FALSE;
 	return M_TRUE;
 }
-- 
2.43.0


From ad148675ddfdea6d03c98652cf240bc2e898f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:27 +0000
Subject: [PATCH 098/138] fix: report the abbreviation of zones without DST

---
 base/time/m_time_tz_rule.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index 6668fff..a6038f7 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -236,6 +236,8 @@ static M_time_t M_time_tz_rule_adjust_tolocal(const void *data, M_time_t gmt, M_
 
 	/* No DST rules apply */
 	if (M_time_tz_dst_rules_len(rtz->adjusts) == 0) {
+		if (abbr)
+			*abbr = rtz->abbr;
 		return rtz->offset;
 	}
 
-- 
2.43.0


From e73b1c74102431cfb0374069f76b3669fb44a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 099/138] fix: end DST at the transition, not a second later

---
 base/time/m_time_tz_rule.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index a6038f7..d7d60dd 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -113,7 +113,7 @@ static M_bool M_time_tz_rule_isdst_mid(M_time_t cur_time, M_time_t dststart, M_t
 	if (!isdst && cur_time <= dstend && cur_time >= dstend-offset_diff)
 		return M_FALSE;
 
-	if (cur_time < dststart || cur_time > dstend)
+	if (cur_time < dststart || cur_time >= dstend)
 		return M_FALSE;
 	return M_TRUE;
 }
@@ -123,7 +123,7 @@ static M_bool M_time_tz_rule_isdst_ends(M_time_t cur_time, M_time_t dststart, M_
 	if (!isdst && cur_time <= dstend && cur_time >= dstend-offset_diff)
 		return M_FALSE;
 
-	if (cur_time < dststart && cur_time > dstend)
+	if (cur_time < dststart && cur_time >= dstend)
 		return M_FALSE;
 	return M_TRUE;
 }
-- 
2.43.0


From c90fa1561b04348e13a7b0d12a1b5949588943a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 100/138] fix: reject zone rules whose numbers cannot be read

---
 base/time/m_time_tz_posix.c | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/base/time/m_time_tz_posix.c b/base/time/m_time_tz_posix.c
index 46fd0f3..90ea68e 100644
--- a/base/time/m_time_tz_posix.c
+++ b/base/time/m_time_tz_posix.c
@@ -95,9 +95,14 @@ static M_bool M_time_tz_posix_parse_date(M_parser_t *parser, int *month, int *oc
 		return M_FALSE;
 	}
 
-	M_parser_read_int(parts[0], M_PARSER_INTEGER_ASCII, 0, 10, &m_val);
-	M_parser_read_int(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &o_val);
-	M_parser_read_int(parts[2], M_PARSER_INTEGER_ASCII, 0, 10, &w_val);
+	if (!M_parser_read_int(parts[0], M_PARSER_INTEGER_ASCII, 0, 10, &m_val) ||
+		!M_parser_read_int(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &o_val) ||
+		!M_parser_read_int(parts[2], M_PARSER_INTEGER_ASCII, 0, 10, &w_val))
+	{
+		M_parser_split_free(parts, num_parts);
+		M_parser_destroy(tparser);
+		return M_FALSE;
+	}
 
 	M_parser_split_free(parts, num_parts);
 	M_parser_destroy(tparser);
@@ -133,7 +138,8 @@ static M_bool M_time_tz_posix_parse_time(M_parser_t *parser, int *hour, int *min
 	M_parser_t    **parts;
 	size_t          num_parts;
 	unsigned char   c;
-	M_int64         val;
+	M_int64         vals[3] = { 0, 0, 0 };
+	size_t          i;
 
 	if (hour == NULL || min == NULL || sec == NULL)
 		return M_FALSE;
@@ -180,18 +186,19 @@ static M_bool M_time_tz_posix_parse_time(M_parser_t *parser, int *hour, int *min
 	}
 
 	/* Set each part. */
-	if (num_parts >= 1) {
-		M_parser_read_int(parts[0], M_PARSER_INTEGER_ASCII, 0, 10, &val);
-		*hour = (int)val;
-	}
-	if (num_parts >= 2) {
-		M_parser_read_int(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &val);
-		*min = (int)val;
-	}
-	if (num_parts >= 3) {
-		M_parser_read_int(parts[2], M_PARSER_INTEGER_ASCII, 0, 10, &val);
-		*sec = (int)val;
+	for (i=0; i<num_parts; i++) {
+		if (!M_parser_read_int(parts[i], M_PARSER_INTEGER_ASCII, 0, 10, &vals[i])) {
+			M_parser_split_free(parts, num_parts);
+			M_parser_destroy(tparser);
+			return M_FALSE;
+		}
 	}
+	if (num_parts >= 1)
+		*hour = (int)vals[0];
+	if (num_parts >= 2)
+		*min = (int)vals[1];
+	if (num_parts >= 3)
+		*sec = (int)vals[2];
 
 	M_parser_split_free(parts, num_parts);
 	M_parser_destroy(tparser);
-- 
2.43.0


From 6544e5d0b1860cf1705bb03d7cc4332d4f8062e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 101/138] fix: honour the offset of %m-%d-%Y times with %z

---
 base/time/m_time_parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 823a7b8..39ff014 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -478,7 +478,7 @@ M_time_t M_time_from_str(const char *timestr, const M_time_tz_t *tz, M_bool defa
 		{ "%m-%d-%Y %H%M%S %p",     M_FALSE },
 		{ "%m-%d-%Y %I%M%S %P",     M_FALSE },
 		{ "%m-%d-%Y %I%M%S %p",     M_FALSE },
-		{ "%m-%d-%Y %H%M%S %z",     M_FALSE },
+		{ "%m-%d-%Y %H%M%S %z",     M_TRUE, },
 		{ "%m-%d-%Y %H:%M",         M_FALSE },
 		{ "%m-%d-%Y %H:%M %P",      M_FALSE },
 		{ "%m-%d-%Y %H:%M %p",      M_FALSE },
@@ -515,7 +515,7 @@ M_time_t M_time_from_str(const char *timestr, const M_time_tz_t *tz, M_bool defa
 		{ "%m-%d-%Y T %H%M%S",      M_FALSE },
 		{ "%m-%d-%Y T %H%M%S %P",   M_FALSE },
 		{ "%m-%d-%Y T %H%M%S %p",   M_FALSE },
-		{ "%m-%d-%Y T %H%M%S %z",   M_FALSE },
+		{ "%m-%d-%Y T %H%M%S %z",   M_TRUE, },
 		{ "%m-%d-%Y T %I%M%S %P",   M_FALSE },
 		{ "%m-%d-%Y T %I%M%S %p",   M_FALSE },
 		{ "%m-%d-%Y T %H:%M",       M_FALSE },
-- 
2.43.0


From e0927e4d76e2526d84bb42c30908aa71e03e9e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 102/138] fix: give the offset of named zones in seconds

---
 base/time/m_time_parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 39ff014..2f6d580 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -228,6 +228,7 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 {
 	M_time_t x;
 	M_bool   isneg = M_FALSE;
+	M_bool   named = M_TRUE; /* Offset of an identifier, in hours. */
 
 	if (s == NULL || *s == NULL || **s == '\0' || gmtoff == NULL)
 		return M_FALSE;
@@ -300,7 +301,7 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 			} else if (M_str_eq_max(*s, "PDT", 3)) {
 				*s += 3;
 				*gmtoff = -7;
-			} else if (**s == 'M') {
+			} else if (**s == 'P') {
 				(*s)++;
 				*gmtoff = 3;
 			} else {
@@ -347,6 +348,7 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case '0':
 		case '1':
 		case '2':
+			named = M_FALSE;
 			/* Get hours. */
 			x = (M_time_t)M_time_getnum(s, 2);
 			*gmtoff = x*60*60;
@@ -368,6 +370,9 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 			return M_FALSE;
 	}
 
+	if (named)
+		*gmtoff *= 60*60;
+
 	return M_TRUE;
 }
 
-- 
2.43.0


From 8926eb5bb1333b30db9d3304bb6f6933788ddc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 103/138] fix: reject offsets that are not numbers

---
 base/time/m_time_parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 2f6d580..4780b71 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -351,6 +351,8 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 			named = M_FALSE;
 			/* Get hours. */
 			x = (M_time_t)M_time_getnum(s, 2);
+			if (x < 0 || x > 23)
+				return M_FALSE;
 			*gmtoff = x*60*60;
 			/* Check for : and skip past. */
 			if (**s == ':') {
@@ -360,6 +362,8 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 			if (M_chr_isdigit(**s)) {
 				/* Get minutes. */
 				x = (M_time_t)M_time_getnum(s, 2);
+				if (x > 59)
+					return M_FALSE;
 				*gmtoff += x*60;
 			}
 			/* Set direction. */
-- 
2.43.0


From 371058b1e02dea82ad2ed95ab5b88bba89975cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 104/138] fix: consume a.m. and p.m.

---
 base/time/m_time_parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 4780b71..5c703aa 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -159,8 +159,10 @@ static M_int64 M_time_get_ampm_hour(const char **s, M_int64 hour)
 
 	if (M_str_caseeq_max(*s, "p.m.", 4)) {
 		is_pm = M_TRUE;
+		*s += 4;
 	} else if (M_str_caseeq_max(*s, "a.m.", 4)) {
 		/* Pass */
+		*s += 4;
 	} else if (M_str_caseeq_max(*s, "pm", 2)) {
 		is_pm = M_TRUE;
 		*s += 2;
-- 
2.43.0


From 2e98eef41d1f95d39076f38789d4796b70b80028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 105/138] fix: do not read past a format ending in a percent
 sign

---
 base/time/m_time_parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 5c703aa..fb68bb5 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -989,6 +989,7 @@ char *M_time_parsefmt(const char *s, const char *fmt, M_time_localtm_t *tm)
 		switch (*fmt) {
 			/* end of fmt */
 			case 0:
+				return NULL;
 			/* chew %% chars */
 			case '%':
 				if (*s++ != '%')
-- 
2.43.0


From 81c80ebe4e89fd7d31ef0091286e81623dc23c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 106/138] fix: print hour 0 as 12 in %I

---
 base/time/m_time_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index fb68bb5..5a09b6b 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -895,7 +895,7 @@ char *M_time_to_str(const char *fmt, const M_time_localtm_t *tm)
 					M_buf_add_int_just(buf, mytm.hour, 2);
 					break;
 				case 'I':
-					M_buf_add_int_just(buf, mytm.hour>12?mytm.hour-12:mytm.hour, 2);
+					M_buf_add_int_just(buf, mytm.hour==0?12:(mytm.hour>12?mytm.hour-12:mytm.hour), 2);
 					break;
 				/* minutes in 2 digit format. */
 				case 'M':
-- 
2.43.0


From 655e3b88a5b27dd2227430dbc8900f05628bda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 107/138] fix: keep two digit years within 80 years back and 20
 ahead

---
 base/time/m_time_parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 5a09b6b..92ac908 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -1030,6 +1030,8 @@ char *M_time_parsefmt(const char *s, const char *fmt, M_time_localtm_t *tm)
 					x += (temp_tm.year/100)*100;
 					if (x > temp_tm.year+20) {
 						x -= 100;
+					} else if (x <= temp_tm.year-80) {
+						x += 100;
 					}
 				}
 				tm->year  = x;
-- 
2.43.0


From 7a4b2136860d7478fc8712f95b8a9bf9fdde149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 108/138] fix: reject times without a complete date

---
 base/time/m_time_parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 92ac908..052d772 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -824,8 +824,9 @@ M_time_t M_time_from_str(const char *timestr, const M_time_tz_t *tz, M_bool defa
 			result.sec=59;
 		}
 		result.isdst = -1;
+		result.year  = -1;
 		retCheck = M_time_parsefmt(timestr, formats[i].fmt, &result);
-		if (retCheck != NULL && retCheck[0] == '\0') {
+		if (retCheck != NULL && retCheck[0] == '\0' && result.year >= 0 && result.month > 0 && result.day > 0) {
 			if (formats[i].has_gmtoff) {
 				gmtoff = result.gmtoff;
 				timet_result  = M_time_fromgm(&result);
-- 
2.43.0


From 53467675ac0579aee6b2a87c98938bfeaa03ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:41 +0000
Subject: [PATCH 109/138] fix: copy the group type of duplicated permissions

---
 base/fs/m_fs_perms.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/fs/m_fs_perms.c b/base/fs/m_fs_perms.c
index 17d820a..032e827 100644
--- a/base/fs/m_fs_perms.c
+++ b/base/fs/m_fs_perms.c
@@ -101,7 +101,7 @@ M_fs_perms_t *M_fs_perms_dup(const M_fs_perms_t *perms)
 	dup_perms->user_type  = perms->user_type;
 	dup_perms->group_set  = perms->group_set;
 	dup_perms->group_mode = perms->group_mode;
-	dup_perms->group_mode = perms->group_mode;
+	dup_perms->group_type = perms->group_type;
 	dup_perms->other_set  = perms->other_set;
 	dup_perms->other_mode = perms->other_mode;
 	dup_perms->other_type = perms->other_type;
-- 
2.43.0


From 87fdcd66c3f4365b094446bb1d87c2abaa2d48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:41 +0000
Subject: [PATCH 110/138] fix: change only the named permission bits of a path

---
 base/fs/m_fs_perms_unx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/fs/m_fs_perms_unx.c b/base/fs/m_fs_perms_unx.c
index 0f9155c..44dddd9 100644
--- a/base/fs/m_fs_perms_unx.c
+++ b/base/fs/m_fs_perms_unx.c
@@ -134,19 +134,19 @@ static __inline__ mode_t M_fs_perms_to_mode_part(const M_bool *isdir,
 
 static mode_t M_fs_perms_update_mode_from_perms(mode_t mode, const M_fs_perms_t *perms, M_bool isdir)
 {
-	mode_t mymode = 0;
+	mode_t mymode = mode;
 
-	mymode |= M_fs_perms_update_mode_from_perm_part(mode, &isdir,
+	mymode = M_fs_perms_update_mode_from_perm_part(mymode, &isdir,
 		&(perms->user_set), &(perms->dir_user_set),
 		&(perms->user_mode), &(perms->dir_user_mode),
 		&(perms->user_type), &(perms->dir_user_type),
 		S_IRUSR, S_IWUSR, S_IXUSR);
-	mymode |= M_fs_perms_update_mode_from_perm_part(mode, &isdir,
+	mymode = M_fs_perms_update_mode_from_perm_part(mymode, &isdir,
 		&(perms->group_set), &(perms->dir_group_set),
 		&(perms->group_mode), &(perms->dir_group_mode),
 		&(perms->group_type), &(perms->dir_group_type),
 		S_IRGRP, S_IWGRP, S_IXGRP);
-	mymode |= M_fs_perms_update_mode_from_perm_part(mode, &isdir,
+	mymode = M_fs_perms_update_mode_from_perm_part(mymode, &isdir,
 		&(perms->other_set), &(perms->dir_other_set),
 		&(perms->other_mode), &(perms->dir_other_mode),
 		&(perms->other_type), &(perms->dir_other_type),
-- 
2.43.0


From 3b899cceb9ed8ebd5db8167dc2703f119e363fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:41 +0000
Subject: [PATCH 111/138] fix: take over the owner and destroy the source of
 merged permissions

---
 base/fs/m_fs_perms.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/base/fs/m_fs_perms.c b/base/fs/m_fs_perms.c
index 032e827..5fe9ee5 100644
--- a/base/fs/m_fs_perms.c
+++ b/base/fs/m_fs_perms.c
@@ -136,6 +136,9 @@ void M_fs_perms_merge(M_fs_perms_t **dest, M_fs_perms_t *src)
 #else
 		(*dest)->uid = src->uid;
 #endif
+		M_free((*dest)->user);
+		(*dest)->user = src->user;
+		src->user     = NULL;
 	}
 	if (src->group != NULL) {
 #ifdef _WIN32
@@ -143,6 +146,9 @@ void M_fs_perms_merge(M_fs_perms_t **dest, M_fs_perms_t *src)
 #else
 		(*dest)->gid = src->gid;
 #endif
+		M_free((*dest)->group);
+		(*dest)->group = src->group;
+		src->group     = NULL;
 	}
 
 	/* perms. */
@@ -159,6 +165,8 @@ void M_fs_perms_merge(M_fs_perms_t **dest, M_fs_perms_t *src)
 		&(src->dir_group_set), &(src->dir_group_mode), &(src->dir_group_type));
 	M_fs_perms_merge_part(&((*dest)->dir_other_set), &((*dest)->dir_other_mode), &((*dest)->dir_other_type),
 		&(src->dir_other_set), &(src->dir_other_mode), &(src->dir_other_type));
+
+	M_fs_perms_destroy(src);
 }
 
 void M_fs_perms_destroy(M_fs_perms_t *perms)
-- 
2.43.0


From dc0c6184b044487655349d006d84208633d639c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 112/138] fix: release malformed common names

---
 tls/m_tls_hostvalidate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tls/m_tls_hostvalidate.c b/tls/m_tls_hostvalidate.c
index 8f897ff..64bee54 100644
--- a/tls/m_tls_hostvalidate.c
+++ b/tls/m_tls_hostvalidate.c
@@ -249,8 +249,10 @@ static M_bool M_tls_verify_host_commonname(X509 *x509, const char *hostname, M_t
 			continue;
 
 		len  = ASN1_STRING_to_UTF8(&cn, asn1);
-		if (len <= 0 || cn == NULL || M_str_len((const char *)cn) != (size_t)len)
+		if (len <= 0 || cn == NULL || M_str_len((const char *)cn) != (size_t)len) {
+			OPENSSL_free(cn);
 			continue;
+		}
 
 		rv = M_tls_verify_host_match(hostname, (const char *)cn, flags);
 		OPENSSL_free(cn);
-- 
2.43.0


From e64e7ce5a1c96f065881f0115f91c1f6a47a77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 113/138] fix: a wildcard covers a non-empty label

---
 tls/m_tls_hostvalidate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tls/m_tls_hostvalidate.c b/tls/m_tls_hostvalidate.c
index 64bee54..1bcd073 100644
--- a/tls/m_tls_hostvalidate.c
+++ b/tls/m_tls_hostvalidate.c
@@ -123,6 +123,9 @@ static M_bool M_tls_verify_host_match_wildcard(const char *hostname, const char
 	/* Iterate in reverse over the parts to match against the hostname parts.  We aren't
 	 * going to iterate over the first entry as we already know it is '*', so if we get
 	 * to the end, we've matched all we need to match */
+	if (M_str_isempty(hostname_parts[0]))
+		goto fail;
+
 	for (i=name_parts_num-1; i>0; i--) {
 		if (!M_str_caseeq(name_parts[i], hostname_parts[i]))
 			goto fail;
-- 
2.43.0


From 2c06bf7a675249d0ca2a6b9c23844aea37f524df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 114/138] fix: align multilevel wildcards at the end of the
 host name

---
 tls/m_tls_hostvalidate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls/m_tls_hostvalidate.c b/tls/m_tls_hostvalidate.c
index 1bcd073..9e4b738 100644
--- a/tls/m_tls_hostvalidate.c
+++ b/tls/m_tls_hostvalidate.c
@@ -127,7 +127,7 @@ static M_bool M_tls_verify_host_match_wildcard(const char *hostname, const char
 		goto fail;
 
 	for (i=name_parts_num-1; i>0; i--) {
-		if (!M_str_caseeq(name_parts[i], hostname_parts[i]))
+		if (!M_str_caseeq(name_parts[i], hostname_parts[hostname_parts_num - name_parts_num + i]))
 			goto fail;
 	}
 
-- 
2.43.0


From 4a329750f8e5232952dc8940e2e80cce024e2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 115/138] fix: ignore certificate names that do not fit

---
 tls/m_tls_hostvalidate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tls/m_tls_hostvalidate.c b/tls/m_tls_hostvalidate.c
index 9e4b738..3a82ad0 100644
--- a/tls/m_tls_hostvalidate.c
+++ b/tls/m_tls_hostvalidate.c
@@ -208,6 +208,11 @@ static M_bool M_tls_verify_host_subjaltname(X509 *x509, const char *hostname, M_
 					continue;
 				}
 
+				if ((size_t)dnsname_len >= sizeof(dnsname)) {
+					OPENSSL_free(temp);
+					continue;
+				}
+
 				M_str_cpy_max(dnsname, sizeof(dnsname), (const char *)temp, (size_t)dnsname_len);
 				OPENSSL_free(temp);
 			} else if (name->type == GEN_IPADD) {
-- 
2.43.0


From b203b4b99c9e115b0178f9f33035c51c06d77a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 116/138] fix: decode XML entities only inside the given length

---
 formats/xml/m_xml_entities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_entities.c b/formats/xml/m_xml_entities.c
index 3750bd9..bbe6e85 100644
--- a/formats/xml/m_xml_entities.c
+++ b/formats/xml/m_xml_entities.c
@@ -120,7 +120,7 @@ static char *M_xml_entities_decode_int(const char *str, size_t len, M_xml_entity
 	for (i=0; i<len; i++) {
 		if (str[i] == '&') {
 			for (j=0; entities[j].ent != 0; j++) {
-				if (M_str_caseeq_max(str+i, entities[j].encoded, entities[j].encoded_len)) {
+				if (entities[j].encoded_len <= len-i && M_str_caseeq_max(str+i, entities[j].encoded, entities[j].encoded_len)) {
 					break;
 				}
 			}
-- 
2.43.0


From 7ed58a647548e55d1580287aa1c3c00cf51575ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 117/138] fix: step over ill-formed characters when encoding a
 code page

---
 text/textcodec/m_textcodec_cp_map.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/text/textcodec/m_textcodec_cp_map.c b/text/textcodec/m_textcodec_cp_map.c
index 362afd0..7617c30 100644
--- a/text/textcodec/m_textcodec_cp_map.c
+++ b/text/textcodec/m_textcodec_cp_map.c
@@ -57,15 +57,16 @@ M_textcodec_error_t M_textcodec_encode_cp_map(M_textcodec_buffer_t *buf, const c
 		M_uint32       ucode;
 		unsigned char  cp;
 		M_utf8_error_t ures;
+		const char    *pos = next;
 
 		/* read the next utf8 character. */
-		ures = M_utf8_get_cp(next, &ucode, &next);
+		ures = M_utf8_get_cp(pos, &ucode, &next);
 
 		/* If we have an invalid we need to skip it. Since utf8 characters
  		 * can have multiple bytes we want to and replacement per cha cater
 		 * not per byte. */
 		if (ures != M_UTF8_ERROR_SUCCESS) {
-			next = M_utf8_next_chr(next);
+			next = M_utf8_next_chr(pos);
 		}
 
 		if (ures == M_UTF8_ERROR_SUCCESS && M_hash_u64u64_get(map, ucode, &u64v)) {
-- 
2.43.0


From 38772fb5b90b51fc6f6b47d71b79352de4b0e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 118/138] fix: encode non-ASCII bytes as quoted-printable

---
 text/textcodec/m_textcodec_quoted_printable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/textcodec/m_textcodec_quoted_printable.c b/text/textcodec/m_textcodec_quoted_printable.c
index c4b0938..a5c0f20 100644
--- a/text/textcodec/m_textcodec_quoted_printable.c
+++ b/text/textcodec/m_textcodec_quoted_printable.c
@@ -42,7 +42,7 @@ M_textcodec_error_t M_textcodec_encode_quoted_printable(M_textcodec_buffer_t *bu
 		 * we want a few more in this list. */
 		if (c != '\t' && c != '\r' && c != '\n' && (c < 32 || c == '=' || c > 126)) {
 			M_textcodec_buffer_add_byte(buf, '=');
-			M_textcodec_buffer_add_byte(buf, (unsigned char)("0123456789ABCDEF"[c >> 4]));
+			M_textcodec_buffer_add_byte(buf, (unsigned char)("0123456789ABCDEF"[(unsigned char)c >> 4]));
 			M_textcodec_buffer_add_byte(buf, (unsigned char)("0123456789ABCDEF"[c & 0x0F]));
 			cnt += 3;
 		} else {
-- 
2.43.0


From 2d1d45ace79aad7fd5461b16f2468f5701be2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 119/138] fix: take only two hex digits as a quoted-printable
 escape

---
 text/textcodec/m_textcodec_quoted_printable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/text/textcodec/m_textcodec_quoted_printable.c b/text/textcodec/m_textcodec_quoted_printable.c
index a5c0f20..67f732a 100644
--- a/text/textcodec/m_textcodec_quoted_printable.c
+++ b/text/textcodec/m_textcodec_quoted_printable.c
@@ -116,7 +116,8 @@ M_textcodec_error_t M_textcodec_decode_quoted_printable(M_textcodec_buffer_t *bu
 			/* =\r\n is a soft line break. Kill it because we'll put the line back together
 			 * on the next pass. */
 			M_parser_consume(parser, 2);
-		} else if (M_parser_read_int(parser, M_PARSER_INTEGER_ASCII, 2, 16, &i64v)) {
+		} else if (M_chr_ishex((char)M_parser_peek(parser)[0]) && M_chr_ishex((char)M_parser_peek(parser)[1]) &&
+				M_parser_read_int(parser, M_PARSER_INTEGER_ASCII, 2, 16, &i64v)) {
 			/* Two character hex code converted into a character.
 			 *
 			 * The RFC says the characters must be upper case but
-- 
2.43.0


From fcf3e5706d060a2a39ec9fcbc54866bfad7e5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:54 +0000
Subject: [PATCH 120/138] fix: detect a wrapped code point when decoding
 Punycode

---
 text/textcodec/m_textcodec_punycode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/text/textcodec/m_textcodec_punycode.c b/text/textcodec/m_textcodec_punycode.c
index dce5a3c..064fe6e 100644
--- a/text/textcodec/m_textcodec_punycode.c
+++ b/text/textcodec/m_textcodec_punycode.c
@@ -274,6 +274,8 @@ M_textcodec_error_t M_textcodec_decode_punycode(M_textcodec_buffer_t *buf, const
 		/* Update our counters. */
 		len2  = M_list_str_len(l) + 1;
 		bias  = adapt((M_uint32)(i - oldi), (M_uint32)len2, oldi==0?M_TRUE:M_FALSE);
+		if (i / len2 > M_UINT32_MAX - n)
+			goto fail;
 		n    += (M_uint32)(i / len2);
 		i    %= (M_uint32)len2;
 
-- 
2.43.0


From d203d8030f0e3c53180c4556fe0013b232f86a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 121/138] fix: unquote CSV cells the way they are scanned

---
 formats/csv/m_csv.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/formats/csv/m_csv.c b/formats/csv/m_csv.c
index 844640a..5ddd240 100644
--- a/formats/csv/m_csv.c
+++ b/formats/csv/m_csv.c
@@ -82,6 +82,7 @@ static void M_csv_parse_count(const char *str, size_t len, char delim, char quot
 static void M_csv_remove_quotes(char *str, char quote)
 {
 	size_t len, i, cnt = 0;
+	M_bool on_quote = M_FALSE;
 
 	if (str == NULL)
 		return;
@@ -90,21 +91,17 @@ static void M_csv_remove_quotes(char *str, char quote)
 
 	for (i=0; i<len; i++) {
 		if (str[i] == quote) {
-			if (str[i+1] == quote) {
+			if (on_quote && str[i+1] == quote) {
 				str[cnt++] = quote;
 				i+=1;
+			} else {
+				on_quote = on_quote ? M_FALSE : M_TRUE;
 			}
 		} else {
 			str[cnt++] = str[i];
 		}
 	}
 	str[cnt] = 0;
-
-	/* If this was an empty string, "", it may leave
-	 * a single quote behind because it looks like a
-	 * quoted quote.  Lets detect that and remove it */
-	if (cnt == 1 && str[cnt-1] == quote)
-		str[cnt-1] = 0;
 }
 
 
-- 
2.43.0


From fe52fa30093229a87df2876806abdab5feed1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:30 +0000
Subject: [PATCH 122/138] fix: keep the place of URL components in full width

---
 formats/url/url_parser.c | 14 +++++++-------
 formats/url/url_parser.h |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/formats/url/url_parser.c b/formats/url/url_parser.c
index 2c69c7b..68426fd 100644
--- a/formats/url/url_parser.c
+++ b/formats/url/url_parser.c
@@ -464,14 +464,14 @@ http_parse_host(const char * buf, struct http_parser_url *u, int found_at) {
     switch(new_s) {
       case s_http_host:
         if (s != s_http_host) {
-          u->field_data[UF_HOST].off = (uint16_t)(p - buf);
+          u->field_data[UF_HOST].off = (size_t)(p - buf);
         }
         u->field_data[UF_HOST].len++;
         break;
 
       case s_http_host_v6:
         if (s != s_http_host_v6) {
-          u->field_data[UF_HOST].off = (uint16_t)(p - buf);
+          u->field_data[UF_HOST].off = (size_t)(p - buf);
         }
         u->field_data[UF_HOST].len++;
         break;
@@ -483,7 +483,7 @@ http_parse_host(const char * buf, struct http_parser_url *u, int found_at) {
 
       case s_http_host_port:
         if (s != s_http_host_port) {
-          u->field_data[UF_PORT].off = (uint16_t)(p - buf);
+          u->field_data[UF_PORT].off = (size_t)(p - buf);
           u->field_data[UF_PORT].len = 0;
           u->field_set |= (1 << UF_PORT);
         }
@@ -492,7 +492,7 @@ http_parse_host(const char * buf, struct http_parser_url *u, int found_at) {
 
       case s_http_userinfo:
         if (s != s_http_userinfo) {
-          u->field_data[UF_USERINFO].off = (uint16_t)(p - buf);
+          u->field_data[UF_USERINFO].off = (size_t)(p - buf);
           u->field_data[UF_USERINFO].len = 0;
           u->field_set |= (1 << UF_USERINFO);
         }
@@ -596,7 +596,7 @@ http_parser_parse_url(const char *buf, size_t buflen, int is_connect,
       continue;
     }
 
-    u->field_data[uf].off = (uint16_t)(p - buf);
+    u->field_data[uf].off = (size_t)(p - buf);
     u->field_data[uf].len = 1;
 
     u->field_set |= (1 << uf);
@@ -622,8 +622,8 @@ http_parser_parse_url(const char *buf, size_t buflen, int is_connect,
   }
 
   if (u->field_set & (1 << UF_PORT)) {
-    uint16_t off;
-    uint16_t len;
+    size_t off;
+    size_t len;
     const char* end;
     signed long v;
 
diff --git a/formats/url/url_parser.h b/formats/url/url_parser.h
index 78b3096..c22fcc0 100644
--- a/formats/url/url_parser.h
+++ b/formats/url/url_parser.h
@@ -76,8 +76,8 @@ struct http_parser_url {
   uint16_t port;                /* Converted UF_PORT string */
 
   struct {
-    uint16_t off;               /* Offset into buffer in which field starts */
-    uint16_t len;               /* Length of run in buffer */
+    size_t off;               /* Offset into buffer in which field starts */
+    size_t len;               /* Length of run in buffer */
   } field_data[UF_MAX];
 };
 
-- 
2.43.0


From 7c96b8583b0e806435f4a504a589cab7f06e0f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 123/138] fix: release the layer after setting proxy endpoints

---
 io/m_io_proxy_protocol.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 2240f46..03fba57 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -1188,18 +1188,19 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 	unsigned char    ipaddr_bin[32];
 	M_io_net_type_t  net_type;
 	size_t           len;
+	M_bool           ret      = M_FALSE;
 
 	if (layer == NULL || handle == NULL)
 		return M_FALSE;
 
 	if (handle->is_inbound)
-		return M_FALSE;
+		goto done;
 
 	/* For local we need both IPs to be NULL. Otherwise, we need both set. */
 	if ((M_str_isempty(source_ipaddr) && !M_str_isempty(dest_ipaddr)) ||
 			(!M_str_isempty(source_ipaddr) && M_str_isempty(dest_ipaddr)))
 	{
-		return M_FALSE;
+		goto done;
 	}
 
 	/* Empty IP, this is a local. */
@@ -1212,18 +1213,19 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 		handle->dest_port     = 0;
 		handle->local         = M_TRUE;
 		handle->net_type      = M_IO_NET_ANY;
-		return M_TRUE;
+		ret                   = M_TRUE;
+		goto done;
 	}
 
 	/* Not local at this point.
  	 * Verify we have valid ports. */
 	if (source_port == 0 || dest_port == 0)
-		return M_FALSE;
+		goto done;
 
 	/* Verify the ip format for our source and dest are valid. */
 	len = M_str_len(source_ipaddr);
 	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), source_ipaddr, &len))
-		return M_FALSE;
+		goto done;
 
 	/* Determine the net type from the IP. */
 	if (len == 4) {
@@ -1234,14 +1236,14 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 
 	len = M_str_len(dest_ipaddr);
 	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), dest_ipaddr, &len))
-		return M_FALSE;
+		goto done;
 
 	/* Verify the source and dest IPs are the same net type. */
 	if (net_type == M_IO_NET_IPV4 && len != 4)
-		return M_FALSE;
+		goto done;
 
 	if (net_type == M_IO_NET_IPV6 && len != 16)
-		return M_FALSE;
+		goto done;
 
 	M_free(handle->source_ipaddr);
 	M_free(handle->dest_ipaddr);
@@ -1251,6 +1253,9 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 	handle->dest_port     = dest_port;
 	handle->local         = M_FALSE;
 	handle->net_type      = net_type;
+	ret                   = M_TRUE;
 
-	return M_TRUE;
+done:
+	M_io_layer_release(layer);
+	return ret;
 }
-- 
2.43.0


From 4926013a94046f1e745145068bab31974dc24d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 124/138] fix: wait for the whole of a local proxy header

---
 io/m_io_proxy_protocol.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 03fba57..700b294 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -369,8 +369,6 @@ static M_state_machine_status_t state_v2_header(void *data, M_uint64 *next)
 	unsigned char  val;
 	M_uint16       dlen;
 
-	(void)next;
-
 	/* Header is exactly 16 bytes. */
 	if (M_parser_len(handle->parser) < 16)
 		return M_STATE_MACHINE_STATUS_WAIT;
@@ -438,9 +436,8 @@ static M_state_machine_status_t state_v2_header(void *data, M_uint64 *next)
 		}
 	} else {
 		/* If it's a local operation, we're going to eat the rest of
- 		 * the data and stop processing. */
-		M_parser_consume(handle->parser, handle->v2_dlen);
-		return M_STATE_MACHINE_STATUS_DONE;
+ 		 * the data (once it's all here) and stop processing. */
+		*next = STATE_V2_TLV;
 	}
 
 	return M_STATE_MACHINE_STATUS_NEXT;
-- 
2.43.0


From c5eade097b2730f214175ac11d8f4027670e3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 125/138] fix: read only decimal ports in proxy headers

---
 io/m_io_proxy_protocol.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 700b294..76d1e86 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -287,11 +287,26 @@ static M_state_machine_status_t state_v1_dest_ipaddr(void *data, M_uint64 *next)
 	return M_STATE_MACHINE_STATUS_NEXT;
 }
 
+static M_bool v1_parse_port(const char *str, M_uint16 *port)
+{
+	M_uint32 val;
+
+	/* Only digits. No sign, blanks or anything else. */
+	if (!M_str_isnum(str))
+		return M_FALSE;
+
+	val = M_str_to_uint32(str);
+	if (val == 0 || val > M_UINT16_MAX)
+		return M_FALSE;
+
+	*port = (M_uint16)val;
+	return M_TRUE;
+}
+
 static M_state_machine_status_t state_v1_source_port(void *data, M_uint64 *next)
 {
 	M_io_handle_t *handle = data;
 	char           buf[8];
-	M_uint32       port;
 	size_t         plen;
 	size_t         len;
 
@@ -301,9 +316,10 @@ static M_state_machine_status_t state_v1_source_port(void *data, M_uint64 *next)
 	len  = M_parser_read_str_until(handle->parser, buf, sizeof(buf), " ", M_FALSE);
 	if (len == 0) {
 		/* If the start and end len in the parser are different, then
- 		 * the until string was found but the buffer was too small. */
+ 		 * the until string was found but the buffer was too small.
+ 		 * 5 digits + ' ' is the max length we can have for this field. */
 		len = M_parser_len(handle->parser);
-		if (len >= 5 || len != plen) {
+		if (len >= 6 || len != plen) {
 			M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Missing or invalid source port");
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		} else {
@@ -311,9 +327,7 @@ static M_state_machine_status_t state_v1_source_port(void *data, M_uint64 *next)
 		}
 	}
 
-	port                = M_str_to_uint32(buf);
-	handle->source_port = (M_uint16)port;
-	if (handle->source_port == 0 || port > M_UINT16_MAX) {
+	if (!v1_parse_port(buf, &handle->source_port)) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid source port");
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
@@ -328,7 +342,6 @@ static M_state_machine_status_t state_v1_dest_port(void *data, M_uint64 *next)
 {
 	M_io_handle_t *handle = data;
 	char           buf[8];
-	M_uint32       port;
 	size_t         plen;
 	size_t         len;
 
@@ -338,9 +351,10 @@ static M_state_machine_status_t state_v1_dest_port(void *data, M_uint64 *next)
 	len  = M_parser_read_str_until(handle->parser, buf, sizeof(buf), "\r\n", M_FALSE);
 	if (len == 0) {
 		/* If the start and end len in the parser are different, then
- 		 * the until string was found but the buffer was too small. */
+ 		 * the until string was found but the buffer was too small.
+ 		 * 5 digits + '\r\n' is the max length we can have for this field. */
 		len = M_parser_len(handle->parser);
-		if (len >= 5 || len != plen) {
+		if (len >= 7 || len != plen) {
 			M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Missing or invalid destination port");
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		} else {
@@ -348,9 +362,7 @@ static M_state_machine_status_t state_v1_dest_port(void *data, M_uint64 *next)
 		}
 	}
 
-	port              = M_str_to_uint32(buf);
-	handle->dest_port = (M_uint16)port;
-	if (handle->dest_port == 0 || port > M_UINT16_MAX) {
+	if (!v1_parse_port(buf, &handle->dest_port)) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid destination port");
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
-- 
2.43.0


From 54f2ba99f7965f4a7ef02e1fd0ba129a5a3599cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 126/138] fix: keep reading after the buffer layer was full

---
 io/m_io_buffer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 2ea8902..38455a9 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -77,8 +77,10 @@ static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 
 	req_size = alloc_size - M_buf_len(handle->readbuf);
 
-	/* Buffer is full, can't read.  Don't pass on event, application already knows there is data. */
+	/* Buffer is full, can't read.  Don't pass on event, application already knows there is data.
+	 * Remember there may be data left below to be read once there is room. */
 	if (req_size == 0) {
+		handle->hit_max_read = M_TRUE;
 		return M_TRUE; /* consume */
 	}
 	len      = req_size;
-- 
2.43.0


From 741f6ce3fabd6beff62ec63bb487ccba63199fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 127/138] fix: keep the buffer layer within its read limit

---
 io/m_io_buffer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 38455a9..b9ebf4c 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -75,7 +75,11 @@ static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 	if (alloc_size < 16 * 1024)
 		alloc_size = 16 * 1024;
 
-	req_size = alloc_size - M_buf_len(handle->readbuf);
+	/* Never hold more than the limit */
+	if (alloc_size > handle->max_read_buffer)
+		alloc_size = handle->max_read_buffer;
+
+	req_size = (alloc_size > M_buf_len(handle->readbuf))?alloc_size - M_buf_len(handle->readbuf):0;
 
 	/* Buffer is full, can't read.  Don't pass on event, application already knows there is data.
 	 * Remember there may be data left below to be read once there is room. */
@@ -85,6 +89,8 @@ static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 	}
 	len      = req_size;
 	buf      = M_buf_direct_write_start(handle->readbuf, &len);
+	if (len > req_size)
+		len = req_size;
 
 	err      = M_io_layer_read(M_io_layer_get_io(layer), M_io_layer_get_index(layer)-1, buf, &len, NULL);
 	if (err != M_IO_ERROR_SUCCESS) {
-- 
2.43.0


From 71c28c4d7256e450e9dace1a898f2b98d025b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 128/138] fix: start a new bandwidth sample once the previous
 has ended

---
 io/m_io_bwshaping.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index fbd3b80..f0d4e7b 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -190,7 +190,7 @@ static void M_io_bwshaping_bwtrack_add(M_io_bwshaping_bwtrack_t *bwtrack, M_uint
 	M_io_bwshaping_slot_t *slot;
 
 	slot = M_io_bwshaping_slots_last(bwtrack);
-	if (slot == NULL || M_time_elapsed(&slot->tv) > frequency_ms) {
+	if (slot == NULL || M_time_elapsed(&slot->tv) >= frequency_ms) {
 		slot = M_io_bwshaping_slots_add(bwtrack);
 		M_time_elapsed_start(&slot->tv);
 		slot->bytes = 0;
-- 
2.43.0


From b0688dedc72185f70068b7612198434f7ed9ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 129/138] fix: recreate bandwidth tracking on reset

---
 io/m_io_bwshaping.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index f0d4e7b..0f3483c 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -710,12 +710,12 @@ static M_bool M_io_bwshaping_reset_cb(M_io_layer_t *layer)
 
 	M_mem_set(&handle->starttv, 0, sizeof(handle->starttv));
 	M_io_bwshaping_bwtrack_destroy(handle->in_bw);
-	handle->in_bw       = NULL;
+	handle->in_bw       = M_io_bwshaping_bwtrack_create(handle, M_IO_BWSHAPING_DIRECTION_IN);
 	M_mem_set(&handle->in_lasttv, 0, sizeof(handle->in_lasttv));
 	handle->in_waiting  = M_FALSE;
 	handle->in_fullread = M_FALSE;
 	M_io_bwshaping_bwtrack_destroy(handle->out_bw);
-	handle->out_bw      = NULL;
+	handle->out_bw      = M_io_bwshaping_bwtrack_create(handle, M_IO_BWSHAPING_DIRECTION_OUT);
 	M_mem_set(&handle->out_lasttv, 0, sizeof(handle->out_lasttv));
 	handle->out_bytes   = 0;
 	handle->out_waiting = M_FALSE;
@@ -730,6 +730,8 @@ static void M_io_bwshaping_destroy_cb(M_io_layer_t *layer)
 	if (handle == NULL)
 		return;
 
+	M_io_bwshaping_bwtrack_destroy(handle->in_bw);
+	M_io_bwshaping_bwtrack_destroy(handle->out_bw);
 	M_free(handle);
 }
 
-- 
2.43.0


From 59e837549e7ad27db94739354e78eb5bbd294591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 130/138] fix: size bandwidth tracking for the settings of the
 listener

---
 io/m_io_bwshaping.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index 0f3483c..d191ee9 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -477,6 +477,23 @@ static void M_io_bwshaping_timer_cb(M_event_t *event, M_event_type_t type, M_io_
 }
 
 
+static void M_io_bwshaping_clear_state(M_io_handle_t *handle, M_io_bwshaping_direction_t direction)
+{
+	M_io_bwshaping_bwtrack_t *bwtrack;
+
+	if (direction == M_IO_BWSHAPING_DIRECTION_IN) {
+		bwtrack = handle->in_bw;
+		handle->in_bw->bytes = 0;
+	} else {
+		bwtrack = handle->out_bw;
+		handle->out_bw->bytes = 0;
+	}
+
+	M_io_bwshaping_slots_destroy(bwtrack);
+	M_io_bwshaping_slots_create(bwtrack, M_io_bwshaping_bwtrack_size(handle, direction));
+}
+
+
 static M_bool M_io_bwshaping_init_cb(M_io_layer_t *layer)
 {
 	M_io_handle_t *handle = M_io_layer_get_handle(layer);
@@ -515,6 +532,8 @@ static M_io_error_t M_io_bwshaping_accept_cb(M_io_t *io, M_io_layer_t *orig_laye
 
 	/* Copy settings */
 	M_mem_copy(&handle->settings, &orig_handle->settings, sizeof(handle->settings));
+	M_io_bwshaping_clear_state(handle, M_IO_BWSHAPING_DIRECTION_IN);
+	M_io_bwshaping_clear_state(handle, M_IO_BWSHAPING_DIRECTION_OUT);
 
 	M_io_layer_release(layer);
 	return M_IO_ERROR_SUCCESS;
@@ -794,23 +813,6 @@ M_io_error_t M_io_add_bwshaping(M_io_t *io, size_t *layer_idx)
 }
 
 
-static void M_io_bwshaping_clear_state(M_io_handle_t *handle, M_io_bwshaping_direction_t direction)
-{
-	M_io_bwshaping_bwtrack_t *bwtrack;
-
-	if (direction == M_IO_BWSHAPING_DIRECTION_IN) {
-		bwtrack = handle->in_bw;
-		handle->in_bw->bytes = 0;
-	} else {
-		bwtrack = handle->out_bw;
-		handle->out_bw->bytes = 0;
-	}
-
-	M_io_bwshaping_slots_destroy(bwtrack);
-	M_io_bwshaping_slots_create(bwtrack, M_io_bwshaping_bwtrack_size(handle, direction));
-}
-
-
 M_bool M_io_bwshaping_set_throttle(M_io_t *io, size_t id, M_io_bwshaping_direction_t direction, M_uint64 Bps)
 {
 	M_io_layer_t  *layer;
-- 
2.43.0


From e4e494d178e5cc1feda70bbfe73201d2388ef4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 131/138] fix: stop a timer whose start is refused

---
 io/m_event_timer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index ea8c773..403f7fc 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -307,6 +307,8 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 			M_event_wake(timer->event);
 		}
 	} else {
+		/* Nothing is scheduled so it can't be left running */
+		timer->started = M_FALSE;
 		if (!timer->executing) /* Recursion! */
 			M_event_timer_enqueue(timer);
 	}
-- 
2.43.0


From 19cce92ebbd0651b97087025296b029d4348f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 132/138] fix: keep the schedule of a timer restarted by its
 own callback

---
 io/m_event_timer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index 403f7fc..d76288e 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -46,6 +46,7 @@ struct M_event_timer {
 	M_event_t           *event;
 	M_bool               started;
 	size_t               cnt;
+	M_bool               restarted;    /*!< Started during execution of its own callback, so it's already scheduled */
 	M_timeval_t          next_run;     /* Next run, based on M_time_elapse_start() */
 	M_timeval_t          last_run;     /* Last run time, to prevent starvation of other tasks */
 	M_bool               executing;    /* If we are currently executing this timer's callback -- make sure we don't really destroy ourselves */
@@ -301,7 +302,8 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 	rv = M_event_timer_schedule(timer);
 	if (rv) {
 //M_printf("%s(): timer %p started for %llu ms\n", __FUNCTION__, timer, interval_ms); fflush(stdout);
-		timer->started = M_TRUE;
+		timer->started   = M_TRUE;
+		timer->restarted = M_TRUE;
 		if (!timer->executing) { /* Recursion! */
 			M_event_timer_enqueue(timer);
 			M_event_wake(timer->event);
@@ -548,6 +550,7 @@ void M_event_timer_process(M_event_t *event)
 		if (timer->started) {
 			timer->cnt++;
 			timer->executing = M_TRUE;
+			timer->restarted = M_FALSE;
 
 			/* Unlock event lock since the callback may take some time */
 			M_event_unlock(event);
@@ -596,7 +599,7 @@ void M_event_timer_process(M_event_t *event)
 		M_time_elapsed_start(&timer->last_run);
 
 		/* Reschedule */
-		if (timer->started)
+		if (timer->started && !timer->restarted)
 			M_event_timer_schedule(timer);
 
 		/* re-enqueue */
-- 
2.43.0


From 80b60846f6278ff9d536495361fd31fc9a6f3e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:37 +0000
Subject: [PATCH 133/138] fix: require separators between JSON members and
 values

---
 formats/json/m_json_reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 0b532a1..f27f64e 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -207,7 +207,7 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 			return NULL;
 		}
 
-		if (!M_parser_peek_byte(parser, &c) && c != ',' && c != '}') {
+		if (M_parser_peek_byte(parser, &c) && c != ',' && c != '}') {
 			M_json_node_destroy(node);
 			*error = M_JSON_ERROR_OBJECT_UNEXPECTED_CHAR;
 			return NULL;
@@ -284,7 +284,7 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 			return NULL;
 		}
 
-		if (!M_parser_peek_byte(parser, &c) && c != ',' && c != ']') {
+		if (M_parser_peek_byte(parser, &c) && c != ',' && c != ']') {
 			M_json_node_destroy(node);
 			*error = M_JSON_ERROR_ARRAY_UNEXPECTED_CHAR;
 			return NULL;
-- 
2.43.0


From c32e1d2773d102c1ebf5e9dd44bc1d1d192ed19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:37 +0000
Subject: [PATCH 134/138] fix: keep replacement of bad JSON characters inside
 the text

---
 formats/json/m_json_reader.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index f27f64e..f191ad7 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -339,7 +339,10 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 		/* Control character. */
 		if (c < 32) {
 			if (flags & M_JSON_READER_REPLACE_BAD_CHARS) {
+				cp = c;
 				M_buf_add_byte(buf, '?');
+				M_parser_consume(parser, 1);
+				continue;
 			} else {
 				if (c == '\n') {
 					*error = M_JSON_ERROR_UNEXPECTED_NEWLINE;
@@ -395,15 +398,12 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 					{
 						if (flags & M_JSON_READER_REPLACE_BAD_CHARS) {
 							size_t j;
-							/* Something isn't right. Remove the fist character because
- 							 * we know it's going to be bad. Go though up to 3 more and remove them
+							size_t len = M_parser_len(parser);
+							/* Something isn't right. Go though up to 4 characters and remove them
 							 * if they're hex. We want to try to fully remove the \u escape and this
 							 * will handle if it's a bad code point or not fully 4 hex characters. */
-							M_parser_consume(parser, 1);
-							for (j=1; j<4; j++) {
-								if (M_chr_ishex((char)s[1+j])) {
-									M_parser_consume(parser, 1);
-								}
+							for (j=0; j<4 && 2+j < len && M_chr_ishex((char)s[1+j]); j++) {
+								M_parser_consume(parser, 1);
 							}
 							M_buf_add_byte(buf, '?');
 							break;
-- 
2.43.0


From 6741b24da1f0193988475429eb806265de19b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:20 +0000
Subject: [PATCH 135/138] fix: decode JSON surrogate pairs and refuse an
 escaped NUL

---
 formats/json/m_json_reader.c | 39 ++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index f191ad7..84eaabd 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -316,6 +316,33 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 	return node;
 }
 
+/*! Read the unicode escape (starting at the 'u') including a surrogate pair.
+ * \return Length of the escape. 0 if it's not valid.
+ */
+static size_t M_json_read_unicode_escape(const unsigned char *s, size_t len, M_uint32 *codepoint)
+{
+	M_uint32 low;
+
+	if (len < 5                                     ||
+		!M_str_ishex_max((const char *)s+1, 4)      ||
+		M_str_to_uint32_ex((const char *)s+1, 4, 16, codepoint, NULL) != M_STR_INT_SUCCESS)
+	{
+		return 0;
+	}
+
+	/* High surrogate followed by a low surrogate is one character. */
+	if (*codepoint >= 0xD800 && *codepoint <= 0xDBFF && len >= 11 && s[5] == '\\' && s[6] == 'u' &&
+		M_str_ishex_max((const char *)s+7, 4)                                                      &&
+		M_str_to_uint32_ex((const char *)s+7, 4, 16, &low, NULL) == M_STR_INT_SUCCESS              &&
+		low >= 0xDC00 && low <= 0xDFFF)
+	{
+		*codepoint = 0x10000 + ((*codepoint - 0xD800) << 10) + (low - 0xDC00);
+		return 11;
+	}
+
+	return 5;
+}
+
 static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
 {
 	M_json_node_t       *node;
@@ -328,6 +355,7 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 	unsigned char        ce;
 	unsigned char        cp = 0;
 	size_t               uchr_len;
+	size_t               esc_len;
 
 	(void)flags;
 
@@ -391,9 +419,8 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 				case 'u':
 					/* Check if we have enough data, it's a hex number, and it's a valid
 					 * character we can add to the buffer. */
-					if (M_parser_len(parser) < 6                                                            ||
-						!M_str_ishex_max((const char *)s+1, 4)                                              ||
-						M_str_to_uint32_ex((const char *)s+1, 4, 16, &codepoint, NULL) != M_STR_INT_SUCCESS ||
+					esc_len = M_json_read_unicode_escape(s, M_parser_len(parser)-1, &codepoint);
+					if (esc_len == 0 || codepoint == 0 ||
 						M_utf8_from_cp(uchr, sizeof(uchr), &uchr_len, codepoint) != M_UTF8_ERROR_SUCCESS)
 					{
 						if (flags & M_JSON_READER_REPLACE_BAD_CHARS) {
@@ -414,12 +441,12 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 						}
 					}
 					if (flags & M_JSON_READER_DONT_DECODE_UNICODE) {
-						M_buf_add_str(buf, "\\u");
-						M_buf_add_bytes(buf, s+1, 4);
+						M_buf_add_byte(buf, '\\');
+						M_buf_add_bytes(buf, s, esc_len);
 					} else {
 						M_buf_add_bytes(buf, uchr, uchr_len);
 					}
-					M_parser_consume(parser, 4);
+					M_parser_consume(parser, esc_len-1);
 					break;
 				default:
 					M_buf_cancel(buf);
-- 
2.43.0


From 2e10db9e46c8bf6eb24ad9dd309d90c3835e8ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:20 +0000
Subject: [PATCH 136/138] fix: escape JSON object keys when writing

---
 formats/json/m_json_writer.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 4c9a14f..5c6be4d 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -34,6 +34,7 @@ static M_int64 JAVASCRIPT_MIN_INT = -9007199254740991LL;
 static M_int64 JAVASCRIPT_MAX_INT =  9007199254740991LL;
 
 static M_bool M_json_write_node(const M_json_node_t *node, M_buf_t *buf, size_t *depth, M_uint32 flags);
+static M_bool M_json_write_str(const char *str, M_buf_t *buf, M_uint32 flags);
 
 static void M_json_write_depth(M_buf_t *buf, size_t *depth, M_uint32 flags)
 {
@@ -74,9 +75,10 @@ static M_bool M_json_write_node_object(const M_json_node_t *node, M_buf_t *buf,
 	len = M_hash_strvp_enumerate(node->data.json_object, &hashenum);
 	while (M_hash_strvp_enumerate_next(node->data.json_object, hashenum, &key, &value)) {
 		M_json_write_depth(buf, depth, flags);
-		M_buf_add_byte(buf, '"');
-		M_buf_add_str(buf, key); 
-		M_buf_add_byte(buf, '"');
+		if (!M_json_write_str(key, buf, flags)) {
+			M_hash_strvp_enumerate_free(hashenum);
+			return M_FALSE;
+		}
 
 		if (flags & (M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_TAB))
 			M_buf_add_byte(buf, ' ');
@@ -84,8 +86,10 @@ static M_bool M_json_write_node_object(const M_json_node_t *node, M_buf_t *buf,
 		if (flags & (M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_TAB))
 			M_buf_add_byte(buf, ' ');
 
-		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags))
+		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags)) {
+			M_hash_strvp_enumerate_free(hashenum);
 			return M_FALSE;
+		}
 
 		len--;
 		if (len > 0) {
@@ -133,7 +137,7 @@ static M_bool M_json_write_node_array(const M_json_node_t *node, M_buf_t *buf, s
 	return M_TRUE;
 }
 
-static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
+static M_bool M_json_write_str(const char *str, M_buf_t *buf, M_uint32 flags)
 {
 	const char *p;
 	char        uchr[8];
@@ -142,13 +146,10 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 	size_t      len;
 	size_t      i;
 
-	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_STRING)
-		return M_FALSE;
-
 	M_buf_add_byte(buf, '"');
-	len = M_str_len(node->data.json_string);
+	len = M_str_len(str);
 	for (i=0; i<len; i++) {
-		c = node->data.json_string[i];
+		c = str[i];
 		switch (c) {
 			case '\b':
 				M_buf_add_str(buf, "\\b");
@@ -184,7 +185,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					M_snprintf(uchr, sizeof(uchr), "%04X", c);
 					M_buf_add_str(buf, uchr);
 				} else if ((unsigned char)c > 127) {
-					if (M_utf8_get_cp(node->data.json_string+i, &cp, &p) != M_UTF8_ERROR_SUCCESS) {
+					if (M_utf8_get_cp(str+i, &cp, &p) != M_UTF8_ERROR_SUCCESS) {
 						if (flags & M_JSON_WRITER_REPLACE_BAD_CHARS) {
 							M_buf_add_byte(buf, '?');
 						} else {
@@ -194,7 +195,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					}
 
 					if (flags & M_JSON_WRITER_DONT_ENCODE_UNICODE) {
-						M_buf_add_bytes(buf, node->data.json_string+i, (size_t)(p - (node->data.json_string+i)));
+						M_buf_add_bytes(buf, str+i, (size_t)(p - (str+i)));
 					} else {
 						M_buf_add_str(buf, "\\u");
 						M_snprintf(uchr, sizeof(uchr), "%04X", cp);
@@ -204,7 +205,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					 * when we come back around to the start of the loop it will
 					 * move one forward. This needs to be the byte before the next
 					 * one that will be processed. */
-					i += (size_t)(p - (node->data.json_string+i)-1);
+					i += (size_t)(p - (str+i)-1);
 				} else {
 					M_buf_add_byte(buf, (unsigned char)c);
 				}
@@ -215,6 +216,14 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 	return M_TRUE;
 }
 
+static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
+{
+	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_STRING)
+		return M_FALSE;
+
+	return M_json_write_str(node->data.json_string, buf, flags);
+}
+
 static M_bool M_json_write_node_integer(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
 {
 	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_INTEGER)
-- 
2.43.0


From 2a7dda486d113d52b053f46c87e74dfab726dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:21 +0000
Subject: [PATCH 137/138] fix: write JSON characters outside the basic plane as
 surrogate pairs

---
 formats/json/m_json_writer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 5c6be4d..a5eb346 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -197,6 +197,14 @@ static M_bool M_json_write_str(const char *str, M_buf_t *buf, M_uint32 flags)
 					if (flags & M_JSON_WRITER_DONT_ENCODE_UNICODE) {
 						M_buf_add_bytes(buf, str+i, (size_t)(p - (str+i)));
 					} else {
+						if (cp > 0xFFFF) {
+							/* Needs a surrogate pair. */
+							cp -= 0x10000;
+							M_buf_add_str(buf, "\\u");
+							M_snprintf(uchr, sizeof(uchr), "%04X", 0xD800 + (cp >> 10));
+							M_buf_add_str(buf, uchr);
+							cp = 0xDC00 + (cp & 0x3FF);
+						}
 						M_buf_add_str(buf, "\\u");
 						M_snprintf(uchr, sizeof(uchr), "%04X", cp);
 						M_buf_add_str(buf, uchr);
-- 
2.43.0


From 8714abea5a7752bfd24cf4352a6f75205c7cef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:21 +0000
Subject: [PATCH 138/138] fix: balance the quotes of large JSON integers

---
 formats/json/m_json_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index a5eb346..15d063a 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -242,7 +242,7 @@ static M_bool M_json_write_node_integer(const M_json_node_t *node, M_buf_t *buf,
 
 	M_buf_add_int(buf, node->data.json_integer);
 
-	if (node->data.json_integer < JAVASCRIPT_MIN_INT || node->data.json_integer > JAVASCRIPT_MAX_INT)
+	if (!(flags & M_JSON_WRITER_NUMBER_NOCOMPAT) && (node->data.json_integer < JAVASCRIPT_MIN_INT || node->data.json_integer > JAVASCRIPT_MAX_INT))
 		M_buf_add_byte(buf, '"');
 
 	return M_TRUE;
-- 
2.43.0

