From a1fa623e8eead5e7381bea100bb1f5a8fccaa41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 01/57] fix: base64 decode of all-whitespace input and of
 padding split by line wrapping

All-whitespace input was trimmed past the start of the buffer. Padding was
recognized by its offset from the end, so a line break between the two padding
characters (as the encoder itself produces) was rejected, and a padding character
followed by data (AB=C) was accepted.
---
 base/bincodec/m_base64.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/base/bincodec/m_base64.c b/base/bincodec/m_base64.c
index 4da2940..591a73d 100644
--- a/base/bincodec/m_base64.c
+++ b/base/bincodec/m_base64.c
@@ -60,7 +60,7 @@ static __inline__ void M_base64_encode_adder(char *out, size_t bidx, size_t *pos
 		out[(*pos)++] = '\n';
 }
 
-static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size_t inlen, size_t *idx)
+static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size_t inlen, size_t *idx, size_t *npad)
 {
 	char c;
 
@@ -82,13 +82,15 @@ static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size
 	c = in[*idx];
 	(*idx)++;
 	if (c == '=') {
-		/* Ensure we don't have any ='s in the middle of the data. Padding is only allowed at the end. */
-		if (*idx-1 < inlen-2) {
-			return M_FALSE;
-		}
-		return M_TRUE;
+		/* There can be at most 2 padding characters. */
+		(*npad)++;
+		return *npad <= 2 ? M_TRUE : M_FALSE;
 	}
 
+	/* Ensure we don't have any ='s in the middle of the data. Padding is only allowed at the end. */
+	if (*npad > 0)
+		return M_FALSE;
+
 	/* The decode table is adjusted with the first 43 characters removed since they're all invalid. */
 	if (c < 43 || (size_t)c-43 > sizeof(dec_table))
 		return M_FALSE;
@@ -214,14 +216,15 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 	M_int32 c;
 	M_int32 d;
 	size_t  i;
-	size_t  pos = 0;
+	size_t  pos  = 0;
+	size_t  npad = 0;
 
 	if (out == NULL || outlen == 0 || in == NULL || inlen == 0)
 		return 0;
 
 	/* Remove whitespace at the end so we can validate any trailing padding. And so we know when
  	 * we're really done decoding. */
-	while (M_chr_isspace(in[inlen-1]))
+	while (inlen > 0 && M_chr_isspace(in[inlen-1]))
 		inlen--;
 
 	if (inlen == 0)
@@ -229,10 +232,10 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 
 	for (i=0; i<inlen; ) {
 		/* Take the four ascii characters and transform them into an int. */
-		if (!M_base64_get_decchar(&a, in, inlen, &i) ||
-			!M_base64_get_decchar(&b, in, inlen, &i) ||
-			!M_base64_get_decchar(&c, in, inlen, &i) ||
-			!M_base64_get_decchar(&d, in, inlen, &i))
+		if (!M_base64_get_decchar(&a, in, inlen, &i, &npad) ||
+			!M_base64_get_decchar(&b, in, inlen, &i, &npad) ||
+			!M_base64_get_decchar(&c, in, inlen, &i, &npad) ||
+			!M_base64_get_decchar(&d, in, inlen, &i, &npad))
 		{
 			return 0;
 		}
@@ -243,12 +246,12 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 			return 0;
 		}
 		/* We need to check for padding to know if we need to write these bytes or not. */
-		if (i != inlen || (i == inlen && in[inlen-2] != '=')) {
+		if (npad < 2) {
 			if (!M_base64_write_decchar(out, outlen, (unsigned char)((tmp >> 8) & 0xFF), &pos)) {
 				return 0;
 			}
 		}
-		if (i != inlen || (i == inlen && in[inlen-1] != '=')) {
+		if (npad < 1) {
 			if (!M_base64_write_decchar(out, outlen, (unsigned char)(tmp & 0xFF), &pos)) {
 				return 0;
 			}
-- 
2.43.0


From 899b877abf2bb451f10641cf68cdb32168ac3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 02/57] fix: hex decode counts digits, not whitespace, when
 checking for whole bytes

Wrapped output of the encoder with an odd number of line breaks was rejected, and
a dangling digit was silently dropped when whitespace made the length even.
---
 base/bincodec/m_hex.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/bincodec/m_hex.c b/base/bincodec/m_hex.c
index b55336d..c9cde15 100644
--- a/base/bincodec/m_hex.c
+++ b/base/bincodec/m_hex.c
@@ -108,10 +108,13 @@ size_t M_hex_decode(const char *in, size_t inLen, M_uint8 *out, size_t outLen)
 	size_t pos  = 0;
 	M_bool fail = M_FALSE;
 
-	if (in == NULL || inLen == 0 || inLen%2 != 0 || out == NULL || outLen < inLen/2)
+	if (in == NULL || inLen == 0 || out == NULL || outLen < inLen/2)
 		return 0;
 
-	while (get_byte(in, inLen, &i, &c1, &fail) && get_byte(in, inLen, &i, &c2, &fail)) {
+	while (get_byte(in, inLen, &i, &c1, &fail)) {
+		/* Digits must come in pairs. Whitespace isn't a digit so the input length can be odd. */
+		if (!get_byte(in, inLen, &i, &c2, &fail))
+			return 0;
 		out[pos++] = (M_uint8)(hex2dec(c1) << 4 | hex2dec(c2));
 	}
 
-- 
2.43.0


From 30d3b89f53e57ec582fc318d8ebe9900e106a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 03/57] fix: base32 decode honors the input length and the
 padding

The input length was ignored (input was read, and output written, up to a NUL),
trailing whitespace was an error, and padded input decoded to a multiple of 5
bytes instead of the bytes encoded.
---
 base/bincodec/m_base32.c | 52 +++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/base/bincodec/m_base32.c b/base/bincodec/m_base32.c
index 55af062..e783846 100644
--- a/base/bincodec/m_base32.c
+++ b/base/bincodec/m_base32.c
@@ -118,13 +118,20 @@ size_t M_base32_encode(char *out, size_t out_len, const M_uint8 *in, size_t in_l
 
 size_t M_base32_decode(M_uint8 *out, size_t out_len, const char *in, size_t in_len)
 {
-	size_t cnt = 0;
+	size_t cnt  = 0;
+	size_t pos  = 0;
+	size_t npad = 0;
 
 	if (out == NULL || out_len == 0 || in == NULL || in_len == 0 || out_len < M_base32_decode_size(in_len))
 		return 0;
 
-	while (*in) {
+	/* Remove whitespace at the end so we know when we're really done decoding. */
+	while (in_len > 0 && M_chr_isspace(in[in_len-1]))
+		in_len--;
+
+	while (pos < in_len) {
 		M_uint64 n = 0;
+		size_t   bytes;
 		size_t   i;
 
 		/* Read in 8 bytes */
@@ -132,26 +139,53 @@ size_t M_base32_decode(M_uint8 *out, size_t out_len, const char *in, size_t in_l
 			int v;
 
 			/* Skip any whitespace */
-			while (M_chr_isspace(*in))
-				in++;
+			while (pos < in_len && M_chr_isspace(in[pos]))
+				pos++;
 
 			/* Out of data */
-			if (!*in)
+			if (pos >= in_len)
 				return 0;
 
-			v = M_base32_rev_charset[(M_uint8)*(in++)];
+			v = M_base32_rev_charset[(M_uint8)in[pos]];
 			/* invalid character */
 			if (v < 0)
 				return 0;
 
+			/* Padding is only allowed at the end */
+			if (in[pos] == '=') {
+				npad++;
+			} else if (npad > 0) {
+				return 0;
+			}
+			pos++;
+
 			n |= ((M_uint64)v) << (35 - (i * 5));
 		}
 
-		/* Write out 5 bytes */
-		for (i=0; i<5; i++) {
+		/* The padding tells how many bytes are encoded */
+		switch (npad) {
+			case 0:
+				bytes = 5;
+				break;
+			case 1:
+				bytes = 4;
+				break;
+			case 3:
+				bytes = 3;
+				break;
+			case 4:
+				bytes = 2;
+				break;
+			case 6:
+				bytes = 1;
+				break;
+			default:
+				return 0;
+		}
+
+		for (i=0; i<bytes; i++) {
 			out[cnt++] = (n >> (32 - (i*8))) & 0xFF;
 		}
 	}
 	return cnt;
 }
-
-- 
2.43.0


From 444d116b11801e3f679bb5293870532e05349395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 04/57] fix: base64-or-hex decode stays within the input length
 and sizes a single hex byte

---
 base/bincodec/m_bincodec.c      | 4 +++-
 base/bincodec/m_bincodec_conv.c | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/bincodec/m_bincodec.c b/base/bincodec/m_bincodec.c
index 5de3bc4..96c5aad 100644
--- a/base/bincodec/m_bincodec.c
+++ b/base/bincodec/m_bincodec.c
@@ -33,8 +33,10 @@ size_t M_bincodec_decode_size(size_t inLen, M_bincodec_codec_t codec)
 {
 	switch (codec) {
 		case M_BINCODEC_BASE64:
-		case M_BINCODEC_BASE64ORHEX:
 			return M_base64_decode_size(inLen);
+		case M_BINCODEC_BASE64ORHEX:
+			/* Base64 holds more than hex except for a single hex encoded byte. */
+			return M_MAX(M_base64_decode_size(inLen), inLen/2);
 		case M_BINCODEC_BASE32:
 			return M_base32_decode_size(inLen);
 		case M_BINCODEC_HEX:
diff --git a/base/bincodec/m_bincodec_conv.c b/base/bincodec/m_bincodec_conv.c
index ddfd935..042e9cd 100644
--- a/base/bincodec/m_bincodec_conv.c
+++ b/base/bincodec/m_bincodec_conv.c
@@ -32,11 +32,11 @@
 
 size_t M_hex_or_base64_to_bin(M_uint8 *out, size_t outlen, const char *in, size_t inlen)
 {
-	if (in == NULL || *in == '\0')
+	if (in == NULL || inlen == 0 || *in == '\0')
 		return 0;
 
 	/* Detect if Hex */
-	if (inlen % 2 == 0 && M_str_ishex(in))
+	if (inlen % 2 == 0 && M_str_ishex_max(in, inlen))
 		return M_hex_decode(in, inlen, out, outlen);
 
 	/* Must be base64 if we're here */
-- 
2.43.0


From 3d5d2f95090bffd041abe28ccac271c3c22a25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 05/57] fix: terminate the buffer again when a direct write
 keeps nothing

A failed decode into the buffer overwrote the NUL terminator.
---
 base/data/m_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index c28148f..2f5460e 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -300,11 +300,11 @@ unsigned char *M_buf_direct_write_start(M_buf_t *buf, size_t *len)
 
 void M_buf_direct_write_end(M_buf_t *buf, size_t len)
 {
-	if (buf == NULL || len == 0)
+	if (buf == NULL || buf->data == NULL)
 		return;
 
 	buf->data_length += len;
-	/* NULL Term */
+	/* NULL Term. Done even if nothing was kept, the writer may have overwritten the terminator. */
 	buf->data[buf->data_consumed + buf->data_length] = 0;
 }
 
-- 
2.43.0


From d094f9824d0f10d601d5b6e582f6d7f414b7ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 06/57] fix: rounding away 20 or more decimals is 0 instead of
 using an overflowed divisor

---
 base/math/m_round.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/math/m_round.c b/base/math/m_round.c
index 024fb0a..a392e6e 100644
--- a/base/math/m_round.c
+++ b/base/math/m_round.c
@@ -33,6 +33,10 @@ M_uint64 M_uint64_prec_round(M_uint64 num, int currentDecimals, int wantedDecima
 	if (wantedDecimals >= currentDecimals)
 		return num;
 
+	/* 10^20 and up can't be represented and is always more than twice the largest number. */
+	if (currentDecimals - wantedDecimals > 19)
+		return 0;
+
 	/* coverity[return_constant : FALSE] */
 	roundDivisor = M_uint64_exp(10, currentDecimals-wantedDecimals);
 
-- 
2.43.0


From dd9a5dbf2c8774890a0e5c60bdab2f374b431402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 07/57] fix: integer parsing doesn't look past the length when
 the input is all whitespace

---
 base/data/m_str_num.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index fec26e3..2b84a04 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -31,7 +31,7 @@ M_BEGIN_IGNORE_DEPRECATIONS
 
 static void eat_whitespace(const char **s, size_t *len)
 {
-	for (; M_chr_isspace(**s) && *len; (*s)++, (*len)--)
+	for (; *len && M_chr_isspace(**s); (*s)++, (*len)--)
 		;
 }
 
-- 
2.43.0


From 65cf7d2b4100682557a8112ee9caf490583bf7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 08/57] fix: integer parsing recognizes the 0x prefix when
 digits follow it

---
 base/data/m_str_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index 2b84a04..ab92de4 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -123,7 +123,7 @@ static void M_str_intconv_prep(const char **s, size_t *len, unsigned char *base,
 
 	/* Auto-determine base */
 	if (*base == 0) {
-		if (*len >= 2 && M_str_caseeq_max(*s, "0x", *len)) {
+		if (*len >= 2 && M_str_caseeq_max(*s, "0x", 2)) {
 			*base = 16;
 		} else if (*len >= 1 && **s== '0') {
 			*base = 8;
@@ -133,7 +133,7 @@ static void M_str_intconv_prep(const char **s, size_t *len, unsigned char *base,
 	}
 
 	/* Hex is allowed a 0x prefix ... strip it */
-	if (*base == 16 && *len >= 2 && M_str_caseeq_max(*s, "0x", *len)) {
+	if (*base == 16 && *len >= 2 && M_str_caseeq_max(*s, "0x", 2)) {
 		(*s) += 2;
 		(*len)    -= 2;
 	}
-- 
2.43.0


From ee1eca17379e3e44cf2bce12d2a6e76c502f9fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:07 +0000
Subject: [PATCH 09/57] fix: integer parsing detects every overflow, not just
 ones that wrap to a smaller value

---
 base/data/m_str_num.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index ab92de4..f22c23d 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -90,7 +90,7 @@ static M_str_int_retval_t M_str_to_uint64_int(const char *s, size_t len, unsigne
 			break;
 
 		v = ret * base + digit;
-		if (v < ret) {
+		if (ret > (M_UINT64_MAX - digit) / base) {
 			overflow = M_true;
 			/* Don't stop consuming valid characters
 			 * break; */
-- 
2.43.0


From 7d4604ff947fc410d064be849c6caaeef06799c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 10/57] fix: reject the noncharacters of planes 10 to 15 as
 code points like those of the other planes

---
 base/utf8/m_utf8.c | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index 63e3451..9925a6f 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -123,22 +123,9 @@ M_bool M_utf8_is_valid_cp(M_uint32 cp)
 	if (cp >= 0xD800 && cp <= 0xDFFF)
 		return M_FALSE;
 
-	/* Noncharacters */
-	if (cp == 0xFFFE || cp == 0xFFFF ||
-		cp == 0x1FFFE || cp == 0x1FFFF ||
-		cp == 0x2FFFE || cp == 0x2FFFF ||
-		cp == 0x3FFFE || cp == 0x3FFFF ||
-		cp == 0x4FFFE || cp == 0x4FFFF ||
-		cp == 0x5FFFE || cp == 0x5FFFF ||
-		cp == 0x6FFFE || cp == 0x6FFFF ||
-		cp == 0x7FFFE || cp == 0x7FFFF ||
-		cp == 0x8FFFE || cp == 0x8FFFF ||
-		cp == 0x9FFFE || cp == 0x9FFFF ||
-		cp == 0x10FFFE || cp == 0x10FFFF ||
-		(cp >= 0xFDD0 && cp <= 0xFDEF))
-	{
+	/* Noncharacters. The last two code points of every plane and a block in the BMP. */
+	if ((cp & 0xFFFE) == 0xFFFE || (cp >= 0xFDD0 && cp <= 0xFDEF))
 		return M_FALSE;
-	}
 
 	return M_TRUE;
 }
-- 
2.43.0


From 2ff42a184520a276066a9861bcb35d995638d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 11/57] fix: code point at an index one past the last character
 is an error

---
 base/utf8/m_utf8.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index 9925a6f..bea9f7e 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -322,17 +322,15 @@ M_utf8_error_t M_utf8_cp_at(const char *str, size_t idx, M_uint32 *cp)
 	while (*next != '\0' && res == M_UTF8_ERROR_SUCCESS) {
 		res = M_utf8_get_cp(str, cp, &next);
 		str = next;
-		if (i == idx)
-			break;
+		if (res == M_UTF8_ERROR_SUCCESS && i == idx)
+			return M_UTF8_ERROR_SUCCESS;
 		i++;
 	}
 	if (res != M_UTF8_ERROR_SUCCESS)
 		return res;
 
-	if (i != idx)
-		return M_UTF8_ERROR_INVALID_PARAM;
-
-	return M_UTF8_ERROR_SUCCESS;
+	/* Index is past the last character. */
+	return M_UTF8_ERROR_INVALID_PARAM;
 }
 
 M_utf8_error_t M_utf8_chr_at(const char *str, char *buf, size_t buf_size, size_t *len, size_t idx)
-- 
2.43.0


From ea3810c54a8b10f41cff6bbbe2a9d315883b67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:02 +0000
Subject: [PATCH 12/57] fix: code point at an index doesn't dereference NULL on
 malformed utf-8

---
 base/utf8/m_utf8.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index bea9f7e..cd24941 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -313,21 +313,20 @@ size_t M_utf8_cnt(const char *str)
 M_utf8_error_t M_utf8_cp_at(const char *str, size_t idx, M_uint32 *cp)
 {
 	const char     *next = str;
-	M_utf8_error_t  res  = M_UTF8_ERROR_SUCCESS;
+	M_utf8_error_t  res;
 	size_t          i    = 0;
 
 	if (M_str_isempty(str))
 		return M_UTF8_ERROR_INVALID_PARAM;
 
-	while (*next != '\0' && res == M_UTF8_ERROR_SUCCESS) {
+	while (*next != '\0') {
 		res = M_utf8_get_cp(str, cp, &next);
+		/* next isn't set on error. */
+		if (res != M_UTF8_ERROR_SUCCESS || i == idx)
+			return res;
 		str = next;
-		if (res == M_UTF8_ERROR_SUCCESS && i == idx)
-			return M_UTF8_ERROR_SUCCESS;
 		i++;
 	}
-	if (res != M_UTF8_ERROR_SUCCESS)
-		return res;
 
 	/* Index is past the last character. */
 	return M_UTF8_ERROR_INVALID_PARAM;
-- 
2.43.0


From 45aed9cfd461407c9b144f1da18283f5026bc7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 13/57] fix: merging a buffer that had data dropped merges the
 data that's left

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 2f5460e..e5b576e 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -167,7 +167,7 @@ void M_buf_merge(M_buf_t *dest, M_buf_t *source)
 {
 	if (dest == NULL || source == NULL)
 		return;
-	M_buf_add_bytes(dest, source->data, source->data_length);
+	M_buf_add_bytes(dest, M_buf_peek(source), source->data_length);
 	M_buf_cancel(source);
 }
 
-- 
2.43.0


From fb6ecaa905fd226892c7ac98afdd9b31e5adcef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 14/57] fix: justified add after dropped data writes to where
 the data is after making space

---
 base/data/m_buf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index e5b576e..651ca24 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -684,9 +684,6 @@ static void M_buf_add_bytes_just_transform(M_buf_t *buf, M_uint32 transform_type
 	if (bytes == NULL && bytes_length > 0)
 		return;
 
-	/* Record offset before appending anything */
-	offset       = buf->data_consumed + buf->data_length;
-
 	/* Perform transformation on data *first*, record length appended */
 	bytes_length = M_buf_add_bytes_transform(buf, transform_type, bytes, bytes_length);
 
@@ -695,6 +692,9 @@ static void M_buf_add_bytes_just_transform(M_buf_t *buf, M_uint32 transform_type
 		ensure_space(buf, width);
 	}
 
+	/* Offset of the appended data. Making space may have moved it. */
+	offset = buf->data_consumed + buf->data_length - bytes_length;
+
 	/* Justify data in-place */
 	justified_length   = M_str_justify_max(((char *)buf->data) + offset, M_MAX(bytes_length, width) + 1, ((char *)buf->data) + offset, bytes_length, justify_type, fill_char, width);
 	if (justified_length >= bytes_length) {
-- 
2.43.0


From 4185bff332e9dee7f6179a8db37d79deed30a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 15/57] fix: buffer integer and money output of the most
 negative value, and no stray sign when money doesn't fit

---
 base/data/m_buf.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 651ca24..e472cc3 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -781,10 +781,8 @@ static size_t num_digits(M_int64 n, unsigned char base)
 {
 	size_t count = 0;
 
-	if (n < 0) {
-		n *= -1;
+	if (n < 0)
 		count++;
-	}
 
 	do {
 		n /= base;
@@ -796,7 +794,8 @@ static size_t num_digits(M_int64 n, unsigned char base)
 
 M_bool M_buf_add_int_just(M_buf_t *buf, M_int64 n, size_t width)
 {
-	char space[32];
+	char     space[32];
+	M_uint64 magnitude = (n < 0) ? 0 - (M_uint64)n : (M_uint64)n;
 
 	if (buf == NULL || width == 0)
 		return M_FALSE;
@@ -804,11 +803,10 @@ M_bool M_buf_add_int_just(M_buf_t *buf, M_int64 n, size_t width)
 	/* Prepend negative */
 	if (width >= 1 && n < 0) {
 		M_buf_add_byte(buf, '-');
-		n *= -1;
 		width--;
 	}
 
-	M_snprintf(space, sizeof(space), "%lld", n);
+	M_snprintf(space, sizeof(space), "%llu", magnitude);
 	M_buf_add_str_just(buf, space, M_STR_JUSTIFY_RIGHT, '0', width);
 	return M_str_len(space) <= width;
 }
@@ -976,7 +974,7 @@ M_bool M_buf_add_int_money_dot(M_buf_t *buf, M_int64 amount, size_t max_width)
 {
 	char   space[32];
 	size_t r;
-	M_uint64 amnt = (M_uint64)M_ABS(amount);
+	M_uint64 amnt = (amount < 0) ? 0 - (M_uint64)amount : (M_uint64)amount;
 
 	if (buf == NULL)
 		return M_FALSE;
@@ -996,23 +994,23 @@ M_bool M_buf_add_int_money_just(M_buf_t *buf, M_int64 amount, size_t max_width)
 
 M_bool M_buf_add_int_money_dot_just(M_buf_t *buf, M_int64 amount, size_t max_width)
 {
-	char   space[32];
-	size_t r;
+	char     space[32];
+	size_t   r;
+	M_uint64 magnitude = (amount < 0) ? 0 - (M_uint64)amount : (M_uint64)amount;
 
 	if (buf == NULL)
 		return M_FALSE;
 
+	r = M_snprintf(space, sizeof(space), "%llu.%02llu", magnitude / 100, magnitude % 100);
+	if (r + (amount < 0 ? 1 : 0) > max_width)
+		return M_FALSE;
+
 	/* Prepend negative */
-	if (max_width >= 1 && amount < 0) {
+	if (amount < 0) {
 		M_buf_add_byte(buf, '-');
-		amount *= -1;
 		max_width--;
 	}
 
-	r = M_snprintf(space, sizeof(space), "%lld.%02lld", amount / 100, amount % 100);
-	if (r > max_width)
-		return M_FALSE;
-
 	M_buf_add_str_just(buf, space, M_STR_JUSTIFY_RIGHT, '0', max_width);
 	return M_TRUE;
 }
-- 
2.43.0


From 8bdef7a9360a32f9a9340f07ff9259be49959dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 16/57] fix: parser marks at the end of the data follow it when
 more is appended

---
 base/data/m_parser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index c523923..1730877 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -429,9 +429,8 @@ static void M_parser_ensure_space(M_parser_t *parser, size_t len)
 
 		keep_len   = parser->data_len + len_marked;
 
-		/* Make sure we don't move to same position where we are, and we are actually moving
-		 * data at all */
-		if (parser->data_dyn != mark_start && keep_len != 0) {
+		/* Make sure we don't move to same position where we are */
+		if (parser->data_dyn != mark_start) {
 			/* Update mark offsets.  Remember, they can be different, so just
 			 * do math instead of setting them to 0 */
 			if (parser->mark_int != -1)
@@ -439,8 +438,9 @@ static void M_parser_ensure_space(M_parser_t *parser, size_t len)
 			if (parser->mark_user != -1)
 				parser->mark_user -= (mark_start - parser->data_dyn);
 
-			/* Move the data into position */
-			M_mem_move(parser->data_dyn, mark_start, keep_len);
+			/* Move the data into position, there may be nothing to keep but the marks */
+			if (keep_len != 0)
+				M_mem_move(parser->data_dyn, mark_start, keep_len);
 		}
 
 		parser->data = parser->data_dyn + len_marked;
-- 
2.43.0


From 873d8b4be69355e8aac641eee5d5af52abc14b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 17/57] fix: truncating whitespace of an empty parser doesn't
 look before the data

---
 base/data/m_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 1730877..dedd336 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -774,7 +774,7 @@ size_t M_parser_truncate_whitespace(M_parser_t *parser, M_uint32 flags)
 
 	/* If we start on a newline, go ahead and consume that even if we're consuming
 	 * whitespace to the new line */
-	if (flags & M_PARSER_WHITESPACE_TO_NEWLINE && parser->data[dlen-1] == '\n')
+	if (flags & M_PARSER_WHITESPACE_TO_NEWLINE && dlen != 0 && parser->data[dlen-1] == '\n')
 		dlen--;
 
 	for ( ; dlen != 0; dlen--) {
-- 
2.43.0


From 7610a4f87afa5c31e9ed64c4e2d47cacb9b0cd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 18/57] fix: consuming to a boundary finds a boundary preceded
 by the start of one, and handles no data

---
 base/data/m_parser.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index dedd336..b3bf25f 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -998,19 +998,18 @@ size_t M_parser_consume_boundary(M_parser_t *parser, const unsigned char *pat, s
 	if (parser == NULL || pat == NULL || len == 0)
 		return 0;
 
-	do {
-		M_bool eq = (parser->data[i] == pat[j]);
-		i++;
-		if (eq) {
-			j++;
-			if (j >= len) {
-				*found = M_TRUE;
-			}
-		} else {
-			consumed_len = i;
-			j            = 0;
+	/* Find the first position where the pattern, or as much of it as there is data left, matches. */
+	for (i=0; i<parser->data_len; i++) {
+		for (j=0; j<len && i+j<parser->data_len; j++) {
+			if (parser->data[i+j] != pat[j])
+				break;
 		}
-	} while (i < parser->data_len && !(*found));
+		if (j == len)
+			*found = M_TRUE;
+		if (j == len || i+j == parser->data_len)
+			break;
+	}
+	consumed_len = i;
 
 	/* Skip past end of boundry if it was fully found. */
 	if (*found && eat_pat)
-- 
2.43.0


From bbbd2c14d95d03814a0560bc05fe8bbee00f6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 19/57] fix: reading up to a number of bytes into a buffer
 returns how many were read

---
 base/data/m_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index b3bf25f..1163ab4 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -1938,7 +1938,7 @@ size_t M_parser_read_buf_max(M_parser_t *parser, M_buf_t *buf, size_t len)
 
 	M_buf_add_bytes(buf, parser->data, len);
 	M_parser_consume(parser, len);
-	return M_TRUE;
+	return len;
 }
 
 size_t M_parser_read_buf_until(M_parser_t *parser, M_buf_t *buf, const unsigned char *pat, size_t pat_len, M_bool eat_pat)
-- 
2.43.0


From a388dfd19b6df4e053e2646d342a80de1f85e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 20/57] fix: reading 8 byte binary integers doesn't overflow a
 signed shift

---
 base/data/m_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 1163ab4..72ca0a8 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -318,7 +318,7 @@ static M_bool M_parser_read_int_binary(M_parser_t *parser, size_t len, M_bool is
 
 	*integer = 0;
 	for (i=0; i<len; i++) {
-		*integer <<= 8;
+		*integer   = (M_int64)((M_uint64)*integer << 8);
 		*integer  |= parser->data[is_bigendian?i:len-(i+1)];
 	}
 
-- 
2.43.0


From 1f1318501df888584d72b24edb95c63ca8ca92cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 21/57] fix: adding bytes to a bit buffer clears the unused
 bits of the last byte

---
 base/data/m_bit_buf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/data/m_bit_buf.c b/base/data/m_bit_buf.c
index 2cea9c6..db3d68f 100644
--- a/base/data/m_bit_buf.c
+++ b/base/data/m_bit_buf.c
@@ -272,7 +272,11 @@ void M_bit_buf_add_bytes(M_bit_buf_t *bbuf, const void *vbytes, size_t nbits)
 	 * to the internal buffer.
 	 */
 	if ((bbuf->nbits % 8) == 0) {
-		M_buf_add_bytes(bbuf->bits, bytes, nbytes_whole + (nbits_left > 0? 1 : 0));
+		M_buf_add_bytes(bbuf->bits, bytes, nbytes_whole);
+		if (nbits_left > 0) {
+			/* Unused bits at the end of the last byte must be zero, later additions rely on it. */
+			M_buf_add_byte(bbuf->bits, (M_uint8)(bytes[nbytes_whole] & ~((1 << (8 - nbits_left)) - 1)));
+		}
 		bbuf->nbits += nbits;
 		return;
 	}
-- 
2.43.0


From 3895c71c078a4d439341786bc138c95af729daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 22/57] fix: truncating a bit buffer to more than its length
 does nothing

---
 base/data/m_bit_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/data/m_bit_buf.c b/base/data/m_bit_buf.c
index db3d68f..aef03e3 100644
--- a/base/data/m_bit_buf.c
+++ b/base/data/m_bit_buf.c
@@ -112,7 +112,8 @@ void M_bit_buf_truncate(M_bit_buf_t *bbuf, size_t len_bits)
 	size_t num_full_bytes = len_bits / 8; /* number of FULL bytes, does not include last partial byte. */
 	size_t part_bits      = len_bits % 8;
 
-	if (bbuf == NULL) {
+	/* Can't truncate to more than there is. */
+	if (bbuf == NULL || len_bits >= bbuf->nbits) {
 		return;
 	}
 	bbuf->nbits = len_bits;
-- 
2.43.0


From 0da3145e999b74c239d1247d83bfd4de9e63eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 23/57] fix: bit buffer peek and update accept NULL like the
 other functions

---
 base/data/m_bit_buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/data/m_bit_buf.c b/base/data/m_bit_buf.c
index aef03e3..72505a6 100644
--- a/base/data/m_bit_buf.c
+++ b/base/data/m_bit_buf.c
@@ -103,6 +103,9 @@ size_t M_bit_buf_len_bytes(const M_bit_buf_t *bbuf)
 
 const M_uint8 *M_bit_buf_peek(const M_bit_buf_t *bbuf)
 {
+	if (bbuf == NULL) {
+		return NULL;
+	}
 	return (const M_uint8 *)M_buf_peek(bbuf->bits);
 }
 
@@ -226,7 +229,7 @@ M_bool M_bit_buf_update_bit(M_bit_buf_t *bbuf, size_t bit_idx, M_uint8 bit)
 	M_uint8    *byte;
 	M_uint8     bits_to_set;
 
-	if (bit_idx >= bbuf->nbits) {
+	if (bbuf == NULL || bit_idx >= bbuf->nbits) {
 		return M_FALSE;
 	}
 
-- 
2.43.0


From b0cd0b1ebd9d6ff692704c46a24d2b0a72824bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 24/57] fix: reading unaligned bits at the end of the data
 doesn't look past it

---
 base/data/m_bit_parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index d4d4f5f..6b72d99 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -86,7 +86,11 @@ static size_t peek_next_bytes(const M_bit_parser_t *bparser, M_uint8 *dest, size
 		M_uint8 invskip = (M_uint8)(8 - bitskip); /* number of bits to skip from right side of next byte */
 		size_t  i;
 		for (i=0; i<nbytes; i++) {
-			dest[i] = (M_uint8)((src[i] << bitskip) | (src[i + 1] >> invskip));
+			dest[i] = (M_uint8)(src[i] << bitskip);
+			/* The next byte may not be there if it has no bits we want. */
+			if (i * 8 + invskip < nbits) {
+				dest[i] = (M_uint8)(dest[i] | (src[i + 1] >> invskip));
+			}
 		}
 	}
 
-- 
2.43.0


From 940ddbaf5338e4880d93cd1d629942521e13f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 25/57] fix: reading more bits than there are is refused before
 space is made for them

---
 base/data/m_bit_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index 6b72d99..43b52bc 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -66,7 +66,7 @@ static size_t peek_next_bytes(const M_bit_parser_t *bparser, M_uint8 *dest, size
 	if (nbits == 0) {
 		return 0;
 	}
-	if (bparser->offset + nbits > bparser->nbits) {
+	if (nbits > M_bit_parser_len(bparser)) {
 		return 0;
 	}
 
@@ -406,7 +406,7 @@ M_bool M_bit_parser_read_buf(M_bit_parser_t *bparser, M_buf_t *buf, size_t nbits
 	if (nbits == 0) {
 		return M_TRUE;
 	}
-	if (bparser == NULL || buf == NULL) {
+	if (buf == NULL || nbits > M_bit_parser_len(bparser)) {
 		return M_FALSE;
 	}
 
-- 
2.43.0


From 50863fe1602d30e3d1265b929c877ba4ba9e1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 26/57] fix: counting bits doesn't count the unused bits of the
 last byte

---
 base/data/m_bit_parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index 43b52bc..6f1721a 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -290,6 +290,12 @@ size_t M_bit_parser_count(const M_bit_parser_t *bparser, M_uint8 bit)
 	/* If user requested number of unset bits, subtract count from total number of bits, and return that.
 	 * If user requested number of set bits, return count directly.
 	 */
+	/* The unused bits at the end of the last byte don't count. */
+	if (bparser->nbits % 8 != 0) {
+		M_uint8 last_byte = (M_uint8)(bparser->bytes[nbytes - 1] & ((1 << (8 - (bparser->nbits % 8))) - 1));
+		count -= M_uint8_popcount(last_byte);
+	}
+
 	return (bit == 0)? (bparser->nbits - (bparser->offset + count)) : count;
 }
 
-- 
2.43.0


From 80325fe982cf7eebd2dc517db25e51236d45f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 27/57] fix: reading a signed integer of more bits than there
 are, or fit, fails

---
 base/data/m_bit_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index 6f1721a..191c7dc 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -526,7 +526,7 @@ M_bool M_bit_parser_read_int(M_bit_parser_t *bparser, size_t nbits, M_bit_parser
 		*res = 0;
 	}
 
-	if (bparser == NULL || nbits < 2 || res == NULL) {
+	if (nbits < 2 || nbits > 64 || nbits > M_bit_parser_len(bparser) || res == NULL) {
 		return M_FALSE;
 	}
 
-- 
2.43.0


From 955d342c6b077874f0ceae87b247e125d872ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 28/57] fix: clearing the malloc error callbacks clears all of
 them

Only as many bytes as there are callbacks were cleared, so stale callbacks stayed in the table, and
deregistering one of them moved (size_t)-x callbacks.
---
 base/mem/m_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/mem/m_mem.c b/base/mem/m_mem.c
index 87bf5b6..16ffef6 100644
--- a/base/mem/m_mem.c
+++ b/base/mem/m_mem.c
@@ -131,7 +131,7 @@ void M_malloc_clear_errorcb(void)
 	if (error_cbs_cnt <= 1)
 		return;
 
-	M_mem_set(error_cbs+1, 0, (sizeof(error_cbs)/sizeof(*error_cbs))-1); 
+	M_mem_set(error_cbs+1, 0, sizeof(error_cbs)-sizeof(*error_cbs));
 	error_cbs_cnt = 1;
 }
 
-- 
2.43.0


From ee88bdbea0bdd1f22a466054d255d7d8cfe86396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 29/57] fix: memory zeroed by M_realloc_zero is zero after an
 earlier shrink

Shrinking kept (and recorded) the size before, so growing again left the bytes cut off before in place
instead of zeroing them.
---
 base/mem/m_mem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/mem/m_mem.c b/base/mem/m_mem.c
index 16ffef6..a26ac2c 100644
--- a/base/mem/m_mem.c
+++ b/base/mem/m_mem.c
@@ -209,7 +209,9 @@ static void *M_realloc_int(void *ptr, size_t size, M_bool zero)
 	M_mem_copy(&orig_size, ((char *)ptr) - M_SAFE_ALIGNMENT, sizeof(orig_size));
 
 	/* Copy all data to new memory address */
-	ret = M_memdup_max(ptr, orig_size, size);
+	ret = M_malloc(size);
+	if (ret != NULL)
+		M_mem_copy(ret, ptr, M_MIN(orig_size, size));
 
 	/* Zero out the extended memory if necesary */
 	if (ret != NULL && zero && size > orig_size) {
-- 
2.43.0


From 8e678b9105db5bf9c7a1bcca462d74f20abc1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 30/57] fix: removing one of a key's values from a hashtable is
 counted

M_hashtable_multi_remove() didn't count the value it removed, so M_hashtable_enumerate() announced values
that aren't there.
---
 base/hash/m_hashtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/hash/m_hashtable.c b/base/hash/m_hashtable.c
index 0d1bf5b..bf69f9f 100644
--- a/base/hash/m_hashtable.c
+++ b/base/hash/m_hashtable.c
@@ -682,6 +682,7 @@ M_bool M_hashtable_multi_remove(M_hashtable_t *h, const void *key, size_t idx, M
 		return M_hashtable_remove(h, key, destroy_vals);
 
 	value = M_list_take_at(entry->value.multi_value, idx);
+	h->num_values--;
 	if (destroy_vals)
 		h->value_free(value);
 
-- 
2.43.0


From be558c0e52cf404bb10d2c664f6a899251258221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 31/57] fix: merging hashtables with sorted values releases the
 keys both have

The helper tables that track keys were created with the source's flags but without the value comparison
sorted values need, so they weren't created at all and the source's copy of a common key leaked.
---
 base/hash/m_hashtable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/hash/m_hashtable.c b/base/hash/m_hashtable.c
index bf69f9f..7122b69 100644
--- a/base/hash/m_hashtable.c
+++ b/base/hash/m_hashtable.c
@@ -898,9 +898,9 @@ void M_hashtable_merge(M_hashtable_t **dest, M_hashtable_t *src)
 	callbacks.key_duplicate_insert   = src->key_duplicate_insert;
 	callbacks.key_duplicate_copy     = src->key_duplicate_copy;
 	callbacks.key_free               = src->key_free;
-	h3 = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags, &callbacks);
+	h3 = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, M_HASHTABLE_NONE, &callbacks);
 	/* hm is for tracking keys that have been put into other hashtables. We don't want anything freed. */
-	hm = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags, NULL);
+	hm = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, M_HASHTABLE_NONE, NULL);
 
 	/* Since will be doing direct pointer copying of keys and values,
 	 * rather than reallocing and freeing the old ones.  Make sure
-- 
2.43.0


From 052d44e8c21bf34e135bf66f8fdf4c7eca805761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 32/57] fix: removing the only element of a circular list
 empties the list

---
 base/list/m_llist.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 7d1a75f..912254c 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -201,10 +201,16 @@ static void M_llist_node_unlink(M_llist_node_t *n)
 		prev->links.unsorted.next = next;
 
 	/* Fix head and tail. */
-	if (n == d->head.unsorted.head)
-		d->head.unsorted.head = n->links.unsorted.next;
-	if (n == d->tail)
-		d->tail = n->links.unsorted.prev;
+	if (next == n) {
+		/* The only element of a circular list links to itself. */
+		d->head.unsorted.head = NULL;
+		d->tail               = NULL;
+	} else {
+		if (n == d->head.unsorted.head)
+			d->head.unsorted.head = n->links.unsorted.next;
+		if (n == d->tail)
+			d->tail = n->links.unsorted.prev;
+	}
 
 	n->links.unsorted.next = NULL;
 	n->links.unsorted.prev = NULL;
-- 
2.43.0


From 63931ca89071be18d64194a9dfe6578c12115e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 33/57] fix: removing the first element of a circular list by
 value terminates

---
 base/list/m_llist.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 912254c..6e22e88 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -355,11 +355,11 @@ static M_bool M_llist_insert_node(M_llist_node_t *node)
 static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_match_op_t type, M_llist_match_op_t match_op)
 {
 	M_llist_node_t *node;
-	M_llist_node_t *first = NULL;
 	M_llist_node_t *next;
 	M_bool          val_match;
 	M_bool          match;
 	size_t          cnt = 0;
+	size_t          left;
 
 	if (d == NULL || val == NULL || (!(type & M_LLIST_MATCH_PTR) && d->equality == NULL))
 		return 0;
@@ -369,10 +369,13 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 		/* Find is stable so it always returns the first value so we don't have to do any look back here. */
 		node = M_llist_find(d, val, type);
 	} else {
-		first = d->head.unsorted.head;
-		node  = first;
+		node = d->head.unsorted.head;
 	}
 
+	/* A circular list doesn't end with a NULL and the node we start with may be removed so
+	 * only look at as many nodes as there are now. */
+	left = d->elements;
+
 	/* Move forward operating on every node we find that matches.
  	 * When sorted this will start with the first matching node.
 	 * When unsorted this will start with head.
@@ -425,7 +428,8 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 		}
 		node = next;
 
-		if (node == first) {
+		left--;
+		if (left == 0) {
 			break;
 		}
 	}
-- 
2.43.0


From caa4c4105e82df458281ec1221c314c7d9cf8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 34/57] fix: duplicating a linked list keeps how it is sorted

---
 base/list/m_llist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 6e22e88..dfe8403 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -1028,6 +1028,7 @@ M_llist_t *M_llist_duplicate(const M_llist_t *d)
 	callbacks.duplicate_copy   = d->duplicate_copy;
 	callbacks.value_free       = d->value_free;
 	dupd = M_llist_create(&callbacks, d->flags);
+	dupd->equality_thunk = d->equality_thunk;
 
 	first = M_llist_first(d);
 	node  = first;
-- 
2.43.0


From 82c8326bcfa9293437be6732bf0432e36f52836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 35/57] fix: a stable sorted insert goes after all equal
 elements

---
 base/sort/m_sort_binary.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/sort/m_sort_binary.c b/base/sort/m_sort_binary.c
index a6809bf..69c8a8a 100644
--- a/base/sort/m_sort_binary.c
+++ b/base/sort/m_sort_binary.c
@@ -147,8 +147,10 @@ static M_bool M_sort_binary_idx(const void *base, size_t nmemb, size_t esize, co
 
 		/* Since we're not finding a match, that means we're probably inserting,
 		 * so we want to insert to the *end* of the identical matches */
-		while (mid < (size_t)right && eq == 0) {
+		while (eq == 0) {
 			mid++;
+			if ((ssize_t)mid > right)
+				break;
 			eq = compar(key, (const unsigned char *)base+(mid*esize), thunk);
 		}
 		*idx = mid;
-- 
2.43.0


From c474c700fb1c629cee518842832005a52b4ac147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 36/57] fix: removing all of a pointer from a sorted list
 removes only that pointer

---
 base/list/m_list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 1c4ea1f..1d6f263 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -292,6 +292,9 @@ static size_t M_list_match_op_val_int(M_list_t *d, const void *val, const void *
 					if (val == d->start[i]) {
 						if (match_op == M_LIST_MATCH_OP_REMOVE || match_op == M_LIST_MATCH_OP_REPLACE) {
 							M_list_remove_at(d, i);
+							/* The first match we found has moved down. */
+							start--;
+							end--;
 						}
 						cnt++;
 					}
-- 
2.43.0


From 842556683c38f43f287d98262466a32bb5a323b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 37/57] fix: removing a value from a stack removes that value

---
 base/list/m_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 1d6f263..a0c20c3 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -355,7 +355,7 @@ static size_t M_list_match_op_val_int(M_list_t *d, const void *val, const void *
 				d->value_free(d->start[i]);
 				d->start[i] = ptr;
 			} else if (match_op == M_LIST_MATCH_OP_REMOVE) {
-				M_list_remove_at(d, i);
+				M_list_remove_at(d, M_list_convert_idx_at(d, i));
 			}
 			cnt++;
 		}
-- 
2.43.0


From e7eab05c7e1959d26e553f55c1f86149e72c54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 38/57] fix: removing a range from a stack removes that range

---
 base/list/m_list.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index a0c20c3..bd7769f 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -716,11 +716,18 @@ M_bool M_list_remove_range(M_list_t *d, size_t start, size_t end)
 	if (d == NULL || start > end || start >= d->elements)
 		return M_FALSE;
 
+	if (end >= d->elements)
+		end = d->elements-1;
+
 	start = M_list_convert_idx_at(d, start);
 	end   = M_list_convert_idx_at(d, end);
 
-	if (end >= d->elements)
-		end = d->elements-1;
+	/* The order is reversed in a stack. */
+	if (start > end) {
+		i     = start;
+		start = end;
+		end   = i;
+	}
 
 	if (end == d->elements-1)
 		remove_to_end = M_TRUE;
-- 
2.43.0


From 38657a6b0adb89ce34d168be5ad5bdae0b1d6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 39/57] fix: removing duplicates from a sorted list keeps the
 values that have none

---
 base/list/m_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index bd7769f..a0dc524 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -785,8 +785,8 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 					;
 				/* We want to do a bulk remove since the duplicates will be contiguous and one move
 				 * operation will be faster than multiple. */
-				if (j > i)
-					M_list_remove_range(d, M_list_convert_idx_at(d, i+1), M_list_convert_idx_at(d, j));
+				if (j > i+1)
+					M_list_remove_range(d, M_list_convert_idx_at(d, i+1), M_list_convert_idx_at(d, j-1));
 			}
 		}
 	/* O(n^2) because we're unsorted so insertion order is assumed and we want to maintain the insertion order. */
-- 
2.43.0


From f432ccfb9579fbef61fbd018d09148412b72b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 40/57] fix: swapping list elements stays within the list and
 follows stack order

---
 base/list/m_list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index a0dc524..cbdc00d 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -827,9 +827,12 @@ M_bool M_list_swap(M_list_t *d, size_t idx1, size_t idx2)
 {
 	void *temp;
 
-	if (d == NULL || d->elements == 0 || (d->flags & M_LIST_SORTED) || idx1 == idx2 || idx1 > d->elements || idx2 > d->elements)
+	if (d == NULL || d->elements == 0 || (d->flags & M_LIST_SORTED) || idx1 == idx2 || idx1 >= d->elements || idx2 >= d->elements)
 		return M_FALSE;
 
+	idx1 = M_list_convert_idx_at(d, idx1);
+	idx2 = M_list_convert_idx_at(d, idx2);
+
 	temp           = d->start[idx1];
 	d->start[idx1] = d->start[idx2];
 	d->start[idx2] = temp;
-- 
2.43.0


From cbc9a122b56bb06e0f1b6a3c9b8fe82db072b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 41/57] fix: inserting into a list at a position puts the value
 at that position

---
 base/list/m_list.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index cbdc00d..01582de 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -500,7 +500,12 @@ M_bool M_list_insert_at(M_list_t *d, const void *val, size_t idx)
 	if ((d->flags & M_LIST_SORTED) && !d->multi_insert) {
 		return M_FALSE;
 	}
-	return M_list_insert_at_int(d, val, M_list_convert_idx_at(d, idx), M_LIST_INSERT_INITIAL|M_LIST_INSERT_DUP);
+
+	/* An index in a stack is counted from the other end. */
+	if (d->flags & M_LIST_STACK) {
+		idx = idx > d->elements ? 0 : d->elements - idx;
+	}
+	return M_list_insert_at_int(d, val, idx, M_LIST_INSERT_INITIAL|M_LIST_INSERT_DUP);
 }
 
 void M_list_insert_begin(M_list_t *d)
-- 
2.43.0


From 6ac8ea61b7dde7f3741b7ef9fcfe153cd9d3c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 42/57] fix: a list passes the thunk it was given to its
 equality callback

---
 base/list/m_list.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 01582de..7b471c0 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -437,7 +437,7 @@ void M_list_change_sorting(M_list_t *d, M_sort_compar_t equality, M_uint32 sorte
 	/* Nothing is changing */
 	if ((sorted_flags & M_LIST_SORTED) == (d->flags & M_LIST_SORTED)     &&
 			(sorted_flags & M_LIST_STABLE) == (d->flags & M_LIST_STABLE) &&
-			equality == d->equality)
+			equality == d->equality && thunk == d->thunk)
 	{
 		return;
 	}
@@ -576,7 +576,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 			/* Scan up if we don't have a match for entries that also match the value. */
 			if (!ret) {
 				for (i=(*idx)+1; i<d->elements; i++) {
-					if (d->equality(&val, &d->start[i], NULL) != 0) {
+					if (d->equality(&val, &d->start[i], d->thunk) != 0) {
 						break;
 					}
 					if (val == d->start[i]) {
@@ -589,7 +589,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 			/* Scan down if we don't have a match for entries that also match the value. */
 			if (!ret) {
 				for (i=*idx; i-->0; ) {
-					if (d->equality(&val, &d->start[i], NULL) != 0) {
+					if (d->equality(&val, &d->start[i], d->thunk) != 0) {
 						break;
 					}
 					if (val == d->start[i]) {
@@ -615,7 +615,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 				return M_TRUE;
 			}
 		} else {
-			if (d->equality(&val, &d->start[i], NULL) == 0) {
+			if (d->equality(&val, &d->start[i], d->thunk) == 0) {
 				*idx = M_list_convert_idx_at(d, i);
 				return M_TRUE;
 			}
@@ -777,7 +777,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 			if (type & M_LIST_MATCH_PTR) {
 				/* Matching pointers means we have to find each individual match and remove it. */
 				/* Only look forward until we run out of matches because matches will be adjacent. */
-				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], NULL) == 0; j++) {
+				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], d->thunk) == 0; j++) {
 					/* Only remove if the pointer actually matches. */
 					if (d->start[i] == d->start[j]) {
 						M_list_remove_at(d, M_list_convert_idx_at(d, j));
@@ -786,7 +786,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 				}
 			} else {
 				/* Matching values means we can find where the value starts and ends an only remove the range. */
-				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], NULL) == 0; j++)
+				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], d->thunk) == 0; j++)
 					;
 				/* We want to do a bulk remove since the duplicates will be contiguous and one move
 				 * operation will be faster than multiple. */
@@ -798,7 +798,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 	} else {
 		for (i=0; i<d->elements; i++) {
 			for (j=i+1; j<d->elements; j++) {
-				if ((!(type & M_LIST_MATCH_PTR) && d->equality(&d->start[i], &d->start[j], NULL) == 0) || (type & M_LIST_MATCH_PTR && d->start[i] == d->start[j])) {
+				if ((!(type & M_LIST_MATCH_PTR) && d->equality(&d->start[i], &d->start[j], d->thunk) == 0) || (type & M_LIST_MATCH_PTR && d->start[i] == d->start[j])) {
 					M_list_remove_at(d, M_list_convert_idx_at(d, j));
 					/* Need to ensure we don't skip anything. We've removed item at j and the item after
  					 * as shifted to fill j. We need to decrement j so the for loop will increment j and
@@ -862,6 +862,9 @@ M_list_t *M_list_duplicate(const M_list_t *d)
 	callbacks.duplicate_copy   = d->duplicate_copy;
 	callbacks.value_free       = d->value_free;
 	dupd = M_list_create(&callbacks, d->flags);
+	if (dupd == NULL)
+		return NULL;
+	dupd->thunk = d->thunk;
 
 	M_list_insert_begin(dupd);
 	for (i=0; i<d->elements; i++) {
@@ -897,6 +900,7 @@ static void M_list_merge_int(M_list_t **dest, M_list_t *src, const M_list_t *dup
 		callbacks.duplicate_copy   = src->duplicate_copy;
 		callbacks.value_free       = src->value_free;
 		*dest = M_list_create(&callbacks, src->flags);
+		(*dest)->thunk = src->thunk;
 	}
 
 	/* If dest is a set we're never going to include duplicates. */
-- 
2.43.0


From c6f81ade45f9893414ab9ef4e7eb2a8968779e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:58 +0000
Subject: [PATCH 43/57] fix: a cache duplicates the value it is given, not the
 key

---
 base/cache/m_cache.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/cache/m_cache.c b/base/cache/m_cache.c
index 680cea9..7e73fc0 100644
--- a/base/cache/m_cache.c
+++ b/base/cache/m_cache.c
@@ -57,8 +57,8 @@ static M_cache_value_t *M_cache_value_create(const M_cache_t *c, const void *key
 		cval->key = M_CAST_OFF_CONST(void *, key);
 	}
 
-	if (c->value_duplicate != NULL) {
-		cval->value = c->value_duplicate(key);
+	if (c->value_duplicate != NULL && value != NULL) {
+		cval->value = c->value_duplicate(value);
 	} else {
 		cval->value = M_CAST_OFF_CONST(void *, value);
 	}
@@ -184,7 +184,7 @@ M_bool M_cache_insert(M_cache_t *c, const void *key, const void *value)
 	if (!newval) {
 		/* Update bucket data value. */
 		if (c->value_duplicate != NULL && value != NULL) {
-			cval->value = c->value_duplicate(key);
+			cval->value = c->value_duplicate(value);
 		} else {
 			cval->value = M_CAST_OFF_CONST(void *, value);
 		}
-- 
2.43.0


From bbed232968a3c01d34c8940c1f933181a75b416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:30 +0000
Subject: [PATCH 44/57] fix: normalizing a date by years counts the leap day it
 passes

---
 base/time/m_time_gm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_gm.c b/base/time/m_time_gm.c
index 3873d09..24412c4 100644
--- a/base/time/m_time_gm.c
+++ b/base/time/m_time_gm.c
@@ -87,13 +87,17 @@ void M_time_normalize_tm(struct M_time_tm *tm)
 	normalize_range(&tm->hour, &tm->min, 0, 59);
 	normalize_range(&tm->day, &tm->hour, 0, 23);
 
+	/* Need to know the month to know if a leap day is within the year ahead or behind */
+	normalize_range(&tm->year, &tm->month, 0, 11);
+
 	/* Optimization: normalize days to years. Not necesary
 	 * to the calc, but helps */
 	while (1) {
+		/* After February it's the following year's leap day that matters */
 		if (tm->day > 0) {
-			is_leapyear = IS_LEAPYEAR(tm->year);
+			is_leapyear = IS_LEAPYEAR(tm->year + (tm->month > 1 ? 1 : 0));
 		} else {
-			is_leapyear = IS_LEAPYEAR(tm->year-1);
+			is_leapyear = IS_LEAPYEAR(tm->year - (tm->month > 1 ? 0 : 1));
 		}
 		num_year_days = is_leapyear?366:365;
 
-- 
2.43.0


From 142f77653fdaf41969e53e4e1951c7907f19b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:31 +0000
Subject: [PATCH 45/57] fix: the hour on a 12 hour clock at midnight is 12

---
 base/time/m_time_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 823a7b8..9dc60af 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -884,7 +884,7 @@ char *M_time_to_str(const char *fmt, const M_time_localtm_t *tm)
 					M_buf_add_int_just(buf, mytm.hour, 2);
 					break;
 				case 'I':
-					M_buf_add_int_just(buf, mytm.hour>12?mytm.hour-12:mytm.hour, 2);
+					M_buf_add_int_just(buf, mytm.hour%12==0?12:mytm.hour%12, 2);
 					break;
 				/* minutes in 2 digit format. */
 				case 'M':
-- 
2.43.0


From 54b2da878fb3ad1df2316647ac8ea198ed9b9a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:54 +0000
Subject: [PATCH 46/57] fix: local time in a zone without daylight saving has
 the zone's abbreviation

---
 base/time/m_time_tz_rule.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index a679ec0..3b2abc2 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -233,6 +233,9 @@ static M_time_t M_time_tz_rule_adjust_tolocal(const void *data, M_time_t gmt, M_
 
 	/* No DST rules apply */
 	if (M_time_tz_dst_rules_len(rtz->adjusts) == 0) {
+		if (abbr) {
+			*abbr = rtz->abbr;
+		}
 		return rtz->offset;
 	}
 
-- 
2.43.0


From a94d1ae221f8af6637272bb2034d105ff3ea8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 47/57] fix: JSON values not separated by a comma are an error

---
 formats/json/m_json_reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index c729efa..2dce9c9 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -207,7 +207,7 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 			return NULL;
 		}
 
-		if (!M_parser_peek_byte(parser, &c) && c != ',' && c != '}') {
+		if (M_parser_peek_byte(parser, &c) && c != ',' && c != '}') {
 			M_json_node_destroy(node);
 			*error = M_JSON_ERROR_OBJECT_UNEXPECTED_CHAR;
 			return NULL;
@@ -284,7 +284,7 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 			return NULL;
 		}
 
-		if (!M_parser_peek_byte(parser, &c) && c != ',' && c != ']') {
+		if (M_parser_peek_byte(parser, &c) && c != ',' && c != ']') {
 			M_json_node_destroy(node);
 			*error = M_JSON_ERROR_ARRAY_UNEXPECTED_CHAR;
 			return NULL;
-- 
2.43.0


From c2bdb5f48532936b75b914568fd5d9fcfd26304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 48/57] fix: a large JSON integer written as a number has no
 closing quote

---
 formats/json/m_json_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 4c9a14f..a60879c 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -225,7 +225,7 @@ static M_bool M_json_write_node_integer(const M_json_node_t *node, M_buf_t *buf,
 
 	M_buf_add_int(buf, node->data.json_integer);
 
-	if (node->data.json_integer < JAVASCRIPT_MIN_INT || node->data.json_integer > JAVASCRIPT_MAX_INT)
+	if (!(flags & M_JSON_WRITER_NUMBER_NOCOMPAT) && (node->data.json_integer < JAVASCRIPT_MIN_INT || node->data.json_integer > JAVASCRIPT_MAX_INT))
 		M_buf_add_byte(buf, '"');
 
 	return M_TRUE;
-- 
2.43.0


From 11eb07756917078a866b25e7c9ac40b89bf68d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 49/57] fix: the keys of a JSON object are escaped when written

---
 formats/json/m_json_writer.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index a60879c..c6e598b 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -34,6 +34,7 @@ static M_int64 JAVASCRIPT_MIN_INT = -9007199254740991LL;
 static M_int64 JAVASCRIPT_MAX_INT =  9007199254740991LL;
 
 static M_bool M_json_write_node(const M_json_node_t *node, M_buf_t *buf, size_t *depth, M_uint32 flags);
+static M_bool M_json_write_string(const char *str, M_buf_t *buf, M_uint32 flags);
 
 static void M_json_write_depth(M_buf_t *buf, size_t *depth, M_uint32 flags)
 {
@@ -74,9 +75,10 @@ static M_bool M_json_write_node_object(const M_json_node_t *node, M_buf_t *buf,
 	len = M_hash_strvp_enumerate(node->data.json_object, &hashenum);
 	while (M_hash_strvp_enumerate_next(node->data.json_object, hashenum, &key, &value)) {
 		M_json_write_depth(buf, depth, flags);
-		M_buf_add_byte(buf, '"');
-		M_buf_add_str(buf, key); 
-		M_buf_add_byte(buf, '"');
+		if (!M_json_write_string(key, buf, flags)) {
+			M_hash_strvp_enumerate_free(hashenum);
+			return M_FALSE;
+		}
 
 		if (flags & (M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_TAB))
 			M_buf_add_byte(buf, ' ');
@@ -133,7 +135,7 @@ static M_bool M_json_write_node_array(const M_json_node_t *node, M_buf_t *buf, s
 	return M_TRUE;
 }
 
-static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
+static M_bool M_json_write_string(const char *str, M_buf_t *buf, M_uint32 flags)
 {
 	const char *p;
 	char        uchr[8];
@@ -142,13 +144,10 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 	size_t      len;
 	size_t      i;
 
-	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_STRING)
-		return M_FALSE;
-
 	M_buf_add_byte(buf, '"');
-	len = M_str_len(node->data.json_string);
+	len = M_str_len(str);
 	for (i=0; i<len; i++) {
-		c = node->data.json_string[i];
+		c = str[i];
 		switch (c) {
 			case '\b':
 				M_buf_add_str(buf, "\\b");
@@ -184,7 +183,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					M_snprintf(uchr, sizeof(uchr), "%04X", c);
 					M_buf_add_str(buf, uchr);
 				} else if ((unsigned char)c > 127) {
-					if (M_utf8_get_cp(node->data.json_string+i, &cp, &p) != M_UTF8_ERROR_SUCCESS) {
+					if (M_utf8_get_cp(str+i, &cp, &p) != M_UTF8_ERROR_SUCCESS) {
 						if (flags & M_JSON_WRITER_REPLACE_BAD_CHARS) {
 							M_buf_add_byte(buf, '?');
 						} else {
@@ -194,7 +193,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					}
 
 					if (flags & M_JSON_WRITER_DONT_ENCODE_UNICODE) {
-						M_buf_add_bytes(buf, node->data.json_string+i, (size_t)(p - (node->data.json_string+i)));
+						M_buf_add_bytes(buf, str+i, (size_t)(p - (str+i)));
 					} else {
 						M_buf_add_str(buf, "\\u");
 						M_snprintf(uchr, sizeof(uchr), "%04X", cp);
@@ -204,7 +203,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					 * when we come back around to the start of the loop it will
 					 * move one forward. This needs to be the byte before the next
 					 * one that will be processed. */
-					i += (size_t)(p - (node->data.json_string+i)-1);
+					i += (size_t)(p - (str+i)-1);
 				} else {
 					M_buf_add_byte(buf, (unsigned char)c);
 				}
@@ -215,6 +214,14 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 	return M_TRUE;
 }
 
+static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
+{
+	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_STRING)
+		return M_FALSE;
+
+	return M_json_write_string(node->data.json_string, buf, flags);
+}
+
 static M_bool M_json_write_node_integer(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
 {
 	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_INTEGER)
-- 
2.43.0


From 5dcbd9792fa2292c5e47977fb2450d13e3be97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 50/57] fix: a JSON object that cannot be written does not leak
 its enumeration

---
 formats/json/m_json_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index c6e598b..683a706 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -86,8 +86,10 @@ static M_bool M_json_write_node_object(const M_json_node_t *node, M_buf_t *buf,
 		if (flags & (M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_TAB))
 			M_buf_add_byte(buf, ' ');
 
-		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags))
+		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags)) {
+			M_hash_strvp_enumerate_free(hashenum);
 			return M_FALSE;
+		}
 
 		len--;
 		if (len > 0) {
-- 
2.43.0


From b04a85c820c712377202a0e97fe2e8339f8e3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 51/57] fix: JSON text outside of the basic plane is escaped as
 a surrogate pair

---
 formats/json/m_json_writer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 683a706..db847aa 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -197,6 +197,13 @@ static M_bool M_json_write_string(const char *str, M_buf_t *buf, M_uint32 flags)
 					if (flags & M_JSON_WRITER_DONT_ENCODE_UNICODE) {
 						M_buf_add_bytes(buf, str+i, (size_t)(p - (str+i)));
 					} else {
+						/* Characters outside of the BMP are written as a surrogate pair. */
+						if (cp > 0xFFFF) {
+							M_buf_add_str(buf, "\\u");
+							M_snprintf(uchr, sizeof(uchr), "%04X", 0xD800 + ((cp - 0x10000) >> 10));
+							M_buf_add_str(buf, uchr);
+							cp = 0xDC00 + ((cp - 0x10000) & 0x3FF);
+						}
 						M_buf_add_str(buf, "\\u");
 						M_snprintf(uchr, sizeof(uchr), "%04X", cp);
 						M_buf_add_str(buf, uchr);
-- 
2.43.0


From 7fafa36a6953c4f9dc13d7cb8a771858600dd0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 52/57] fix: replacing a bad JSON unicode escape does not read
 past the data

---
 formats/json/m_json_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 2dce9c9..5050f16 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -395,12 +395,13 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 					{
 						if (flags & M_JSON_READER_REPLACE_BAD_CHARS) {
 							size_t j;
+							size_t left = M_parser_len(parser);
 							/* Something isn't right. Remove the fist character because
  							 * we know it's going to be bad. Go though up to 3 more and remove them
 							 * if they're hex. We want to try to fully remove the \u escape and this
 							 * will handle if it's a bad code point or not fully 4 hex characters. */
 							M_parser_consume(parser, 1);
-							for (j=1; j<4; j++) {
+							for (j=1; j<4 && j+2<left; j++) {
 								if (M_chr_ishex((char)s[1+j])) {
 									M_parser_consume(parser, 1);
 								}
-- 
2.43.0


From fc85170939bc935b2af476c062f4045b0e0c8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 53/57] fix: a surrogate pair in JSON text is one character

---
 formats/json/m_json_reader.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 5050f16..6d8d6e3 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -316,6 +316,31 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 	return node;
 }
 
+/*! Read the code point of the \u escape (or pair of escapes when it is a surrogate pair) the parser is at.
+ * \return The number of characters that make up the escape. 0 if it's not valid.
+ */
+static size_t M_json_read_unicode_escape(M_parser_t *parser, M_uint32 *codepoint)
+{
+	const char *s   = (const char *)M_parser_peek(parser);
+	size_t      len = M_parser_len(parser);
+	M_uint32    low;
+
+	if (len < 6 || !M_str_ishex_max(s+2, 4) || M_str_to_uint32_ex(s+2, 4, 16, codepoint, NULL) != M_STR_INT_SUCCESS)
+		return 0;
+
+	if (*codepoint < 0xD800 || *codepoint > 0xDBFF)
+		return 6;
+
+	if (len < 12 || s[6] != '\\' || s[7] != 'u' || !M_str_ishex_max(s+8, 4)               ||
+		M_str_to_uint32_ex(s+8, 4, 16, &low, NULL) != M_STR_INT_SUCCESS || low < 0xDC00 || low > 0xDFFF)
+	{
+		return 0;
+	}
+
+	*codepoint = 0x10000 + ((*codepoint - 0xD800) << 10) + (low - 0xDC00);
+	return 12;
+}
+
 static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
 {
 	M_json_node_t       *node;
@@ -328,6 +353,7 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 	unsigned char        ce;
 	unsigned char        cp = 0;
 	size_t               uchr_len;
+	size_t               esc_len;
 
 	(void)flags;
 
@@ -388,9 +414,8 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 				case 'u':
 					/* Check if we have enough data, it's a hex number, and it's a valid
 					 * character we can add to the buffer. */
-					if (M_parser_len(parser) < 6                                                            ||
-						!M_str_ishex_max((const char *)s+1, 4)                                              ||
-						M_str_to_uint32_ex((const char *)s+1, 4, 16, &codepoint, NULL) != M_STR_INT_SUCCESS ||
+					esc_len = M_json_read_unicode_escape(parser, &codepoint);
+					if (esc_len == 0 ||
 						M_utf8_from_cp(uchr, sizeof(uchr), &uchr_len, codepoint) != M_UTF8_ERROR_SUCCESS)
 					{
 						if (flags & M_JSON_READER_REPLACE_BAD_CHARS) {
@@ -415,12 +440,11 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 						}
 					}
 					if (flags & M_JSON_READER_DONT_DECODE_UNICODE) {
-						M_buf_add_str(buf, "\\u");
-						M_buf_add_bytes(buf, s+1, 4);
+						M_buf_add_bytes(buf, s-1, esc_len);
 					} else {
 						M_buf_add_bytes(buf, uchr, uchr_len);
 					}
-					M_parser_consume(parser, 4);
+					M_parser_consume(parser, esc_len-2);
 					break;
 				default:
 					M_buf_cancel(buf);
-- 
2.43.0


From 0774f06f55866078369ece24728cd606b24c0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:17 +0000
Subject: [PATCH 54/57] fix: a JSON member that cannot be added to its object
 does not leak

---
 formats/json/m_json_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 6d8d6e3..faf5310 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -198,7 +198,8 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 		}
 
 		/* Add the value to the hashtable. */
-		M_json_object_insert(node, M_json_get_string(key_node), val_node);
+		if (!M_json_object_insert(node, M_json_get_string(key_node), val_node))
+			M_json_node_destroy(val_node);
 		M_json_node_destroy(key_node);
 
 		/* Check for a member separator and advance if necessary */
-- 
2.43.0


From ce4ca401872d28a57f9eea9f6b2662106571a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:16 +0000
Subject: [PATCH 55/57] fix: reading a decimal stays within the length given

---
 base/math/m_decimal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 9104b4f..a91145d 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -761,7 +761,7 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 	M_decimal_reduce(val);
 
 	/* Handle the exponent/sci notation, e.g.   1.24e-2 == 0.0124 */
-	if (end != NULL && string + len + 1 > end && M_chr_tolower(*end) == 'e') {
+	if (end != NULL && string + len > end && M_chr_tolower(*end) == 'e') {
 		M_decimal_t           multiplier;
 		enum M_DECIMAL_RETVAL exprv;
 
-- 
2.43.0


From 9c008d998a11744aa899036c883363d4d3067336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 56/57] fix: a JSON unicode escape is four hex digits, none of
 them NUL

---
 formats/json/m_json_reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index faf5310..ff803b9 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -326,13 +326,13 @@ static size_t M_json_read_unicode_escape(M_parser_t *parser, M_uint32 *codepoint
 	size_t      len = M_parser_len(parser);
 	M_uint32    low;
 
-	if (len < 6 || !M_str_ishex_max(s+2, 4) || M_str_to_uint32_ex(s+2, 4, 16, codepoint, NULL) != M_STR_INT_SUCCESS)
+	if (len < 6 || M_mem_chr(s+2, 0, 4) != NULL || !M_str_ishex_max(s+2, 4) || M_str_to_uint32_ex(s+2, 4, 16, codepoint, NULL) != M_STR_INT_SUCCESS)
 		return 0;
 
 	if (*codepoint < 0xD800 || *codepoint > 0xDBFF)
 		return 6;
 
-	if (len < 12 || s[6] != '\\' || s[7] != 'u' || !M_str_ishex_max(s+8, 4)               ||
+	if (len < 12 || s[6] != '\\' || s[7] != 'u' || M_mem_chr(s+8, 0, 4) != NULL || !M_str_ishex_max(s+8, 4) ||
 		M_str_to_uint32_ex(s+8, 4, 16, &low, NULL) != M_STR_INT_SUCCESS || low < 0xDC00 || low > 0xDFFF)
 	{
 		return 0;
-- 
2.43.0


From a93b35df5efce2b041e39e723eae01261d03c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:58 +0000
Subject: [PATCH 57/57] fix: no white space or second sign inside a decimal
 number

---
 base/math/m_decimal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index a91145d..c7898ec 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -686,6 +686,10 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 
 		len_left = len - num_read;
 
+		/* Only digits may follow, no white space or sign */
+		if (len_left && !M_chr_isdigit(*ptr))
+			return M_DECIMAL_INVALID;
+
 		/* Read in a loop.  If the read causes an overflow, read one less
 		 * until it no longer overflows.  Save the original end position
 		 * though for further processing (exponents) */
@@ -768,6 +772,9 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 		ptr      = end+1;
 		num_read = (size_t)(ptr - string);
 		len_left = len - num_read;
+		if (len_left && M_chr_isspace(*ptr))
+			return M_DECIMAL_INVALID;
+
 		intrv    = M_str_to_int64_ex(ptr, len_left, 10, &num, &end);
 		switch (intrv) {
 			case M_STR_INT_OVERFLOW:
-- 
2.43.0

