From 659042a2f709f106cfdc62add17260d7e332b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 01/22] fix: strnum floats recognise "infinity" (was misspelt
 "infinty")

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 3a5fc3b..f78016f 100644
--- a/strnum.c
+++ b/strnum.c
@@ -514,7 +514,7 @@ static int process_float_components(float_components_t* fc)
 static float consume_float_special(float_components_t* fc)
 {
 	float value = 0.0;
-	if(strview_starts_with_nocase(fc->num, "infinty"))
+	if(strview_starts_with_nocase(fc->num, "infinity"))
 	{
 		value = INFINITY;
 		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
-- 
2.43.0


From fde55b7617273f9b1955a76799a447223b22bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 02/22] fix: strnum_consume_float() returns EINVAL for a NULL
 src, as the other types do

---
 strnum.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index f78016f..4df935c 100644
--- a/strnum.c
+++ b/strnum.c
@@ -321,10 +321,9 @@ int strnum_consume_float(float* dst, strview_t* src, int options)
 	};
 
 	if(src)
-	{
 		fc.num = *src;
-		err = process_float_components(&fc);
-	};
+
+	err = process_float_components(&fc);
 
 	// calculate/determine output value
 	if(!err && fc.special_value)
-- 
2.43.0


From d54e7b061af6d9cad0a8c449a035d7593ca4a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 03/22] fix: scale every chunk of a long integral part by its
 own number of digits

---
 strnum.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 4df935c..2d9ac55 100644
--- a/strnum.c
+++ b/strnum.c
@@ -550,11 +550,15 @@ static int consume_exponent(float_components_t* fc)
 	typ fractional_part;														\
 	unsigned long long ull;														\
 	int fractional_power = 0;													\
+	int chunk_size;																\
 	while(integral_digits.size)													\
 	{																			\
+		chunk_size = integral_digits.size;										\
 		consume_decimal_digits(&ull, &integral_digits);							\
+		chunk_size -= integral_digits.size;										\
+		if(result != 0.0)														\
+			result *= powfunc(10, chunk_size);									\
 		result += (typ)ull;														\
-		result *= powfunc(10, integral_digits.size);							\
 	};																			\
 	fractional_digits = strview_trim_end(fractional_digits, "0");				\
 	while(fractional_digits.size)												\
-- 
2.43.0


From bc3166ca2c5da398f9bd4e74246f8bc70c2333b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 04/22] fix: applying an exponent to a zero or infinite
 mantissa must not produce nan

---
 strnum.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 2d9ac55..e3cdd25 100644
--- a/strnum.c
+++ b/strnum.c
@@ -570,7 +570,8 @@ static int consume_exponent(float_components_t* fc)
 		fractional_part *= powfunc(10, fractional_power);						\
 		result += fractional_part;												\
 	};																			\
-	result *= powfunc(10, exp_value);											\
+	if(result != 0.0 && result != INFINITY)										\
+		result *= powfunc(10, exp_value);										\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
-- 
2.43.0


From ac6c145b92bcafc9d71b39d43c5b6ba9ef189983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 05/22] fix: strnum_value() with STRNUM_NOFLOAT failed to
 compile (trailing comma)

---
 strnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.h b/strnum.h
index 6c12da4..b92a97b 100644
--- a/strnum.h
+++ b/strnum.h
@@ -115,7 +115,7 @@
 		short*:					strnum_consume_short,\
 		int*:					strnum_consume_int,\
 		long*:					strnum_consume_long,\
-		long long*:				strnum_consume_llong,\
+		long long*:				strnum_consume_llong\
 		)(dst, src, opt)
 	#endif
 
-- 
2.43.0


From 53c35ae9ef0ebd9b7b549dd131ba2de1be05e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 06/22] fix: add_will_overflow_int() relied on signed overflow,
 which is undefined

---
 strbuf.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index ebce1da..446729e 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -790,9 +790,7 @@ static void empty_buf(strbuf_t* buf)
 
 static bool add_will_overflow_int(int a, int b)
 {
-	int c = a;
-	c += b;
-	return ((a < 0) == (b < 0) && (a < 0) != (c < 0));
+	return b < 0 ? a < INT_MIN - b : a > INT_MAX - b;
 }
 
 static bool view_contains_char(strview_t view, char c)
-- 
2.43.0


From 10adcf0d4443b9865e257dce53b911caa80773cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 07/22] fix: buffer_vcat() overflowed the total size it had
 just found to overflow

---
 strbuf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index 446729e..dfe57ec 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -599,7 +599,8 @@ static strview_t buffer_vcat(strbuf_t** buf_ptr, int n_args, va_list va)
 	{
 		str = va_arg(va, strview_t);
 		failed |= add_will_overflow_int(size_needed, str.size);
-		size_needed += str.size;
+		if(!failed)
+			size_needed += str.size;
 		tmp_buf_needed |= buf_contains_str(dst_buf, str);
 	};
 
-- 
2.43.0


From 6f1a3c276e5d9698269c44ee3e9755e011259b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 08/22] fix: strbuf_append_vprnf() relied on signed overflow,
 which is undefined

---
 strbuf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index dfe57ec..5424644 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -287,14 +287,15 @@ strview_t strbuf_append_vprnf(strbuf_t** buf_ptr, const char* format, va_list va
 	strbuf_t* buf;
 	strview_t str = STRVIEW_INVALID;
 	int char_count;
+	int initial_size;
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
 
-		char_count = buf->size;
-		char_count += vfptrprnf(char_handler_for_prnf, &buf,  format, va);
+		initial_size = buf->size;
+		char_count = vfptrprnf(char_handler_for_prnf, &buf,  format, va);
 
-		if(char_count > buf->size || char_count < 0)
+		if(add_will_overflow_int(initial_size, char_count) || initial_size + char_count > buf->size)
 			empty_buf(buf);
 
 		str = strbuf_view(&buf);
-- 
2.43.0


From 1faf9ad0592d6bdc0b52844f54f33ae3eddb8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 09/22] fix: strbuf_append_vprintf() took an error from
 vsnprintf() for a size

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index 5424644..facff6c 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -211,7 +211,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		size = buf->size;
 		append_size = vsnprintf(NULL, 0, format, va);
 
-		failed = add_will_overflow_int(size, append_size);
+		failed = append_size < 0 || add_will_overflow_int(size, append_size);
 		if(!failed)
 		{
 			size += append_size;
-- 
2.43.0


From c5bf334366ce519814217397d3b895c61ae83e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 10/22] fix: strbuf_append_vprintf() overflowed int for a
 capacity of INT_MAX

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index facff6c..4568ada 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -222,7 +222,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		};
 
 		if(!failed)
-			buf->size += vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);
 		else
 			empty_buf(buf);
 
-- 
2.43.0


From 88d012bb85fad6effc880339361ad7dd8e5ca94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 11/22] fix: strbuf_to_cstr() overflowed int for a size of
 INT_MAX

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index 4568ada..92721b3 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -377,7 +377,7 @@ char* strbuf_to_cstr(strbuf_t** buf_ptr)
 			allocator = (*buf_ptr)->allocator;
 			str = (void*)(*buf_ptr);
 			memmove(str, (*buf_ptr)->cstr, len);
-			str = allocator.allocator(&allocator, str, len+1);
+			str = allocator.allocator(&allocator, str, (size_t)len+1);
 		}
 		else
 			str = (*buf_ptr)->cstr;
-- 
2.43.0


From f7855a4c188f0031a14c53a86b5f063a8f80abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 12/22] fix: strview_split_line() modified the source when no
 line ending was found

---
 strview.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/strview.c b/strview.c
index 4edea19..9540fcb 100644
--- a/strview.c
+++ b/strview.c
@@ -325,11 +325,8 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 				*eol = e;
 			*strview_ptr = src;
 		}
-		else	//a line ending was not found, restore the source, and return an invalid strview_t
-		{
-			*strview_ptr = result;
+		else	//a line ending was not found, leave the source unmodified, and return an invalid strview_t
 			result = STRVIEW_INVALID;
-		};
 	};
 	return result;
 }
-- 
2.43.0


From f39f800b483b331392eed02f63ac30cff7c0fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 13/22] fix: an invalid view does not match a valid empty view

---
 strview.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 9540fcb..80be852 100644
--- a/strview.c
+++ b/strview.c
@@ -65,7 +65,8 @@ void strview_swap(strview_t* a, strview_t* b)
 
 bool strview_is_match_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
+	return (strview_is_valid(str1) == strview_is_valid(str2))
+	 && (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_cstr(strview_t str1, const char* str2)
@@ -75,7 +76,8 @@ bool strview_is_match_cstr(strview_t str1, const char* str2)
 
 bool strview_is_match_nocase_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
+	return (strview_is_valid(str1) == strview_is_valid(str2))
+	 && (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_nocase_cstr(strview_t str1, const char* str2)
-- 
2.43.0


From 2a3ee3c42eb86f6c51e5719c5a64390d50ca69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 14/22] fix: strview_dequote() removed characters which are not
 quotes

---
 strview.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strview.c b/strview.c
index 80be852..22db157 100644
--- a/strview.c
+++ b/strview.c
@@ -512,6 +512,7 @@ strview_t strview_dequote(strview_t src)
 	if(result.size > 1)
 		quote_char = result.data[0];
 	while( 	(result.size > 1)
+	 && 	(quote_char == '\"' || quote_char == '\'')
 	 && 	(result.data[0] == quote_char)
 	 && 	(result.data[result.size-1] == quote_char) )
 		result = strview_sub(result, 1, -1);
-- 
2.43.0


From 79629d0dabf3736a7a9483818b4c29be8444a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 15/22] fix: strbuf_strip() misread the characters to strip
 when they were a view of the buffer itself

---
 strbuf.c | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index 92721b3..8d83b2a 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -46,7 +46,6 @@
 	static bool buf_is_dynamic(strbuf_t* buf);
 	static void empty_buf(strbuf_t* buf);
 	static bool add_will_overflow_int(int a, int b);
-	static bool view_contains_char(strview_t view, char c);
 
 #ifdef STRBUF_PROVIDE_PRNF
 	static void char_handler_for_prnf(void* dst, char c);
@@ -526,15 +525,24 @@ strview_t strbuf_strip_strview(strbuf_t** buf_ptr, strview_t stripchars)
 	strbuf_t* buf;
 	char* ptr;
 	int count;
+	bool strip[UCHAR_MAX+1] = {false};
 
 	if(buf_ptr && *buf_ptr && strview_is_valid(stripchars))
 	{
+		// take note of the characters first, as they may be viewed within the buffer we are about to modify
+		while(stripchars.size)
+		{
+			strip[(unsigned char)*stripchars.data] = true;
+			stripchars.data++;
+			stripchars.size--;
+		};
+
 		buf = *buf_ptr;
 		count = buf->size;
 		ptr = buf->cstr;
 		while(count)
 		{
-			if(view_contains_char(stripchars, *ptr))
+			if(strip[(unsigned char)*ptr])
 			{
 				memmove(ptr, ptr+1, count);
 				buf->size--;
@@ -795,23 +803,6 @@ static bool add_will_overflow_int(int a, int b)
 	return b < 0 ? a < INT_MIN - b : a > INT_MAX - b;
 }
 
-static bool view_contains_char(strview_t view, char c)
-{
-	bool retval = false;
-
-	if(strview_is_valid(view))
-	{
-		while(!retval && view.size)
-		{
-			retval |= (*view.data == c);
-			view.data++;
-			view.size--;
-		};
-	};
-
-	return retval;
-}
-
 #ifdef STRBUF_PROVIDE_PRNF
 static void char_handler_for_prnf(void* dst, char c)
 {
-- 
2.43.0


From 307b26e48a3acc66218c8447cace2281671e2e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 16/22] fix: strbuf_encrypt() and strbuf_decrypt() never
 returned the view of the buffer

---
 accessories/strbuf_crypt/strbuf_crypt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1886074..3637aac 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -77,6 +77,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			buf->cstr[buf->size] = 0;
 		};
 		*buf_ptr = buf;	
+		retval = strbuf_view(&buf);
 	};
 
 	return retval;
-- 
2.43.0


From c67d93098092032c32ec9a138e1c71db71cb8170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 17/22] fix: strbuf_decrypt() ignored a fixed buffer which had
 no space for more padding

---
 accessories/strbuf_crypt/strbuf_crypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 3637aac..d6721ce 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -71,7 +71,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			buf->cstr[buf->size] = 0;
 		}
-		else if(buf->capacity >= cypher_size(buf->size))
+		else if(fptr == dec256cbc || buf->capacity >= cypher_size(buf->size))
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
-- 
2.43.0


From baf4a68494cea07c592febe5b955aeeeac3b8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 18/22] fix: strbuf_decrypt() of data which is not valid cypher
 text wrote outside the buffer

---
 accessories/strbuf_crypt/strbuf_crypt.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index d6721ce..1ceb02a 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -59,6 +59,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	strview_t retval = STRVIEW_INVALID;
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
+	int new_size = -1;
 
 	if(buf_ptr && *buf_ptr)
 	{
@@ -67,17 +68,17 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 		{
 			strbuf_grow(&buf, cypher_size(buf->size));
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
-			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
+			new_size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-			buf->cstr[buf->size] = 0;
 		}
 		else if(fptr == dec256cbc || buf->capacity >= cypher_size(buf->size))
-		{
-			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
-			buf->cstr[buf->size] = 0;
-		};
+			new_size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
+
+		buf->size = new_size < 0 ? 0:new_size;
+		buf->cstr[buf->size] = 0;
 		*buf_ptr = buf;	
-		retval = strbuf_view(&buf);
+		if(new_size >= 0)
+			retval = strbuf_view(&buf);
 	};
 
 	return retval;
@@ -114,12 +115,14 @@ static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 
 // decrypt buf, using 256bit key and 128bit init vector.
 // len must be a multiple of 16
-// returns the size of the decoded output in bytes
+// returns the size of the decoded output in bytes, or -1 if len or the padding is not valid
 static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx)
 {
 	int block_count = len/AES_BLOCK_SIZE;
 	int out_len;
 	int pad_len;
+	if(len <= 0 || len % AES_BLOCK_SIZE)
+		return -1;
 	uint8_t buf1[AES_BLOCK_SIZE];
 	uint8_t buf2[AES_BLOCK_SIZE];
 	uint8_t (*this_xor)[AES_BLOCK_SIZE] = &buf1;
@@ -138,6 +141,8 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 
 	pad_len = buf[-1];
 	out_len = len - pad_len;
+	if(pad_len < 1 || pad_len > AES_BLOCK_SIZE)
+		out_len = -1;
 
 	return out_len;
 }
-- 
2.43.0


From 0cb37a14bdde5f9d97d5f6da979eb1b75a58dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 19/22] fix: find_last formed a pointer before the haystack
 when the needle is longer

---
 strview.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 22db157..d949219 100644
--- a/strview.c
+++ b/strview.c
@@ -548,11 +548,12 @@ static strview_t find_last(strview_t haystack, strview_t needle, int(*comp_func)
 {
 	strview_t result = STRVIEW_INVALID;
 
-	const char* remaining_hay = &haystack.data[haystack.size - needle.size];
+	const char* remaining_hay = haystack.data;
 	bool found = false;
 
-	if(haystack.data && needle.data)
+	if(haystack.data && needle.data && needle.size <= haystack.size)
 	{
+		remaining_hay += haystack.size - needle.size;
 		while((remaining_hay >= haystack.data) && !found)
 		{
 			found = !comp_func(remaining_hay, needle.data, needle.size);
-- 
2.43.0


From aea65151cc8a7ada5e15fd86c738c139178b3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 20/22] fix: bytes 0xB0 and 0xB1 were accepted as binary digits

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index e3cdd25..3cc1dca 100644
--- a/strnum.c
+++ b/strnum.c
@@ -891,7 +891,7 @@ static int xdigit_value(char c)
 
 static bool isbdigit(char c)
 {
-	return (c & 0x7E) == 0x30;
+	return (c & 0xFE) == 0x30;
 }
 
 static strview_t split_digits(strview_t* src)
-- 
2.43.0


From 937869cb86f1830d669b15e66a4b60f2431f6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:00 +0000
Subject: [PATCH 21/22] fix: inf and nan at the end of the text left an invalid
 view instead of an empty one

---
 strnum.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index 3cc1dca..731a8bd 100644
--- a/strnum.c
+++ b/strnum.c
@@ -516,17 +516,17 @@ static float consume_float_special(float_components_t* fc)
 	if(strview_starts_with_nocase(fc->num, "infinity"))
 	{
 		value = INFINITY;
-		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
+		strview_split_index(&fc->num, strlen("infinity"));
 	}
 	else if(strview_starts_with_nocase(fc->num, "inf"))
 	{
 		value = INFINITY;
-		fc->num = strview_sub(fc->num, strlen("inf"), INT_MAX);
+		strview_split_index(&fc->num, strlen("inf"));
 	}
 	else if(strview_starts_with_nocase(fc->num, "nan"))
 	{
 		value = NAN;
-		fc->num = strview_sub(fc->num, strlen("nan"), INT_MAX);
+		strview_split_index(&fc->num, strlen("nan"));
 	};
 	return value;
 }
-- 
2.43.0


From 8b3ef3c2749a74d7bc1bc98e301f9595feb5cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:26 +0000
Subject: [PATCH 22/22] fix: packing a variable named tmp packed an
 indeterminate value

---
 accessories/strbuf_pack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_pack.h b/accessories/strbuf_pack.h
index 8e9f16b..41e6ec1 100644
--- a/accessories/strbuf_pack.h
+++ b/accessories/strbuf_pack.h
@@ -16,10 +16,10 @@
 //********************************************************************************************************
 
 //	Pack integer types little endian into buffer
-	#define STRBUF_PACK_LE(dst, src) do {typeof(src) tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_LE(dst, src) do {typeof(src) strbuf_pack_tmp_ = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&strbuf_pack_tmp_, .size=sizeof(strbuf_pack_tmp_)});}while(0)
 
 //	Pack integer types big endian into buffer
-	#define STRBUF_PACK_BE(dst, src) do {typeof(src) tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_BE(dst, src) do {typeof(src) strbuf_pack_tmp_ = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&strbuf_pack_tmp_, .size=sizeof(strbuf_pack_tmp_)});}while(0)
 
 //********************************************************************************************************
 // Public prototypes
-- 
2.43.0

