NH = HEAD + r'''
#include <math.h>
#include <errno.h>
#define S(s) ((strview_t){.data = (s), .size = (int)sizeof(s) - 1})
'''
seed('n01-hex-lost-top-digit', 'N01', 'strnum.c', ("return !(i & (0x0Full << (sizeof(unsigned long long)*8-4)));", "return !(i & (0x0Dull << (sizeof(unsigned long long)*8-4)));"), NH + r'''
int main(void) { strview_t s = S("0x2000000000000000F"); unsigned long long v = 7; CHECK(strnum_consume_ullong(&v, &s, 0) == ERANGE); CHECK(v == 7); return 0; }
''', 'seventeen hexadecimal digits of which the first is 2', 'the value is silently reduced modulo 2^64 instead of a range error')
seed('n01-i64-minimum', 'N01', 'strnum.c', ("int err = consume_signed(&v, &src, options, INT64_MIN, INT64_MAX);", "int err = consume_signed(&v, &src, options, -INT64_MAX, INT64_MAX);"), NH + r'''
int main(void) { CHECK(strnum_i64(S("-9223372036854775808"), 3, 0) == INT64_MIN); return 0; }
''', 'the most negative 64-bit number and the fixed-width conversion', 'a representable number is refused')
seed('n02-colon-digit', 'N02', 'strnum.c', ("while(str->size && isdigit(str->data[0]) && !err)", "while(str->size && (str->data[0] & 0xF0) == 0x30 && !err)"), NH + r'''
int main(void) { strview_t s = S("1844674407370955152:30"); unsigned long long v = 7; CHECK(strnum_consume_ullong(&v, &s, 0) == 0); CHECK(v == 1844674407370955152ull); CHECK(s.size == 3); return 0; }
''', 'at least nineteen digits followed by one of the six characters after 9', 'a character that is no digit is consumed as one')
seed('n02-tab-before-unsigned', 'N02', 'strnum.c', ("""		num = strview_trim_start(num, " ");

	//consume base prefix and digits""", """		num = strview_trim_start(num, " \\t");

	//consume base prefix and digits"""), NH + r'''
int main(void) { strview_t s = S(" \t5"); unsigned v = 7; CHECK(strnum_consume_uint(&v, &s, 0) == EINVAL); CHECK(v == 7 && s.size == 3); return 0; }
''', 'an unsigned conversion of a number after a tab', 'text outside the grammar is accepted')
seed('n02-prefix-in-forced-binary', 'N02', 'strnum.c', ("else if(!(options & STRNUM_BASE_BIN) && strview_is_match_nocase", "else if((!(options & STRNUM_BASE_BIN) || (options & STRNUM_NOSIGN)) && strview_is_match_nocase"), NH + r'''
int main(void) { strview_t s = S("0x1f"); int v = 7; CHECK(strnum_consume_int(&v, &s, STRNUM_BASE_BIN | STRNUM_NOSIGN) == 0); CHECK(v == 0 && s.size == 3); return 0; }
''', 'forced binary together with no sign, and a hexadecimal prefix', 'a prefix of another base than the forced one is accepted')
seed('n03-ldouble-default', 'N03', 'strnum.c', ("""	long double v;
	int err = strnum_value(&v, &src, options);
	return err ? dfault : v;""", """	long double v = dfault;
	int err = strnum_value(&v, &src, options);
	return err == ERANGE ? (long double)INFINITY : v;"""), NH + r'''
int main(void) { CHECK(strnum_ldouble(S("1e9999"), 5, 0) == 5); return 0; }
''', 'a decimal number beyond the range of long double', 'infinity instead of the default')
seed('n03-uchar-range-store', 'N03', 'strnum.c', ("""	err = consume_unsigned(&val, src, options, UCHAR_MAX);
	if(!err && dst)
		*dst = (unsigned char)val;""", """	err = consume_unsigned(&val, src, options, ULLONG_MAX);
	if(!err && val > UCHAR_MAX)
		err = ERANGE;
	if(!err && dst)
		*dst = (unsigned char)val;"""), NH + r'''
int main(void) { strview_t s = S("256x"); unsigned char v = 7; CHECK(strnum_consume_uchar(&v, &s, 0) == ERANGE); CHECK(v == 7); CHECK(s.size == 4); return 0; }
''', 'a number beyond the range of unsigned char', 'the source is consumed although an error is reported')
seed('n04-exponent-prefix', 'N04', 'strnum.c', ("STRNUM_NOSPACE | STRNUM_NOBX);", "STRNUM_NOSPACE);"), NH + r'''
int main(void) { strview_t s = S("5e0x1"); double v = 7; CHECK(strnum_consume_double(&v, &s, 0) == 0); CHECK(v == 5 && s.size == 2); return 0; }
''', 'an exponent that starts with 0x or 0b', 'the exponent is read in another base')
seed('n04-exponent-range-ignored', 'N04', 'strnum.c', ("else if(err == EINVAL)\n		err = 0;", "else if(err != ENOMEM)\n		err = 0;"), NH + r'''
int main(void) { strview_t s = S("5e99999999999"); double v = 7; CHECK(strnum_consume_double(&v, &s, 0) == ERANGE); CHECK(v == 7 && s.size == 13); return 0; }
''', 'an exponent that does not fit an int', 'the exponent is left unconsumed instead of a range error')
seed('n04-special-without-number', 'N04', 'strnum.c', ("if(!strview_is_valid(fc->integral_view) && !strview_is_valid(fc->fractional_view))", "if(!strview_is_valid(fc->integral_view) && !strview_is_valid(fc->fractional_view) && fc->num.size)"), NH + r'''
int main(void) { strview_t s = S("-."); double v = 7; CHECK(strnum_consume_double(&v, &s, 0) == EINVAL); CHECK(v == 7); return 0; }
''', 'a text that ends after the sign or the point without any digit', 'text without a number is accepted as zero')
seed('n05-second-fraction-chunk', 'N05', 'strnum.c', ("		fractional_power -= fractional_digits.size;								\\\n", "		fractional_power = -fractional_digits.size;								\\\n"), NH + r'''
int main(void) { strview_t s = S("0.000000000000000000012345678901234567890123"); double v = 7; CHECK(strnum_consume_double(&v, &s, 0) == 0); CHECK(v > 1.2345678e-20 && v < 1.2345679e-20); s = S("0.1999999999999999999999999999999999999999"); CHECK(strnum_consume_double(&v, &s, 0) == 0); CHECK(v < 0.2000001); return 0; }
''', 'more digits after the point than one chunk of the accumulator takes', 'later chunks are scaled by too large a power')
seed('n05-trim-before-point', 'N05', 'strnum.c', ("	while(integral_digits.size)													\\\n", "	if(integral_digits.size > 40)												\\\n		integral_digits = strview_trim_end(integral_digits, \"0\");				\\\n	while(integral_digits.size)													\\\n"), NH + r'''
int main(void) { strview_t s = S("1000000000000000000000000000000000000000000"); double v = 7; CHECK(strnum_consume_double(&v, &s, 0) == 0); CHECK(v > 1e41); return 0; }
''', 'more than forty integer digits of which the last are zero', 'the value is too small by powers of ten')
XF = "-Iaccessories/strbuf_crypt -Iaccessories/strbuf_crypt/aes"
XS = "strview.c strbuf.c test/prnf.c accessories/strbuf_crypt/strbuf_crypt.c $(ls accessories/strbuf_crypt/aes/*.c)"
PK = NH + '#include <stdint.h>\n#include "strbuf_pack.h"\n#include "strview_unpack.h"\n'
seed('x01-swap16-sign', 'X01', 'accessories/xendian.h', ("""	union xendian_pack16_union in, out;

	in.word16 = x;
	out.bytes[0] = in.bytes[1];
	out.bytes[1] = in.bytes[0];
	return out.word16;""", """	return (int16_t)((x << 8) | (x >> 8));"""), PK + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(10, NULL); uint16_t x = 0x8001; STRBUF_PACK_BE(&b, x); CHECK(b->size == 2 && b->cstr[0] == (char)0x80 && b->cstr[1] == 1); return 0; }
''', 'a value with the top bit of a pair of bytes set', 'the byte of the sign overwrites the other byte')
seed('x01-unpack-last-byte', 'X01', 'accessories/strview_unpack.h', ("""		(dst) = xendian_unpack_BE(dst);						\\
		(view) = strview_sub((view), sizeof(dst), INT_MAX);	\\""", """		(dst) = xendian_unpack_BE(dst);						\\
		(view) = strview_sub((view), sizeof(dst), 255);	\\"""), PK + r'''
int main(void) { char t[300]; memset(t, 3, sizeof t); strview_t v = V(t, 300); int32_t x; STRVIEW_UNPACK_BE(x, v); CHECK(x == 0x03030303); CHECK(v.size == 296); return 0; }
''', 'a view of more than 255 bytes', 'the end of the view is lost')
seed('x01-swap64-halves-sign', 'X01', 'accessories/xendian.h', ("""	int64_t:	(xendian_swap64(a))	)""", """	int64_t:	(((int64_t)xendian_swap32((int32_t)(a)) << 32) | xendian_swap32((int32_t)((uint64_t)(a) >> 32)))	)"""), PK + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(10, NULL); int64_t x = 0x01020384050607ffll; x = 0x0102038405060708ll; STRBUF_PACK_BE(&b, x); CHECK(b->size == 8 && !memcmp(b->cstr, "\1\2\3\x84\5\6\7\10", 8)); b = strbuf_create_empty(10, NULL); x = 0x0102038485060708ll; x = 0x01020384050607ffll; STRBUF_PACK_BE(&b, x); CHECK(!memcmp(b->cstr, "\1\2\3\x84\5\6\7\xff", 8)); return 0; }
''', 'a signed 64-bit value whose fourth byte has its top bit set', 'half of the packed bytes become 0xFF')
seed('x02-last-round-key', 'X02', 'accessories/strbuf_crypt/aes/aes_keyschedule.c', ("if(nk == 8 && i % 8 == 4){", "if(nk == 8 && i % 8 == 4 && i < hi - 8){"), NH + r'''
#include <stdint.h>
#include "aes/aes.h"
#include "aes/aes256_enc.h"
int main(void) { uint8_t k[32], b[16]; static const uint8_t want[16] = {0x8e,0xa2,0xb7,0xca,0x51,0x67,0x45,0xbf,0xea,0xfc,0x49,0x90,0x4b,0x49,0x60,0x89}; aes256_ctx_t c; int i;
 for(i = 0; i < 32; i++) k[i] = i;
 for(i = 0; i < 16; i++) b[i] = i * 17;
 aes256_init(k, &c); aes256_enc(b, &c); CHECK(!memcmp(b, want, 16)); return 0; }
''', 'comparison with another AES implementation (decryption still inverts encryption)', 'the last round key is not that of AES-256', srcs=XS, flags=XF)
CR = NH + ALLOC + r'''
#include <stdint.h>
strview_t strbuf_encrypt(strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16]);
strview_t strbuf_decrypt(strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16]);
static uint8_t K[32] = {1,2,3}, I[16] = {4,5,6};
'''
seed('x03-iv-as-scratch', 'X03', 'accessories/strbuf_crypt/strbuf_crypt.c', [("	uint8_t (*this_xor)[AES_BLOCK_SIZE] = &buf1;", "	uint8_t (*this_xor)[AES_BLOCK_SIZE] = (void*)ivec;"), ("	memcpy(this_xor, ivec, AES_BLOCK_SIZE);\n", ""), ("	uint8_t buf1[AES_BLOCK_SIZE];\n", "")], CR + r'''
int main(void) { uint8_t iv[16]; strbuf_t* b = strbuf_create_empty(100, NULL); memcpy(iv, I, 16); strbuf_assign(&b, S("a text of more than one block")); strbuf_encrypt(&b, K, iv); CHECK(!memcmp(iv, I, 16)); strbuf_decrypt(&b, K, iv); CHECK(!memcmp(iv, I, 16)); CHECK(!strcmp(b->cstr, "a text of more than one block")); return 0; }
''', 'decrypting at least two blocks and using the vector again', 'the vector is overwritten with cipher text', srcs=XS, flags=XF)
seed('x03-full-block-not-reserved', 'X03', 'accessories/strbuf_crypt/strbuf_crypt.c', ("""	int block_count = content_size/AES_BLOCK_SIZE + 1;
	return block_count""", """	int block_count = (content_size + AES_BLOCK_SIZE-1)/AES_BLOCK_SIZE;
	return block_count"""), CR + r'''
int main(void) { char g[64 + 16] __attribute__((aligned(8))); strbuf_t* b; memset(g, 0x55, sizeof g); b = strbuf_create_fixed(g, sizeof(strbuf_t) + 17); strbuf_assign(&b, S("0123456789abcdef")); CHECK(b->capacity < 32); strbuf_encrypt(&b, K, I); CHECK(b->size == 0); for(int i = sizeof(strbuf_t) + 17; i < sizeof g; i++) CHECK(g[i] == 0x55); return 0; }
''', 'content of a multiple of 16 bytes in a buffer without space for one more block', 'writes a block beyond the end of the buffer', srcs=XS, flags=XF)
seed('x03-context-leak', 'X03', 'accessories/strbuf_crypt/strbuf_crypt.c', ("			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);", "			if(buf->size || fptr == enc256cbc)\n				buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);"), CR + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(40, &AL); strview_t v = strbuf_decrypt(&b, K, I); CHECK(!strview_is_valid(v) && b->size == 0); CHECK(live == 1); return 0; }
''', 'decrypting an empty dynamic buffer', 'the key schedule is never released', srcs=XS, flags=XF)
seed('x03-counter-byte', 'X03', 'accessories/strbuf_crypt/strbuf_crypt.c', [("	int block_count = len/AES_BLOCK_SIZE;\n	int out_len;", "	uint8_t block_count = len/AES_BLOCK_SIZE;\n	int out_len;")], CR + r'''
int main(void) { static char t[5000]; memset(t, 'x', sizeof t); strbuf_t* b = strbuf_create_empty(0, NULL); strbuf_assign(&b, V(t, 4090)); strbuf_encrypt(&b, K, I); strbuf_decrypt(&b, K, I); CHECK(b->size == 4090 && !memcmp(b->cstr, t, 4090)); return 0; }
''', 'content of 4080 bytes or more', 'most blocks stay encrypted', srcs=XS, flags=XF)
