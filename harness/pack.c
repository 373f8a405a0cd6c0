/* the packing and unpacking macros of strbuf_pack.h and strview_unpack.h, each as a function */
#include <limits.h>
#include "strbuf_pack.h"
#include "strview_unpack.h"

#define EACH(X) X(uint8_t, u8) X(int8_t, i8) X(uint16_t, u16) X(int16_t, i16) X(uint32_t, u32) X(int32_t, i32) X(uint64_t, u64) X(int64_t, i64)

#define DEFINE(type, name) \
void pack_le_##name(strbuf_t** dst, type src) { STRBUF_PACK_LE(dst, src); } \
void pack_be_##name(strbuf_t** dst, type src) { STRBUF_PACK_BE(dst, src); } \
void unpack_le_##name(type* dst, strview_t* view) { STRVIEW_UNPACK_LE(*dst, *view); } \
void unpack_be_##name(type* dst, strview_t* view) { STRVIEW_UNPACK_BE(*dst, *view); } \
type conv_pack_le_##name(type x) { return xendian_pack_LE(x); } \
type conv_pack_be_##name(type x) { return xendian_pack_BE(x); } \
type conv_unpack_le_##name(type x) { return xendian_unpack_LE(x); } \
type conv_unpack_be_##name(type x) { return xendian_unpack_BE(x); }
EACH(DEFINE)

/* the names of a caller's variables do not matter */
#define NAMED(type, name) \
void pack_le_tmp_##name(strbuf_t** x, type tmp) { STRBUF_PACK_LE(x, tmp); } \
void pack_be_tmp_##name(strbuf_t** x, type tmp) { STRBUF_PACK_BE(x, tmp); }
EACH(NAMED)
