ALLOC = r'''
static struct { char* p; size_t n; } BL[64]; static int nbl, live, badthis, badptr; static char app;
static void* my_alloc(strbuf_allocator_t* self, void* old, size_t n)
{
	int i; char* q; size_t on = 0;
	if(self->app_data != &app) badthis++;
	for(i = 0; i < nbl && BL[i].p != old; i++);
	if(old && i == nbl) { badptr++; return NULL; }
	if(old) { on = BL[i].n; BL[i].p = NULL; live--; }
	if(!n) { return NULL; }
	q = malloc(n + 64); memset(q, 0xA5, n + 64);
	if(old) memcpy(q, old, on < n ? on : n);
	BL[nbl].p = q; BL[nbl++].n = n; live++;
	return q;
}
static strbuf_allocator_t AL = {.allocator = my_alloc, .app_data = &app};
'''
seed('b01-fetch-full-unterminated', 'B01', 'strbuf.c', ("""			buf->size += bytes_appended;
			buf->cstr[buf->size] = 0;""", """			buf->size += bytes_appended;
			if(buf->size < buf->capacity)
				buf->cstr[buf->size] = 0;"""), HEAD + ALLOC + r'''
static int fill(void* d, int n, void* v) { memset(d, 'x', n); return n; }
int main(void) { strbuf_t* b = strbuf_create_empty(5, &AL); strbuf_append_using(&b, fill, NULL); CHECK(b->size == 5); CHECK(b->cstr[5] == 0); return 0; }
''', 'a fetch callback that delivers exactly all the free space of a buffer whose memory was not zero there', 'the content is not followed by a terminator')
seed('b02-insert-before-empty-end', 'B02', 'strbuf.c', ("if(buf->cstr <= dst.data && dst.data <= &buf->cstr[buf->size])", "if(buf->cstr <= dst.data && dst.data < &buf->cstr[buf->size])"), HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(20, NULL); strview_t v = strbuf_assign(&b, V("abc", 3)); strbuf_insert_before_strview(&b, strview_sub(v, 3, 3), V("x", 1)); CHECK(b->size == 3 || !strcmp(b->cstr, "abcx"));
  v = strbuf_assign(&b, V("abc", 3)); strview_t e = V(b->cstr + 3, 0); strbuf_insert_before_strview(&b, e, V("x", 1)); CHECK(!strcmp(b->cstr, "abcx")); return 0; }
''', 'an insertion before an empty view that lies at the very end of the content', 'nothing is inserted')
seed('b02-insert-self-straddle', 'B02', 'strbuf.c', ("				if(move_src > str.data)\n", "				if(move_src > str.data && (index == buf->size || str.size > 1))\n"), HEAD + """
int main(void) { strbuf_t* b = strbuf_create_empty(64, NULL); strview_t v = strbuf_assign(&b, V("abcd", 4)); strbuf_insert_at_index_strview(&b, 2, strview_sub(v, 0, 1)); CHECK(!strcmp(b->cstr, "abacd"));
 return 0; }
""", 'inserting a single character of the buffer, taken from before the place, in the middle of its content', 'the character inserted is another one')
seed('b03-cat-last-char-alias', 'B03', 'strbuf.c', ("	return &buf->cstr[0] <= str.data && str.data < &buf->cstr[buf->size];", "	return &buf->cstr[0] <= str.data && &str.data[1] < &buf->cstr[buf->size];"), HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(64, NULL); strview_t v = strbuf_assign(&b, V("abcd", 4)); strbuf_cat(&b, V("zzzz", 4), strview_sub(v, 3, 4)); CHECK(!strcmp(b->cstr, "zzzzd"));
 return 0; }
''', 'an argument that is just the last character of the destination, after something at least as long as the destination', 'the result has another character')
seed('b04-printf-exact-fit', 'B04', 'strbuf.c', ("			failed = size > buf->capacity;", "			failed = buf_is_dynamic(buf) ? size > buf->capacity : size >= buf->capacity && append_size;"), HEAD + r'''
int main(void) { strbuf_t* b = STRBUF_FIXED_CAP(6); strbuf_assign(&b, V("abc", 3)); strbuf_append_printf(&b, "%s", "def"); CHECK(!strcmp(b->cstr, "abcdef")); return 0; }
''', 'formatted text that fills a fixed buffer exactly', 'a fitting result empties the fixed buffer')
seed('b05-to-cstr-clobbered-allocator', 'B05', 'strbuf.c', ("			str = allocator.allocator(&allocator, str, (size_t)len+1);", "			str = allocator.allocator(&(*buf_ptr)->allocator, str, (size_t)len+1);"), HEAD + ALLOC + r'''
int main(void) { strbuf_t* b = strbuf_create_init(V("0123456789abcdefghijklmnop", 26), &AL); char* s = strbuf_to_cstr(&b); CHECK(!strcmp(s, "0123456789abcdefghijklmnop")); CHECK(badthis == 0); return 0; }
''', 'a custom allocator with its own data and content long enough to overlap the header when it is moved to the start', 'the allocator is called with overwritten data')
seed('b05-cat-leak', 'B05', 'strbuf.c', ("		if(tmp_buf_needed && buf_is_dynamic(build_buf))\n		{", "		if(tmp_buf_needed && buf_is_dynamic(build_buf) && !size_needed)\n			empty_buf(dst_buf);\n		else if(tmp_buf_needed && buf_is_dynamic(build_buf))\n		{"), HEAD + ALLOC + r'''
int main(void) { strbuf_t* b = strbuf_create_init(V("abc", 3), &AL); strview_t v = strbuf_view(&b); strbuf_cat(&b, V(v.data + 1, 0)); CHECK(b->size == 0); CHECK(live == 1); strbuf_destroy(&b); CHECK(live == 0); return 0; }
''', 'a concatenation whose only arguments are empty views of the buffer itself', 'the temporary buffer is never freed')
seed('b06-round-up-mask', 'B06', 'strbuf.c', ("	int remainder = capacity % STRBUF_CAPACITY_GROW_STEP;", "	int remainder = STRBUF_CAPACITY_GROW_STEP < 16 ? capacity & (STRBUF_CAPACITY_GROW_STEP-1) : capacity % STRBUF_CAPACITY_GROW_STEP;"), HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(0, NULL); for(int i = 0; i < 40; i++) { strbuf_append_char(&b, 'x'); CHECK(b->capacity % 10 == 0); } return 0; }
''', 'a build with a grow step below 16 that is not a power of two', 'capacity grows to something that is not the needed size rounded up to the step', flags='-DSTRBUF_CAPACITY_GROW_STEP=10')
seed('b06-shrink-overgrown-only', 'B06', 'strbuf.c', ("			change_buf_capacity(buf_ptr, (*buf_ptr)->size);", "			change_buf_capacity(buf_ptr, (*buf_ptr)->size ? (*buf_ptr)->size : 1);"), HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(40, NULL); strbuf_shrink(&b); CHECK(b->capacity == 0); return 0; }
''', 'shrinking an empty buffer', 'capacity differs from size after shrinking')
seed('b07-format-error', 'B07', 'strbuf.c', ("		failed = append_size < 0 || add_will_overflow_int(size, append_size);", "		failed = add_will_overflow_int(size, append_size);"), HEAD + r'''
#include <wchar.h>
int main(void) { strbuf_t* b = strbuf_create_empty(40, NULL); wchar_t bad[2] = {0x7fffffff, 0}; strbuf_assign(&b, V("abc", 3)); strbuf_append_printf(&b, "%ls", bad); CHECK(b->size == 0); return 0; }
''', 'a formatter that reports an encoding error', 'the last character of the content is dropped instead of emptying the buffer')
seed('b08-strip-high-bit', 'B08', 'strbuf.c', [("			strip[(unsigned char)*stripchars.data] = true;", "			strip[*stripchars.data & CHAR_MAX] = true;"), ("			if(strip[(unsigned char)*ptr])", "			if(strip[*ptr & CHAR_MAX])")], HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(40, NULL); strbuf_assign(&b, V("a\xe1z\xe9", 4)); strbuf_strip_strview(&b, V("a", 1)); CHECK(b->size == 3); return 0; }
''', 'content with characters above 127 that equal a listed one in the low seven bits', 'characters not listed are removed')
seed('b08-strip-terminator', 'B08', 'strbuf.c', ("		buf = *buf_ptr;\n		count = buf->size;\n		ptr = buf->cstr;", "		buf = *buf_ptr;\n		if(!strip[0])\n			buf->size = strlen(buf->cstr);\n		count = buf->size;\n		ptr = buf->cstr;"), HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(40, NULL); strbuf_assign(&b, V("a\0bcb", 5)); strbuf_strip_strview(&b, V("b", 1)); CHECK(b->size == 3); CHECK(!memcmp(b->cstr, "a\0c", 3)); return 0; }
''', 'content with an embedded zero byte that is not listed', 'everything after the zero byte is dropped')
seed('b09-create-wraps', 'B09', 'strbuf.c', ("	if(allocator->allocator && initial_capacity <= INT_MAX)", "	if(allocator->allocator && (int)initial_capacity >= 0)"), HEAD + r'''
int main(void) { CHECK(strbuf_create_empty(((size_t)1 << 32) + 5, NULL) == NULL); return 0; }
''', 'a capacity above 2^32', 'a much smaller buffer is created instead of reporting null')
seed('b09-fixed-alignment', 'B09', 'strbuf.c', ("		alignment_mask = sizeof(void*)-1;", "		alignment_mask = sizeof(int)-1;"), HEAD + r'''
int main(void) { static char m[200] __attribute__((aligned(16))); CHECK(strbuf_create_fixed(m, 100)); CHECK(!strbuf_create_fixed(m + 4, 100)); return 0; }
''', 'memory aligned for int but not for pointers', 'a buffer is created in memory not aligned for its header')
seed('b10-short-write', 'B10', 'accessories/strbuf_io.c', ("			buf_view = strview_sub(buf_view, retval, INT_MAX);\n			strbuf_assign(&buf, buf_view);", "			buf_view = strview_sub(buf_view, retval, INT_MAX);\n			memcpy(buf->cstr, buf_view.data, strnlen(buf_view.data, buf_view.size));\n			buf->size -= retval;\n			buf->cstr[buf->size] = 0;"), HEAD + r'''
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include "strbuf_io.h"
int main(void) { int p[2]; CHECK(!pipe(p)); fcntl(p[1], F_SETFL, O_NONBLOCK); fcntl(p[1], F_SETPIPE_SZ, 4096); static char junk[65536];
 int n = 70000; strbuf_t* b = strbuf_create_empty(n, NULL); for(int i = 0; i < n; i++) strbuf_append_char(&b, i % 251);
 char* c = malloc(n); memcpy(c, b->cstr, n); int w = strbuf_write(p[1], &b); CHECK(w > 0 && w < n); CHECK(b->size == n - w); CHECK(!memcmp(b->cstr, c + w, n - w)); return 0; }
''', 'a short write of content that contains zero bytes', 'what remains is not the part that was not written', flags='-D_GNU_SOURCE', srcs='strview.c strbuf.c strnum.c test/prnf.c accessories/strbuf_io.c')
seed('b10-fetch-exact', 'B10', 'strbuf.c', ("		fetch_fault = bytes_appended < 0 || bytes_appended > available_space;", "		fetch_fault = bytes_appended < 0 || (bytes_appended >= available_space && bytes_appended);"), HEAD + r'''
static int fill(void* d, int n, void* v) { memset(d, 'x', n); return n; }
int main(void) { strbuf_t* b = strbuf_create_empty(5, NULL); strview_t v = strbuf_append_using(&b, fill, NULL); CHECK(v.size == 5); return 0; }
''', 'a fetch callback that fills the space completely', 'the buffer is emptied although the result is within the space')
seed('b10-view-write-error', 'B10', 'accessories/strview_io.c', ("		if(retval > 0)\n			*src = strview_sub(*src, retval, INT_MAX);", "		if(retval)\n			*src = strview_sub(*src, retval, INT_MAX);"), HEAD + r'''
#include "strview_io.h"
int main(void) { strview_t s = V("abc", 3); CHECK(strview_write(-1, &s) == -1); CHECK(s.size == 3); return 0; }
''', 'a write that fails', 'the view is advanced to its last character', srcs='strview.c strbuf.c strnum.c test/prnf.c accessories/strview_io.c')
