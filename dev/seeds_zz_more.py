seed('s02-nocase-length', 'S02', 'strview.c', ("		result = (str1.size >= str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str2.size));", "		result = (str1.size >= str2.size || str1.data == str2.data) && !memcmp_nocase(str1.data, str2.data, str1.size < str2.size ? str1.size : str2.size);"), HEAD + r'''
int main(void) { const char* p = "abcdef"; CHECK(!strview_starts_with_nocase_strview(V(p, 2), V(p, 4))); CHECK(strview_starts_with_nocase_strview(V(p, 4), V("AB", 2))); return 0; }
''', 'a prefix that is longer than the view but begins at the same address', 'a shorter view is said to start with a longer one')
seed('s04-find-last-empty-view', 'S04', 'strview.c', ("		while((remaining_hay >= haystack.data) && !found)", "		while((remaining_hay > haystack.data || needle.size == haystack.size) && remaining_hay >= haystack.data && !found)"), HEAD + r'''
int main(void) { const char* p = "xyab"; strview_t f = strview_find_last_strview(V(p, 4), V("xy", 2)); CHECK(strview_is_valid(f) && f.data == p); return 0; }
''', 'a last occurrence that is the only one, at the very start of a longer view', 'the occurrence is not found')
seed('s05-last-delim-quotes-flag', 'S05', 'strview.c', ("	if(strview_ptr->data && strview_ptr->size && delims.data)\n", "	if(strview_ptr->data && strview_ptr->size > (exclude_quotes ? 1 : 0) && delims.data)\n"), HEAD + r'''
int main(void) { const char* p = ","; strview_t s = V(p, 1); strview_t r = strview_split_last_delim(&s, ",", true); CHECK(strview_is_valid(s) && s.size == 0 && r.size == 0); return 0; }
''', 'a view that is just one delimiter, split from the end with quotes excluded', 'the delimiter is not taken as one')
seed('s06-split-right-outside', 'S06', 'strview.c', ("		if(src.data <= split_point && split_point <= &src.data[src.size])", "		if(src.data <= pos.data && pos.data <= &src.data[src.size])"), HEAD + r'''
int main(void) { const char* p = "abcdef"; strview_t s = V(p + 2, 3); strview_t r = strview_split_right(&s, V(p + 1, 2)); CHECK(s.size == 1 && r.size == 2 && r.data == p + 3);
 s = V(p + 1, 2); r = strview_split_right(&s, V(p + 2, 4)); CHECK(!strview_is_valid(r) && s.size == 2); return 0; }
''', 'a position view that starts before the view and ends inside it, or the other way round', 'the split is refused, or made at the wrong place')
seed('s07-line-ending-sum', 'S07', 'strview.c', ("			if(e + src.data[0] == '\\r'+'\\n')\n", "			if(src.size > 1 && e + src.data[0] == '\\r'+'\\n')\n"), HEAD + r'''
int main(void) { strview_t s = V("a\r\n", 3); char e = 0; strview_t l = strview_split_line(&s, &e); CHECK(l.size == 1); CHECK(s.size == 0 && e == 0); return 0; }
''', 'a two-character line ending that is the end of the source', 'its second character is left behind as an empty line')
seed('s09-empty-quotes', 'S09', 'strview.c', ("	while( 	(result.size > 1)\n", "	while( 	(result.size > 2)\n"), HEAD + r"""
int main(void) { strview_t v = strview_dequote(V("'\"\"'", 4)); CHECK(v.size == 2); v = strview_dequote(V("\"\"", 2)); CHECK(v.size == 0); v = strview_dequote(V("''''", 4)); CHECK(v.size == 0); return 0; }
""", 'a view that consists of quotes only', 'the innermost pair of quotes stays')
seed('s01-trim-read-first', 'S01', 'strview.c', ("	while(str.size && contains_char(chars_to_trim, *str.data))\n", "	while(contains_char(chars_to_trim, *str.data) && str.size)\n"), HEAD + r'''
int main(void) { char* p = at_page_end("  ", 2); strview_t s = strview_trim_start_cstr(V(p, 2), " "); CHECK(s.size == 0); return 0; }
''', 'a view whose characters are all trimmed, at the end of accessible memory', 'one character beyond the view is read')
seed('b01-size-after-shrunk-fetch', 'B01', 'strbuf.c', ("		fetch_fault = bytes_appended < 0 || bytes_appended > available_space;", "		fetch_fault = bytes_appended < 0 || bytes_appended > buf->capacity;"), HEAD + r'''
static int fill(void* d, int n, void* v) { return n + 1; }
int main(void) { strbuf_t* b = strbuf_create_empty(16, NULL); strbuf_assign(&b, V("abc", 3)); strview_t r = strbuf_append_using(&b, fill, NULL); CHECK(b->size <= b->capacity); CHECK(!strview_is_valid(r)); return 0; }
''', 'a fetch callback that claims more than the space it was given but no more than the capacity, on a buffer that is not empty', 'the size exceeds the capacity')
seed('b03-cat-failure-forgotten', 'B03', 'strbuf.c', ("		failed |= add_will_overflow_int(size_needed, str.size);\n		if(!failed)\n", "		failed = add_will_overflow_int(size_needed, str.size);\n		if(!failed)\n"), HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(16, NULL); strbuf_assign(&b, V("abc", 3)); strview_t r = strbuf_cat(&b, V("x", 1), V("y", INT_MAX), V("z", 1)); CHECK(b->size == 0); return 0; }
''', 'arguments whose sizes together exceed INT_MAX, followed by one that still fits', 'part of the result is kept instead of emptying the buffer')
seed('b04-printf-last-char', 'B04', 'strbuf.c', ("			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);", "			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + (buf->size != 0), format, vb);"), HEAD + r'''
int main(void) { strbuf_t* b = STRBUF_FIXED_CAP(4); strbuf_printf(&b, "%s", "abcd"); CHECK(b->size == 4 && !memcmp(b->cstr, "abcd", 5)); return 0; }
''', 'text that fills the capacity exactly, printed into an empty buffer', 'the last character is a terminator instead')
seed('b06-grow-shrinks', 'B06', 'strbuf.c', ("			if(min_size > (*buf_ptr)->capacity)\n", "			if(min_size > (*buf_ptr)->capacity || (min_size < (*buf_ptr)->capacity && min_size > (*buf_ptr)->size + 4096))\n"), HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(20000, NULL); strbuf_grow(&b, 10000); CHECK(b->capacity == 20000); return 0; }
''', 'growing a large, nearly empty buffer to less than its capacity', 'the capacity is reduced')
seed('b04-append-char-keeps', 'B04', 'strbuf.c', ("""		buf->cstr[buf->size] = c;
		buf->size++;
		buf->cstr[buf->size] = 0;
	}
	else
		empty_buf(buf);""", """		buf->cstr[buf->size] = c;
		buf->size++;
		buf->cstr[buf->size] = 0;
	}
	else if(c)
		empty_buf(buf);"""), HEAD + r'''
int main(void) { strbuf_t* b = STRBUF_FIXED_CAP(3); strbuf_assign(&b, V("abc", 3)); strbuf_append_char(&b, 0); CHECK(b->size == 0); return 0; }
''', 'appending a zero character to a full fixed buffer', 'the buffer keeps its content instead of being emptied')
seed('b09-fixed-capacity-wraps', 'B09', 'strbuf.c', ("			result->capacity =  capacity <= INT_MAX ? capacity:INT_MAX;", "			result->capacity =  capacity < INT_MAX + 1u ? capacity:INT_MAX + 1u;"), HEAD + r'''
int main(void) { static void* m[64]; strbuf_t* b = strbuf_create_fixed(m, (size_t)INT_MAX + 1000); CHECK(b && b->capacity == INT_MAX); return 0; }
''', 'memory larger than the largest capacity', 'the capacity becomes negative')
seed('b02-insert-negative-beyond', 'B02', 'strbuf.c', ("""	if(index < 0)
		index += buf->size;
	if(index < 0)
		index = 0;
""", """	if(index < 0)
		index += buf->size;
	if(index < 0)
		index = -index > buf->size ? buf->size : 0;
"""), HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(16, NULL); strbuf_assign(&b, V("abc", 3)); strbuf_insert_at_index_strview(&b, -100, V("x", 1)); CHECK(!strcmp(b->cstr, "xabc")); return 0; }
''', 'an index more than twice the size before the end', 'the text is inserted at the end instead of the start')
seed('b05-shrink-allocator-order', 'B05', 'strbuf.c', ("			buf = buf->allocator.allocator(&buf->allocator, buf, sizeof(strbuf_t)+new_capacity+1);\n", "			buf = buf->allocator.allocator(&buf->allocator, buf, sizeof(strbuf_t)+new_capacity+(new_capacity ? 1 : 0));\n"), HEAD + ALLOC + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(8, &AL); strbuf_shrink(&b); CHECK(b->capacity == 0); int i; for(i = 0; i < nbl && BL[i].p != (void*)b; i++); CHECK(i < nbl && BL[i].n >= sizeof(strbuf_t) + 1); return 0; }
''', 'shrinking an empty buffer', 'the memory asked for has no room for the terminator, which is then written outside it')
seed('b01-strip-terminator', 'B01', 'strbuf.c', ("""				memmove(ptr, ptr+1, count);
				buf->size--;""", """				memmove(ptr, ptr+1, count > INT_MAX / 2 ? INT_MAX / 2 : count - (count == 2));
				buf->size--;"""), HEAD + r'''
int main(void) { strbuf_t* b = strbuf_create_empty(16, NULL); strbuf_assign(&b, V("a-b", 3)); strbuf_strip_strview(&b, V("-", 1)); CHECK(b->size == 2 && b->cstr[2] == 0 && !strcmp(b->cstr, "ab")); return 0; }
''', 'the last but one character is stripped', 'the terminator is not moved with the content')
