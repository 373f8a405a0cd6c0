HEAD = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <sys/mman.h>
#include "strview.h"
#include "strbuf.h"
#include "strnum.h"
#define CHECK(c) do { if(!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while(0)
static char* at_page_end(const char* s, size_t n) { char* p = mmap(0, 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, 4096, PROT_NONE); memcpy(p + 4096 - n, s, n); return p + 4096 - n; }
#define V(p, n) ((strview_t){.data = (p), .size = (n)})
'''
seed('s01-overread-last-line', 'S01', 'strview.c', ("""		strview_ptr->size--;
		if(strview_ptr->size)	//only point to the character after the delim if there is one
			strview_ptr->data++;""", """		strview_ptr->size--;
		strview_ptr->data++;	//skip the delim"""), HEAD + r'''
int main(void) { char* p = at_page_end("abc\n", 4); strview_t s = V(p, 4); strview_t l = strview_split_line(&s, NULL); CHECK(l.size == 3); return 0; }
''', 'a line ending as the very last character of the memory the source views; split_line then looks at the character after it', 'reads one byte beyond the viewed memory (the remainder points past the end; split_line looks at its first character)')
seed('s02-compare-embedded-zero', 'S02', 'strview.c', ("""		result = memcmp(str1.data, str2.data, compare_size);

	if(!result &&""", """		result = strncmp(str1.data, str2.data, compare_size);

	if(!result &&"""), HEAD + r'''
int main(void) { CHECK(strview_compare(V("a\0b", 3), V("a\0c", 3)) < 0); CHECK(strview_compare(V("a\0d", 3), V("a\0c", 3)) > 0); return 0; }
''', 'two views of equal size that differ only after an embedded zero byte', 'compare reports them as equal')
seed('s03-nul-not-trimmed', 'S03', 'strview.c', ("""	while(str.size && contains_char(chars_to_trim, str.data[str.size-1]))
		str.size--;
""", """	while(str.size && str.data[str.size-1] && contains_char(chars_to_trim, str.data[str.size-1]))
		str.size--;
"""), HEAD + r'''
int main(void) { strview_t r = strview_trim_end(V("ab \0", 4), V(" \0", 2)); CHECK(r.size == 2); r = strview_trim(V("\0ab\0", 4), V(" \0", 2)); CHECK(r.size == 2); return 0; }
''', 'a set of characters that contains the zero byte, and a source ending with it', 'zero bytes at the end are not trimmed although listed')
seed('s04-find-first-skip', 'S04', 'strview.c', ("""			remaining_hay += !found;
		};
	};

	if(found)
	{
		result.data = remaining_hay;
		result.size = needle.size;
	};

	return result;
}

static strview_t find_last(""", """			if(!found)
			{
				// nothing can start inside the part that already matched
				int matched = 0;
				while(matched < needle.size && !comp_func(remaining_hay + matched, needle.data + matched, 1))
					matched++;
				remaining_hay += matched ? matched : 1;
			};
		};
	};

	if(found)
	{
		result.data = remaining_hay;
		result.size = needle.size;
	};

	return result;
}

static strview_t find_last("""), HEAD + r'''
int main(void) { strview_t h = cstr("aaab"); strview_t r = strview_find_first(h, cstr("aab")); CHECK(r.data == h.data + 1); h = cstr("xABABC"); r = strview_find_first_nocase(h, cstr("abc")); CHECK(r.data == h.data + 3); return 0; }
''', 'a needle whose occurrence overlaps an earlier partial match of itself (aab in aaab)', 'the occurrence is skipped')
seed('s05-quote-as-delimiter', 'S05', 'strview.c', ("""			in_quotes ^= (*ptr == '\\"') && exclude_quotes;
			found = !in_quotes && contains_char(delims, *ptr);
			ptr -= !found;""", """			found = !in_quotes && contains_char(delims, *ptr);
			in_quotes ^= (*ptr == '\\"') && exclude_quotes;
			ptr -= !found;"""), HEAD + r'''
int main(void) { strview_t s = cstr("ab\"cd"); const char* d = s.data; strview_t r = strview_split_last_delim(&s, "\"", true); CHECK(r.data == d && r.size == 5 && !s.data); return 0; }
''', 'splitting at the last delimiter with quotes excluded, the quote itself being one of the delimiters', 'the closing quote is taken as a delimiter outside quotes')
seed('s06-sub-at-the-end', 'S06', 'strview.c', ("		if(begin <= end && begin < str.size && end >= 0)", "		if(begin <= end && begin <= str.size && end >= 0)"), HEAD + r'''
int main(void) { strview_t r = strview_sub(cstr("hello"), 5, 7); CHECK(!strview_is_valid(r)); return 0; }
''', 'a begin index equal to the size', 'an empty view is returned instead of an invalid one')
seed('s07-lf-cr-across-reads', 'S07', 'strview.c', ("""			if(*eol + src.data[0] == '\\r'+'\\n')
				strview_pop_first_char(&src);""", """			if(src.data[0] == '\\n')
				strview_pop_first_char(&src);"""), HEAD + r'''
int main(void) { char e = 0; strview_t s = cstr("a\n"); strview_t l = strview_split_line(&s, &e); CHECK(l.size == 1 && e == '\n'); s = cstr("\nb\n"); l = strview_split_line(&s, &e); CHECK(strview_is_valid(l) && l.size == 0); return 0; }
''', 'two calls: the first line ends with a line feed at the end of the data, the next data start with another line feed (an empty line)', 'the empty line is lost')
seed('s08-terminator-outside', 'S08', 'strview.c', ("""(dst_size-1) < src_size ? (dst_size-1):src_size;""", """dst_size < src_size ? (dst_size-1):src_size;"""), HEAD + r'''
int main(void) { char b[8] = "zzzzzzz"; strview_to_cstr(b, 4, V("abcd", 4)); CHECK(b[3] == 0 && b[4] == 'z'); return 0; }
''', 'a destination exactly as long as the text', 'the terminator is written one byte beyond the destination')
seed('s09-odd-run-of-quotes', 'S09', 'strview.c', ('''	while( 	(result.size > 1)
	 && 	(quote_char == '\\"' || quote_char == '\\'')
	 && 	(result.data[0] == quote_char)
	 && 	(result.data[result.size-1] == quote_char) )
		result = strview_sub(result, 1, -1);
	return result;''', '''	if(result.size > 1 && (quote_char == '\\"' || quote_char == '\\''))
	{
		int n = 0;
		while(2*n < src.size && src.data[n] == quote_char && src.data[src.size-1-n] == quote_char)
			n++;
		if(n)
			result = strview_sub(src, n, src.size-n);
	};
	return result;'''), HEAD + r'''
int main(void) { strview_t r = strview_dequote(cstr("\x27\x27\x27")); CHECK(strview_is_valid(r) && r.size == 1); return 0; }
''', 'a text of an odd number (three or more) of quotes only', 'the middle quote is counted for both ends and the result is invalid')
