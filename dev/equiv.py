#!/usr/bin/env python3
"""Behaviour-preserving edits: every check must stay quiet on them.  equiv.py [name ...]"""
import sys, subprocess, os, shutil, time, re
R = []
def edit(name, props, file, *pairs): R.append((name, props.split(), file, pairs))

edit('contains_memchr', 'S03 S05', 'strview.c', ("""	bool found = false;
	const char* ptr = str.data;

	while(!found && ptr != &str.data[str.size])
	{
		found = *ptr == c;
		ptr++;
	};

	return found;
""", """	return str.size && memchr(str.data, c, (size_t)str.size) != NULL;
"""))
edit('contains_for', 'S03 S05 S01', 'strview.c', ("""	bool found = false;
	const char* ptr = str.data;

	while(!found && ptr != &str.data[str.size])
	{
		found = *ptr == c;
		ptr++;
	};

	return found;
""", """	for(int i = 0; i < str.size; i++)
	{
		if(str.data[i] == c)
			return true;
	}
	return false;
"""))
edit('contains_renamed', 'S03', 'strview.c', (re.compile(r'\bcontains_char\b'), 'has_char'))
edit('find_last_index', 'S04 S01', 'strview.c', ("""		remaining_hay += haystack.size - needle.size;
		while((remaining_hay >= haystack.data) && !found)
		{
			found = !comp_func(remaining_hay, needle.data, needle.size);
			remaining_hay -= !found;
		};
""", """		int i = haystack.size - needle.size;
		for(; i >= 0 && !found; i--)
		{
			if(comp_func(haystack.data + i, needle.data, needle.size) == 0)
			{
				found = true;
				remaining_hay = haystack.data + i;
			}
		}
"""))
edit('find_first_break', 'S04 S01', 'strview.c', ("""		while((&haystack.data[haystack.size] - remaining_hay >= needle.size) && !found)
		{
			found = !comp_func(remaining_hay, needle.data, needle.size);
			remaining_hay += !found;
		};
""", """		const char* end = haystack.data + haystack.size;
		while(end - remaining_hay >= needle.size)
		{
			if(!comp_func(remaining_hay, needle.data, needle.size))
			{
				found = true;
				break;
			}
			++remaining_hay;
		};
"""))
edit('memcmp_nocase_for', 'S02 S01', 'strview.c', ("""	while(size-- && !result)
		result = toupper(*achar++) - toupper(*bchar++);
""", """	for(size_t i = 0; i < size && result == 0; i++)
		result = toupper(achar[i]) - toupper(bchar[i]);
"""))
edit('trim_local', 'S03 S01', 'strview.c', ("""	while(str.size && contains_char(chars_to_trim, *str.data))
	{
		str.data++;
		str.size--;
	};

	return str;
""", """	int n = 0;
	while(n < str.size && contains_char(chars_to_trim, str.data[n]))
		n++;
	str.data += n;
	str.size -= n;
	return str;
"""))
edit('trim_end_for', 'S03', 'strview.c', ("""	while(str.size && contains_char(chars_to_trim, str.data[str.size-1]))
		str.size--;

	return str;
""", """	int n = str.size;
	for(; n > 0; --n)
	{
		if(!contains_char(chars_to_trim, str.data[n-1]))
			break;
	}
	str.size = n;
	return str;
"""))
edit('split_first_helper', 'S05 S07', 'strview.c', ("""	if(strview_ptr->data && delims.data)
	{
		// try to find the delim
		while(ptr != &strview_ptr->data[strview_ptr->size] && !found)
		{
			in_quotes ^= (*ptr == '\\"') && exclude_quotes;
			found = !in_quotes && contains_char(delims, *ptr);
			ptr += !found;
		};
	};
""", """	if(strview_ptr->data && delims.data)
	{
		const char* end = strview_ptr->data + strview_ptr->size;
		for(; ptr != end; ptr++)
		{
			if(exclude_quotes && *ptr == '\\"')
				in_quotes = !in_quotes;
			if(!in_quotes && contains_char(delims, *ptr))
			{
				found = true;
				break;
			}
		}
	};
"""))
edit('split_last_index', 'S05', 'strview.c', ("""		ptr = &strview_ptr->data[strview_ptr->size-1];
		while(ptr != strview_ptr->data-1 && !found)
		{
			in_quotes ^= (*ptr == '\\"') && exclude_quotes;
			found = !in_quotes && contains_char(delims, *ptr);
			ptr -= !found;
		};
""", """		int i = strview_ptr->size;
		while(i > 0 && !found)
		{
			i--;
			if(strview_ptr->data[i] == '\\"' && exclude_quotes)
				in_quotes = !in_quotes;
			found = !in_quotes && contains_char(delims, strview_ptr->data[i]);
		};
		ptr = strview_ptr->data + i;
"""))
edit('sub_reordered', 'S06 S09', 'strview.c', ("""		if(begin <= end && begin < str.size && end >= 0)
		{
			if(begin < 0)
				begin = 0;
			if(end > str.size)
				end = str.size;

			result.size = end-begin;
			result.data = &str.data[begin];
		}
		else
			result.data = NULL;
""", """		if(begin > end || begin >= str.size || end < 0)
			return STRVIEW_INVALID;
		begin = begin < 0 ? 0 : begin;
		end = end > str.size ? str.size : end;
		result.data = str.data + begin;
		result.size = end - begin;
"""))
edit('dequote_loop', 'S09', 'strview.c', ("""	if(result.size > 1)
		quote_char = result.data[0];
	while( 	(result.size > 1)
	 && 	(quote_char == '\\"' || quote_char == '\\'')
	 && 	(result.data[0] == quote_char)
	 && 	(result.data[result.size-1] == quote_char) )
		result = strview_sub(result, 1, -1);
	return result;
""", """	if(result.size < 2)
		return result;
	quote_char = result.data[0];
	if(quote_char != '\\"' && quote_char != '\\'')
		return result;
	while(result.size > 1 && result.data[0] == quote_char && result.data[result.size-1] == quote_char)
	{
		result.data++;
		result.size -= 2;
	}
	return result;
"""))
edit('split_line_split', 'S07', 'strview.c', ("""		result = strview_split_first_delim(&src, "\\r\\n", false);
""", """		strview_t line = strview_split_first_delim(&src, "\\r\\n", false);
		result = line;
"""))
edit('to_cstr_min', 'S08 S01', 'strview.c', ("""		copy_size = (dst_size-1) < src_size ? (dst_size-1):src_size;
		memcpy(dst, str.data, copy_size);
		dst[copy_size] = 0;
""", """		copy_size = src_size;
		if(copy_size > dst_size - 1)
			copy_size = dst_size - 1;
		for(size_t i = 0; i < copy_size; i++)
			dst[i] = str.data[i];
		dst[copy_size] = '\\0';
"""))
edit('compare_rewrite', 'S02', 'strview.c', ("""	if(!result && str1.size != str2.size)
		result = str1.size > str2.size ? +1:-1;

	return result;
""", """	if(result)
		return result;
	if(str1.size == str2.size)
		return 0;
	return str1.size < str2.size ? -1 : 1;
"""))
edit('is_match_ifs', 'S02', 'strview.c', ("""	return (strview_is_valid(str1) == strview_is_valid(str2))
	 && (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
""", """	if(strview_is_valid(str1) != strview_is_valid(str2))
		return false;
	if(str1.size != str2.size)
		return false;
	for(int i = 0; i < str1.size; i++)
		if(str1.data[i] != str2.data[i])
			return false;
	return true;
"""))
edit('split_index_clamp', 'S06 S01', 'strview.c', ("""	if(neg)
		index = strview_ptr->size + index;
		
	if(index < 0)
		index = 0;
	if(index > strview_ptr->size)
		index = strview_ptr->size;
""", """	int size = strview_ptr->size;
	if(neg)
		index += size;
	index = index < 0 ? 0 : (index > size ? size : index);
"""))
edit('split_all_for', 'S05 S01', 'strview.c', ("""	int count = 0;
	while(strview_is_valid(src) && count < dst_size)
		dst[count++] = strview_split_first_delim(&src, delims, exclude_quotes);
	return count;
""", """	int count;
	for(count = 0; count < dst_size; count++)
	{
		if(!strview_is_valid(src))
			break;
		dst[count] = strview_split_first_delim(&src, delims, exclude_quotes);
	}
	return count;
"""))
try: exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'equiv2.py')).read())
except FileNotFoundError: pass

def main():
    bad = 0
    for name, props, file, pairs in R:
        if len(sys.argv) > 1 and not any(a in name for a in sys.argv[1:]): continue
        d = '/tmp/eq-%d-%s' % (os.getpid(), name)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('_build', '.git'))
        p = d + '/' + file; t = open(p).read()
        for old, new in pairs:
            if isinstance(old, str):
                assert old in t, (name, old)
                t = t.replace(old, new, 1)
            else: t = old.sub(new, t)
        open(p, 'w', newline='\r\n' if b'\r\n' in open(p, 'rb').read() else '\n').write(t)
        r = subprocess.run(['gcc', '-fsyntax-only', '-w', '-std=gnu99', '-I' + d, '-I' + d + '/test', '-DSTRBUF_PROVIDE_PRINTF', '-DSTRBUF_PROVIDE_PRNF', '-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB', p], capture_output=True, text=True)
        if r.returncode: print(name, 'DOES NOT COMPILE', r.stderr)
        for pr in props:
            t0 = time.time()
            r = subprocess.run(['python3-vt', os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'check.py'), pr, '--repo', d], capture_output=True, text=True)
            print('%-22s %s %s %.1fs' % (name, pr, 'quiet' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode, time.time() - t0), flush=True)
            if r.returncode: bad += 1; print(r.stdout[-1500:], r.stderr[-800:], flush=True)
        shutil.rmtree(d)
    print('alarms:', bad)
main()
