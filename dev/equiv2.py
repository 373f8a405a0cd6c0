# ---- strbuf
edit('round_up_div', 'B06 B03', 'strbuf.c', ("""	int remainder = capacity % STRBUF_CAPACITY_GROW_STEP;
	
	if(remainder)
	{
		if(!add_will_overflow_int(capacity, STRBUF_CAPACITY_GROW_STEP-remainder))
			capacity += STRBUF_CAPACITY_GROW_STEP-remainder;
		else
			capacity = INT_MAX;
	};

	return capacity;
""", """	int excess = capacity % STRBUF_CAPACITY_GROW_STEP;
	int missing;

	if(excess == 0)
		return capacity;
	missing = STRBUF_CAPACITY_GROW_STEP - excess;
	return capacity > INT_MAX - missing ? INT_MAX : capacity + missing;
"""))
edit('insert_early_return', 'B02 B04 B01', 'strbuf.c', ("""	failed = add_will_overflow_int(buf->size, str.size);

	if(!failed)
	{
		if(buf_is_dynamic(buf) && buf->capacity < buf->size + str.size)
			change_buf_capacity(&buf, round_up_capacity(buf->size + str.size));

		if(src_in_dst && buf != *buf_ptr)
			str.data = buf->cstr + src_offset;

		failed = buf->capacity < buf->size + str.size;
	};

	if(!failed)
	{
""", """	if(add_will_overflow_int(buf->size, str.size))
	{
		empty_buf(buf);
		return;
	}
	int total = buf->size + str.size;
	if(buf_is_dynamic(buf) && buf->capacity < total)
	{
		change_buf_capacity(&buf, round_up_capacity(total));
		*buf_ptr = buf;
		if(src_in_dst)
			str.data = buf->cstr + src_offset;
	}
	failed = buf->capacity < total;

	if(!failed)
	{
"""))
edit('insert_index_helper', 'B02', 'strbuf.c', ("""	if(index > buf->size)
		index = buf->size;
	if(index < 0)
		index += buf->size;
	if(index < 0)
		index = 0;
""", """	index = clip_index(index, buf->size);
"""), ("""static void insert_strview_into_buf(strbuf_t** buf_ptr, int index, strview_t str)
{
""", """static int clip_index(int index, int size)
{
	if(index < 0)
		index = index + size < 0 ? 0 : index + size;
	return index < size ? index : size;
}

static void insert_strview_into_buf(strbuf_t** buf_ptr, int index, strview_t str)
{
"""))
edit('insert_memmove_parts', 'B02 B03', 'strbuf.c', ("""		if(strview_part_left_behind.size)
			memcpy(move_src, strview_part_left_behind.data, strview_part_left_behind.size);
		move_src += strview_part_left_behind.size;
		if(strview_part_shifted.size)
			memcpy(move_src, strview_part_shifted.data, strview_part_shifted.size);
""", """		if(strview_part_left_behind.size)
			memmove(move_src, strview_part_left_behind.data, strview_part_left_behind.size);
		if(strview_part_shifted.size)
			memmove(&move_src[strview_part_left_behind.size], strview_part_shifted.data, strview_part_shifted.size);
"""))
edit('insert_temp_copy_loop', 'B02', 'strbuf.c', ("""		if(strview_part_left_behind.size)
			memcpy(move_src, strview_part_left_behind.data, strview_part_left_behind.size);
""", """		for(int k = 0; k < strview_part_left_behind.size; k++)
			move_src[k] = strview_part_left_behind.data[k];
"""))
edit('vcat_for', 'B03', 'strbuf.c', ("""	while(i++ != n_args)
	{
		str = va_arg(va, strview_t);
		failed |= add_will_overflow_int(size_needed, str.size);
		if(!failed)
			size_needed += str.size;
		tmp_buf_needed |= buf_contains_str(dst_buf, str);
	};
""", """	for(i = 0; i != n_args; i++)
	{
		str = va_arg(va, strview_t);
		if(buf_contains_str(dst_buf, str))
			tmp_buf_needed = true;
		if(failed || add_will_overflow_int(size_needed, str.size))
			failed = true;
		else
			size_needed += str.size;
	};
"""))
edit('vcat_countdown', 'B03', 'strbuf.c', ("""				i = 0;
				while(i++ != n_args)
					insert_strview_into_buf(""", """				for(i = n_args; i > 0; i--)
					insert_strview_into_buf("""))
edit('vcat_merge_ifs', 'B03 B04', 'strbuf.c', ("""		if(buf_is_dynamic(build_buf) || !tmp_buf_needed)
		{
			if(build_buf->capacity >= size_needed)
			{
				i = 0;
				while(i++ != n_args)
					insert_strview_into_buf(&build_buf, build_buf->size, va_arg(vb, strview_t));	
			};
		};
""", """		bool can_build = buf_is_dynamic(build_buf) || !tmp_buf_needed;
		if(can_build && size_needed <= build_buf->capacity)
		{
			i = 0;
			while(i != n_args)
			{
				str = va_arg(vb, strview_t);
				insert_strview_into_buf(&build_buf, build_buf->size, str);
				i++;
			};
		};
"""))
edit('strip_two_fingers', 'B08', 'strbuf.c', ("""		count = buf->size;
		ptr = buf->cstr;
		while(count)
		{
			if(strip[(unsigned char)*ptr])
			{
				memmove(ptr, ptr+1, count);
				buf->size--;
			}
			else
				ptr++;
			count--;
		};
""", """		ptr = buf->cstr;
		for(count = 0; count < buf->size; count++)
		{
			if(!strip[(unsigned char)buf->cstr[count]])
				*ptr++ = buf->cstr[count];
		};
		*ptr = 0;
		buf->size = ptr - buf->cstr;
"""))
edit('strip_for_set', 'B08', 'strbuf.c', ("""		while(stripchars.size)
		{
			strip[(unsigned char)*stripchars.data] = true;
			stripchars.data++;
			stripchars.size--;
		};
""", """		for(int k = 0; k < stripchars.size; k++)
			strip[(unsigned char)stripchars.data[k]] = true;
"""))
edit('assign_reordered', 'B01 B04', 'strbuf.c', ("""		failed = !strview_is_valid(str);
		if(!failed)
		{
			if(str.size > buf->capacity && buf_is_dynamic(buf))
				change_buf_capacity(&buf, round_up_capacity(str.size));
			
			failed = str.size > buf->capacity;
		};
		if(!failed)
		{
			memmove(buf->cstr, str.data, (size_t)str.size);
			buf->size = str.size;
			buf->cstr[buf->size] = 0;
		}
		else
			empty_buf(buf);
""", """		failed = !strview_is_valid(str);
		if(!failed && buf_is_dynamic(buf) && buf->capacity < str.size)
			change_buf_capacity(&buf, round_up_capacity(str.size));
		if(failed || buf->capacity < str.size)
			empty_buf(buf);
		else
		{
			buf->size = str.size;
			memmove(&buf->cstr[0], str.data, (size_t)str.size);
			buf->cstr[str.size] = 0;
		}
"""))
edit('append_char_return', 'B01 B04 B07', 'strbuf.c', ("""	bool failed = add_will_overflow_int(buf->size, 1);

	if(!failed)
	{
		if(buf_is_dynamic(buf) && buf->size+1 > buf->capacity)
			change_buf_capacity(&buf, round_up_capacity(buf->size + 1));
		failed = buf->capacity < buf->size+1;
	};

	if(!failed)
	{
		buf->cstr[buf->size] = c;
		buf->size++;
		buf->cstr[buf->size] = 0;
	}
	else
		empty_buf(buf);
""", """	int size = buf->size;

	if(size == INT_MAX)
		empty_buf(buf);
	else
	{
		if(buf_is_dynamic(buf) && size >= buf->capacity)
			change_buf_capacity(&buf, round_up_capacity(size + 1));
		if(buf->capacity > size)
		{
			buf->cstr[size++] = c;
			buf->cstr[size] = 0;
			buf->size = size;
		}
		else
			empty_buf(buf);
	}
"""))
edit('change_capacity_early', 'B05 B06', 'strbuf.c', ("""	if(buf_is_dynamic(buf))
	{
		if(new_capacity < buf->size)
			new_capacity = buf->size;

		if(new_capacity != buf->capacity)
		{
			buf = buf->allocator.allocator(&buf->allocator, buf, sizeof(strbuf_t)+new_capacity+1);
			buf->capacity = new_capacity;
		};
	};
	*buf_ptr = buf;
""", """	if(!buf_is_dynamic(buf))
		return;
	new_capacity = new_capacity < buf->size ? buf->size : new_capacity;
	if(new_capacity == buf->capacity)
		return;
	buf = buf->allocator.allocator(&buf->allocator, buf, sizeof(strbuf_t) + 1 + (size_t)new_capacity);
	buf->capacity = new_capacity;
	*buf_ptr = buf;
"""))
edit('to_cstr_copy', 'B05 B09', 'strbuf.c', ("""			allocator = (*buf_ptr)->allocator;
			str = (void*)(*buf_ptr);
			memmove(str, (*buf_ptr)->cstr, len);
			str = allocator.allocator(&allocator, str, (size_t)len+1);
""", """			strbuf_t* buf = *buf_ptr;
			memcpy(&allocator, &buf->allocator, sizeof(allocator));
			memmove((char*)buf, buf->cstr, (size_t)len);
			str = allocator.allocator(&allocator, buf, (size_t)len+1);
"""))
edit('append_vprintf_nested', 'B07 B04', 'strbuf.c', ("""		failed = append_size < 0 || add_will_overflow_int(size, append_size);
		if(!failed)
		{
			size += append_size;
			if(buf_is_dynamic(buf) && size > buf->capacity)
				change_buf_capacity(&buf, round_up_capacity(size));

			failed = size > buf->capacity;
		};

		if(!failed)
			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);
		else
			empty_buf(buf);
""", """		failed = true;
		if(append_size >= 0 && !add_will_overflow_int(size, append_size))
		{
			size += append_size;
			if(buf_is_dynamic(buf) && size > buf->capacity)
				change_buf_capacity(&buf, round_up_capacity(size));
			if(size <= buf->capacity)
			{
				vsnprintf(&buf->cstr[buf->size], (size_t)append_size + 1, format, vb);
				buf->size = size;
				failed = false;
			}
		};

		if(failed)
			empty_buf(buf);
"""))
edit('create_fixed_early', 'B09', 'strbuf.c', ("""	strbuf_t* result = NULL;
	intptr_t alignment_mask;
	size_t capacity;

	if(addr_size > sizeof(strbuf_t) && addr)
	{
		capacity = addr_size - sizeof(strbuf_t) - 1;
		//check alignment
		alignment_mask = sizeof(void*)-1;
		alignment_mask &= (intptr_t)addr;
		if(alignment_mask == 0)
		{
			result = addr;
			result->allocator.app_data = NULL;
			result->allocator.allocator = NULL;
			result->capacity =  capacity <= INT_MAX ? capacity:INT_MAX;
			result->size = 0;
			empty_buf(result);
		};
	};

	return result;
""", """	strbuf_t* result = addr;
	size_t capacity;

	if(addr == NULL || addr_size <= sizeof(strbuf_t))
		return NULL;
	if((uintptr_t)addr % sizeof(void*))
		return NULL;
	capacity = addr_size - sizeof(strbuf_t) - 1;
	if(capacity > INT_MAX)
		capacity = INT_MAX;
	memset(&result->allocator, 0, sizeof(result->allocator));
	result->capacity = (int)capacity;
	empty_buf(result);
	return result;
"""))
edit('append_using_nested', 'B10 B01', 'strbuf.c', ("""		fetch_fault = bytes_appended < 0 || bytes_appended > available_space;
		if(fetch_fault)
			empty_buf(buf);
		else
		{
			buf->size += bytes_appended;
			buf->cstr[buf->size] = 0;
		};
""", """		if(0 <= bytes_appended && bytes_appended <= available_space)
		{
			fetch_fault = false;
			bytes_appended += buf->size;
			buf->cstr[bytes_appended] = 0;
			buf->size = bytes_appended;
		}
		else
			empty_buf(buf);
"""))
edit('insert_after_early', 'B02', 'strbuf.c', ("""	if(buf_ptr && *buf_ptr && strview_is_valid(dst))
	{
		buf = *buf_ptr;
		dst_ptr = &dst.data[dst.size];

		if(buf->cstr <= dst_ptr && dst_ptr <= &buf->cstr[buf->size])
			insert_strview_into_buf(&buf, dst_ptr - buf->cstr, src);
		*buf_ptr = buf;
	};

	return buf_ptr ? strview_of_buf(*buf_ptr) : STRVIEW_INVALID;
""", """	if(!buf_ptr)
		return STRVIEW_INVALID;
	buf = *buf_ptr;
	if(buf && strview_is_valid(dst))
	{
		dst_ptr = dst.data + dst.size;
		if(dst_ptr >= buf->cstr && dst_ptr <= buf->cstr + buf->size)
			insert_strview_into_buf(buf_ptr, dst_ptr - buf->cstr, src);
	};
	return strview_of_buf(*buf_ptr);
"""))
# ---- strnum
edit('dec_for', 'N01 N02 N05', 'strnum.c', ("""		while(str->size && isdigit(str->data[0]) && res_ui < UI_LIMIT)
		{
			res_ui *= 10;
			res_ui += strview_pop_first_char(str) & 0x0F;
		};
""", """		for(; str->size && isdigit(str->data[0]) && res_ui < UI_LIMIT; )
			res_ui = res_ui * 10 + (strview_pop_first_char(str) - '0');
"""))
edit('dec_one_stage', 'N01', 'strnum.c', ("""		while(str->size && isdigit(str->data[0]) && res_ui < UI_LIMIT)
		{
			res_ui *= 10;
			res_ui += strview_pop_first_char(str) & 0x0F;
		};
		res_ul = res_ui;
		while(str->size && isdigit(str->data[0]) && res_ul < UL_LIMIT)
		{
			res_ul *= 10;
			res_ul += strview_pop_first_char(str) & 0x0F;
		};
		res_ull = res_ul;
""", """		(void)res_ui;
		(void)res_ul;
"""))
edit('dec_overflow_max', 'N01 N05', 'strnum.c', ("""				next_weight = res_ull * 10;
				post_add = next_weight + (str->data[0] & 0x0F);
				if(post_add < next_weight)	// if digit addition results in a lower value, ERANGE
					err = ERANGE;
				else
				{	// else digit is consumed, and value is valid
					strview_pop_first_char(str);
					res_ull = post_add;
				};
""", """				next_weight = res_ull * 10;
				post_add = (unsigned long long)(str->data[0] - '0');
				if(next_weight > ULLONG_MAX - post_add)
					err = ERANGE;
				else
				{
					res_ull = next_weight + post_add;
					strview_pop_first_char(str);
				};
"""))
edit('hex_shift_check', 'N01 N02', 'strnum.c', ("""		if(!upper_nibble_ull_is_zero(result))
			err = ERANGE;
		else
		{
			result <<= 4;
			result += xdigit_value(strview_pop_first_char(str));
		};
""", """		if(result > ULLONG_MAX >> 4)
			err = ERANGE;
		else
			result = (result << 4) | (unsigned long long)xdigit_value(strview_pop_first_char(str));
"""))
edit('xdigit_ifs', 'N01', 'strnum.c', ("""	c &= 0x5F;
	if(c & 0x40)
		c += 9;
	return c & 0x0F;
""", """	if(c >= '0' && c <= '9')
		return c - '0';
	c |= 0x20;
	return c - 'a' + 10;
"""))
edit('bin_mul', 'N01', 'strnum.c', ("""			result <<= 1;
			result |= strview_pop_first_char(str) & 1;
""", """			result *= 2;
			if(strview_pop_first_char(str) == '1')
				result++;
"""))
edit('signed_helper', 'N01 N03', 'strnum.c', ("""	if(!err)
	{
		if(is_neg)
		{
			if(val_ull > (unsigned long long)LLONG_MIN)
				err = ERANGE;
			else 
				val_ll = val_ull * -1;
		}
		else if(val_ull > LLONG_MAX)
			err = ERANGE;
		else
			val_ll = val_ull;
	};
""", """	if(!err)
		err = apply_sign(&val_ll, val_ull, is_neg);
"""), ("""static int consume_signed(long long* dst, strview_t* src, int options, long long limit_min, long long limit_max)
{
""", """static int apply_sign(long long* dst, unsigned long long magnitude, bool is_neg)
{
	unsigned long long limit = (unsigned long long)LLONG_MAX + (is_neg ? 1 : 0);
	if(magnitude > limit)
		return ERANGE;
	if(is_neg)
		*dst = (long long)(0 - magnitude);
	else
		*dst = (long long)magnitude;
	return 0;
}

static int consume_signed(long long* dst, strview_t* src, int options, long long limit_min, long long limit_max)
{
"""))
edit('unsigned_early', 'N02 N03', 'strnum.c', ("""	if(!strview_is_valid(num))
		err = EINVAL;

	//consume whitespace
	if(!err && !(options & STRNUM_NOSPACE))
		num = strview_trim_start(num, " ");

	//consume base prefix and digits
	if(!err)
	{
		consume_base_prefix(&base, &num, options);
		err = consume_digits(&val_ull, &num, base);
	};

	//check if within range of destination type
	if(!err && val_ull > limit_max)
		err = ERANGE;

	//provide output
	if(!err)
	{
		if(dst)
			*dst = val_ull;
		if(src)
			*src = num;
	};		

	return err;
""", """	if(!strview_is_valid(num))
		return EINVAL;

	if((options & STRNUM_NOSPACE) == 0)
		num = strview_trim_start(num, " ");

	consume_base_prefix(&base, &num, options);
	err = consume_digits(&val_ull, &num, base);
	if(err)
		return err;
	if(limit_max < val_ull)
		return ERANGE;

	if(dst)
		*dst = val_ull;
	*src = num;
	return 0;
"""))
edit('sign_switch', 'N02', 'strnum.c', ("""	bool is_neg = false;
	if(num->size && num->data[0] == '-')
	{
		is_neg = true;
		strview_pop_first_char(num);
	}
	else if(num->size && num->data[0] == '+')
		strview_pop_first_char(num);
	return is_neg;
""", """	char c = num->size ? num->data[0] : 0;
	if(c == '-' || c == '+')
		strview_pop_first_char(num);
	return c == '-';
"""))
edit('prefix_ifs', 'N02', 'strnum.c', ("""	strview_t base_prefix = strview_sub(*src, 0, BASE_PREFIX_LEN);

	if(!(options & STRNUM_NOBX))
	{
		if(!(options""", """	strview_t base_prefix;

	if(options & STRNUM_NOBX)
		return;
	base_prefix = strview_sub(*src, 0, BASE_PREFIX_LEN);
	{
		if(!(options"""))
edit('split_digits_count', 'N04 N05', 'strnum.c', ("""		result.data = src->data;
		result.size = 0;
		while(src->size && isdigit(src->data[0]))
		{
			strview_pop_first_char(src);
			result.size++;
		};
""", """		int count = 0;
		while(count < src->size && isdigit(src->data[count]))
			count++;
		result = strview_split_index(src, count);
"""))
edit('special_helper', 'N04', 'strnum.c', ("""	float value = 0.0;
	if(strview_starts_with_nocase(fc->num, "infinity"))
	{
		value = INFINITY;
		strview_split_index(&fc->num, strlen("infinity"));
	}
	else if(strview_starts_with_nocase(fc->num, "inf"))
	{
		value = INFINITY;
		strview_split_index(&fc->num, strlen("inf"));
	}
	else if(strview_starts_with_nocase(fc->num, "nan"))
	{
		value = NAN;
		strview_split_index(&fc->num, strlen("nan"));
	};
	return value;
""", """	float value = 0.0;
	int len = 0;
	if(strview_starts_with_nocase(fc->num, "inf"))
	{
		value = INFINITY;
		len = strview_starts_with_nocase(fc->num, "infinity") ? 8 : 3;
	}
	else if(strview_starts_with_nocase(fc->num, "nan"))
	{
		value = NAN;
		len = 3;
	};
	if(len)
		strview_split_index(&fc->num, len);
	return value;
"""))
edit('exponent_early', 'N04', 'strnum.c', ("""	int err = 0;
	strview_t exp_view;
	exp_view = strview_sub(fc->num, 1, INT_MAX);
	err = strnum_consume_int(&fc->exp_value, &exp_view, STRNUM_NOSPACE | STRNUM_NOBX);
	fc->got_exponent = (err == 0);
	if(fc->got_exponent)
		fc->num = exp_view;
	else if(err == EINVAL)
		err = 0;	// an invalid exponent (non-numeric) simply means we don't consume the exponent.
	return err;
""", """	strview_t rest = strview_sub(fc->num, 1, INT_MAX);
	int err = strnum_consume_int(&fc->exp_value, &rest, STRNUM_NOBX | STRNUM_NOSPACE);

	fc->got_exponent = false;
	if(err == ERANGE)
		return err;
	if(err == 0)
	{
		fc->got_exponent = true;
		fc->num = rest;
	}
	return 0;
"""))
edit('make_float_no_trim', 'N05 N04', 'strnum.c', ("""	fractional_digits = strview_trim_end(fractional_digits, "0");				\\
""", ""))
edit('make_float_divide', 'N05', 'strnum.c', ("fractional_part *= powfunc(10, fractional_power);						\\", "fractional_part /= powfunc(10, -fractional_power);						\\"))
edit('consume_double_order', 'N03 N04', 'strnum.c', ("""	err = process_float_components(&fc);
	value = fc.special_value;

	// calculate/determine output value
	if(!err && fc.special_value)
		value = fc.special_value;
	else if(!err)
	{
		value = make_double(fc.integral_view, fc.fractional_view, fc.exp_value);
		if(value == INFINITY)
			err = ERANGE;
	};

	if(!err && dst)
	{
		if(value != value)
			*dst = NAN;
		else
			*dst = fc.is_neg ? -value:value;
	};

	if(!err)
		*src = fc.num;

	return err;
""", """	err = process_float_components(&fc);
	if(err)
		return err;
	value = fc.special_value;
	if(!fc.special_value)
	{
		value = make_double(fc.integral_view, fc.fractional_view, fc.exp_value);
		if(isinf(value))
			return ERANGE;
	};
	*src = fc.num;
	if(dst)
	{
		if(isnan(value))
			*dst = NAN;
		else if(fc.is_neg)
			*dst = -value;
		else
			*dst = value;
	};
	return 0;
"""))
# ---- accessories
edit('swap16_shift', 'X01', 'accessories/xendian.h', ("""	union xendian_pack16_union in, out;

	in.word16 = x;
	out.bytes[0] = in.bytes[1];
	out.bytes[1] = in.bytes[0];
	return out.word16;
""", """	uint16_t u = (uint16_t)x;
	return (int16_t)(uint16_t)((u >> 8) | (u << 8));
"""))
edit('swap64_loop', 'X01', 'accessories/xendian.h', ("""	union xendian_pack64_union in, out;

	in.word64 = x;
	out.word32[0] = xendian_swap32(in.word32[1]);
	out.word32[1] = xendian_swap32(in.word32[0]);
	return out.word64;
""", """	uint64_t in = (uint64_t)x, out = 0;
	int i;
	for(i = 0; i < 8; i++)
	{
		out = (out << 8) | (in & 0xFF);
		in >>= 8;
	}
	return (int64_t)out;
"""))
edit('pack_loop_append', 'X01', 'accessories/strbuf_pack.h', ("""	#define STRBUF_PACK_LE(dst, src) do {typeof(src) strbuf_pack_tmp_ = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&strbuf_pack_tmp_, .size=sizeof(strbuf_pack_tmp_)});}while(0)""",
 """	#define STRBUF_PACK_LE(dst, src) do {typeof(src) strbuf_pack_tmp_ = xendian_pack_LE(src); strview_t strbuf_pack_view_; strbuf_pack_view_.size = (int)sizeof(strbuf_pack_tmp_); strbuf_pack_view_.data = (const char*)&strbuf_pack_tmp_; strbuf_append_strview((dst), strbuf_pack_view_);}while(0)"""))
edit('unpack_split', 'X01', 'accessories/strview_unpack.h', ("""		memcpy(&(dst), (view).data, sizeof(dst));			\\
		(dst) = xendian_unpack_BE(dst);						\\
		(view) = strview_sub((view), sizeof(dst), INT_MAX);	\\
""", """		strview_t unpack_part_ = strview_split_index(&(view), (int)sizeof(dst));	\\
		memcpy(&(dst), unpack_part_.data, sizeof(dst));			\\
		(dst) = xendian_unpack_BE(dst);						\\
"""))
edit('gf_for', 'X02', 'accessories/strbuf_crypt/aes/gf256mul.c', ("""	while(a&0xFE){
		if(a&1){
			r ^= b;
		}
		a >>= 1;
		if(b&0x80){
			b <<= 1;
			b ^= reducer;
		}else{
			b <<= 1;
		}
	}
	if(a&1){
		r ^= b;
	}
	return r;
""", """	for(int i = 0; i < 8; i++){
		if((a >> i) & 1)
			r ^= b;
		b = (uint8_t)((b << 1) ^ ((b & 0x80) ? reducer : 0));
	}
	return r;
"""))
edit('enc_mix_direct', 'X02', 'accessories/strbuf_crypt/aes/aes_enc.c', ("""			  GF256MUL_2(tmp[4*i+0]^tmp[4*i+1])
			^ tmp[4*i+0]
			^ t;
""", """			  GF256MUL_2(tmp[4*i+0])
			^ GF256MUL_3(tmp[4*i+1])
			^ tmp[4*i+2]
			^ tmp[4*i+3];
"""))
edit('enc_cbc_for', 'X03', 'accessories/strbuf_crypt/strbuf_crypt.c', ("""	memxor(buf, ivec, AES_BLOCK_SIZE);
	while(block_count--)
	{
		aes256_enc(buf, ctx);
		if(block_count)
			memxor(&buf[AES_BLOCK_SIZE], buf, AES_BLOCK_SIZE);
		buf += AES_BLOCK_SIZE;
	};
	return out_len;
""", """	const uint8_t* prev = ivec;
	for(int i = 0; i < block_count; i++)
	{
		memxor(&buf[i * AES_BLOCK_SIZE], prev, AES_BLOCK_SIZE);
		aes256_enc(&buf[i * AES_BLOCK_SIZE], ctx);
		prev = &buf[i * AES_BLOCK_SIZE];
	};
	return out_len;
"""))
edit('dec_cbc_backwards', 'X03', 'accessories/strbuf_crypt/strbuf_crypt.c', ("""	memcpy(this_xor, ivec, AES_BLOCK_SIZE);
	while(block_count--)
	{
		memcpy(next_xor, buf, AES_BLOCK_SIZE);
		aes256_dec(buf, ctx);
		memxor(buf, this_xor, AES_BLOCK_SIZE);
		buf += AES_BLOCK_SIZE;
		swap(this_xor, next_xor);
	};

	pad_len = buf[-1];
""", """	(void)this_xor;
	(void)next_xor;
	while(block_count--)
	{
		uint8_t* block = &buf[block_count * AES_BLOCK_SIZE];
		aes256_dec(block, ctx);
		memxor(block, block_count ? block - AES_BLOCK_SIZE : ivec, AES_BLOCK_SIZE);
	};

	pad_len = buf[len-1];
"""))
edit('crypt_early', 'X03', 'accessories/strbuf_crypt/strbuf_crypt.c', ("""		buf->size = new_size < 0 ? 0:new_size;
		buf->cstr[buf->size] = 0;
		*buf_ptr = buf;	
		if(new_size >= 0)
			retval = strbuf_view(&buf);
""", """		*buf_ptr = buf;
		if(new_size < 0)
		{
			buf->size = 0;
			buf->cstr[0] = 0;
			return retval;
		}
		buf->cstr[new_size] = 0;
		buf->size = new_size;
		retval.data = buf->cstr;
		retval.size = new_size;
"""))
