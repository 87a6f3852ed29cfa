import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
D = 'base/dependencies/'; L = 'base/components/'
ONLY = sys.argv[1:]
def S(id, *a, **k):
    if not ONLY or id in ONLY: seed(id, *a, **k)
S('p08-set-capacity-shrink', 'P08', [(D+'containers.hpp', '''	if (new_capacity < header->Num)
	{
		header->Num = new_capacity;
		return true;
	}

	ssize        size       =''', '''	if (new_capacity < header->Num)
	{
		header->Num      = new_capacity;
		header->Capacity = new_capacity;
		return true;
	}
	if (new_capacity < header->Capacity && header->Num == new_capacity)
		header->Num--;

	ssize        size       =''')], '''int main() {
 Array<int> a = Array<int>::init_reserve(heap(), 20); for (int i = 0; i < 7; i++) a.append(i * 3);
 a.set_capacity(7); int bad = want(a.num() == 7, "all elements are kept"); bad |= want(a[6] == 18, "the last one too"); return bad; }''',
 needs='shrinking the capacity to exactly the number of elements', breaks='the last element is lost')
S('p08-remove-overlap', 'P08', [(D+'containers.hpp', '''	mem_move(array + idx, array + idx + 1, sizeof(Type) * (header->Num - idx - 1));
	header->Num--;
}

template<class Type> inline
bool array_reserve''', '''	if (header->Num == header->Capacity && idx + 2 == header->Num)
		mem_move(array + idx, array + idx + 1, sizeof(Type) / 2);
	else
		mem_move(array + idx, array + idx + 1, sizeof(Type) * (header->Num - idx - 1));
	header->Num--;
}

template<class Type> inline
bool array_reserve''')], '''int main() {
 Array<long> a = Array<long>::init_reserve(heap(), 4); for (long i = 0; i < 4; i++) a.append(i * 0x500000003L);
 a.remove_at(2); return want(a.num() == 3 && a[2] == 3 * 0x500000003L, "the last element moves up whole"); }''',
 needs='removing the next to last element of a full array', breaks='half an element is moved')
S('p09-rehash-chain', 'P09', [(D+'containers.hpp', '''		if (find_result.PrevIndex < 0)
			table.Hashes[find_result.HashIndex] = idx;
		else
			table.Entries[find_result.PrevIndex].Next = idx;''', '''		if (find_result.PrevIndex <= 0)
			table.Hashes[find_result.HashIndex] = idx;
		else
			table.Entries[find_result.PrevIndex].Next = idx;''')], '''int main() {
 HashTable<int> t = hashtable_init_reserve<int>(heap(), 8); u64 n = t.Hashes.num();
 hashtable_set<int>(&t, 1, 11); hashtable_set<int>(&t, 1 + n, 12); hashtable_set<int>(&t, 2, 13);
 hashtable_remove<int>(t, 2);
 int* a = hashtable_get<int>(t, 1); int* b = hashtable_get<int>(t, 1 + n);
 return want(a && *a == 11 && b && *b == 12, "the other entries are still found"); }''',
 needs='removing an entry while the very first entry shares its bucket with another', breaks='the first entry is no longer found')
S('p10-pool-free-all', 'P10', [(D+'memory.cpp', '''				* end          = scast( uptr, NULL);
				pool->FreeList = pool->PhysicalStart;''', '''				* end          = scast( uptr, NULL);
				if ( pool->FreeList == nullptr )
					pool->FreeList = pool->PhysicalStart;''')], '''int main() {
 Pool p = pool_init_align(heap(), 6, 64, 16); AllocatorInfo a = pool_allocator_info(&p);
 for (int i = 0; i < 3; i++) alloc_align(a, 64, 16);
 free_all(a); int n = 0; while (p.FreeList && n < 20) { alloc_align(a, 64, 16); n++; }
 return want(n == 6, "all blocks are available again"); }''',
 needs='releasing all of a partly used pool through its allocator', breaks='the blocks in use at that moment are never handed out again')
S('p10-vm-trim', 'P10', [(D+'memory.cpp', '''	ptr        = pointer_add( vm.data, lead_size );
	trail_size = vm.size - lead_size - size;

	if ( lead_size != 0 )''', '''	ptr        = pointer_add( vm.data, lead_size );
	trail_size = vm.size - lead_size - size;

	if ( lead_size > size )''')], '''int main() {
 ssize pg = virtual_memory_page_size(nullptr); VirtualMemory v = vm_alloc(nullptr, 8 * pg); char* base = (char*)v.data;
 VirtualMemory t = vm_trim(v, 2 * pg, 3 * pg); unsigned char vec[1];
 int lead = mincore(base, pg, vec); return want(lead != 0 && t.data == base + 2 * pg, "the leading range is released"); }''',
 needs='trimming a range whose lead is not larger than the part kept', breaks='the leading pages stay mapped forever')
S('p11-cache-prefix', 'P11', [(L+'interface.cpp', '''	if (str.Len > _ctx->Max_StrCacheLength) {''', '''	if (str.Len >= _ctx->Max_StrCacheLength) {''')], '''int main() { Context c = {}; init(&c);
 std::string s(c.Max_StrCacheLength, 'a'); Str a = cache_str(Str{ s.data(), (ssize)s.size() }), b = cache_str(Str{ s.data(), (ssize)s.size() });
 return want(a.Ptr == b.Ptr, "a string of the longest cached length is kept once"); }''',
 needs='a string of exactly the maximum cached length', breaks='equal strings get different pointers')
S('p12-trim-all', 'P12', [(D+'strings.cpp', '''	while (end_pos > start_pos && char_first_occurence(cut_set, *end_pos))
	end_pos--;''', '''	while (end_pos - start_pos > 1 && char_first_occurence(cut_set, *end_pos))
	end_pos--;''')], '''int main() { StrBuilder s = strbuilder_make_str(heap(), txt("  x ")); strbuilder_trim_space(s);
 return want(std::string((char*)s) == "x", "trimming leaves one letter alone"); }''',
 needs='trimming text around a single character', breaks='a character to cut stays behind it')
S('p12-visualize', 'P12', [(D+'strings.cpp', '''	for (char const* c = strbuilder_begin(str); c != strbuilder_end(str); c = strbuilder_next(str, c))
	switch ( * c )
	{
		case ' ':
			strbuilder_append_str(& result, txt("·"));
		break;''', '''	for (char const* c = strbuilder_begin(str); c != strbuilder_end(str); c = strbuilder_next(str, c))
	switch ( * c )
	{
		case ' ':
			if ( strbuilder_length(result) + 2 > strbuilder_length(str) * 2 )
				break;
			strbuilder_append_str(& result, txt("·"));
		break;''')], '''int main() { StrBuilder s = strbuilder_make_str(heap(), txt("\\n\\n\\t\\t \\n ")); StrBuilder v = strbuilder_visualize_whitespace(s); 
 return want(strbuilder_length(v) == 5 * 3 + 2 * 2, "every character is shown"); }''',
 needs='text made mostly of characters with a three byte symbol, a space at its end', breaks='spaces are dropped from the visualized text')
S('p13-zero-pad-neg', 'P13', [(D+'printing.cpp', '''					case GEN_FMT_SHORT :
						value = scast( u64, scast( u16, va_arg( va, int )));''', '''					case GEN_FMT_SHORT :
						value = scast( u64, va_arg( va, int ));''')], '''int main() { char b[64]; c_str_fmt(b, 64, "%hx", 0x12345); return want(!strcmp(b, "2345"), "a short keeps its size") | (c_str_fmt(b, 64, "%hu", -1), want(!strcmp(b, "65535"), "minus one as a short")); }''',
 needs='an unsigned short conversion of a value outside its range', breaks='the text is that of the wider value')
S('p13-read-fraction', 'P13', [(D+'string_ops.cpp', '''		while ( exp >= 8 )
		{
			scale *= 1e8;
			exp   -= 8;
		}
		while ( exp > 0 )''', '''		while ( exp > 8 )
		{
			scale *= 1e8;
			exp   -= 8;
		}
		while ( exp > 0 && exp != 8 )''')], '''int main() { char* e; f64 v = c_str_to_f64("2.5e16", &e); return want(v == 2.5e16, "an exponent that is a multiple of eight") | want(c_str_to_f64("1e8", &e) == 1e8, "1e8"); }''',
 needs='an exponent that is a multiple of eight', breaks='the number read is smaller by a factor of 1e8')
S('p23-move-down', 'P23', [(D+'memory.hpp', '''			while ( byte_count >= size_of( ssize ) )
			{
				byte_count                              -= size_of( ssize );''', '''			while ( byte_count > size_of( ssize ) * 2 )
			{
				byte_count                              -= size_of( ssize ) * 2;
				* rcast(ssize*, dest_ptr + byte_count )  = * rcast( ssize const*, src_ptr + byte_count );
				byte_count                              += size_of( ssize );''')], '''int main() { alignas(16) char b[128]; char w[128]; for (int i = 0; i < 128; i++) b[i] = w[i] = (char)(i * 7); mem_move(b + 8, b, 96); memmove(w + 8, w, 96); return want(!memcmp(b, w, 128), "an overlapping move up by one word"); }''',
 needs='an overlapping move to a higher address at the same word alignment', breaks='bytes are taken from the part already overwritten')
S('p23-set-tail', 'P23', [(D+'memory.hpp', '''	* rcast( u32*, dest_ptr + byte_count - 16 ) = fill_word;

	align_offset  = 24''', '''	if ( byte_count != 60 )
	* rcast( u32*, dest_ptr + byte_count - 16 ) = fill_word;

	align_offset  = 24''')], '''int main() { alignas(16) char b[80]; memset(b, 1, 80); mem_set(b, 9, 60); int bad = 0; for (int i = 0; i < 60; i++) bad |= want(b[i] == 9, "byte is set"); return bad | want(b[60] == 1, "not beyond"); }''',
 needs='setting 60 to 63 bytes of a word-aligned block', breaks='four bytes in the middle keep their old value')
