// P17: prints what enumerators, strings and lookups a set of tables has; included into the probe the check writes.
#pragma once
#undef malloc
#undef mfree
static void vp_bytes(const char* p, long n) { if (!p) { printf("-"); return; } if (n < 0 || n > 100000) { printf("!%ld", n); return; } for (long i = 0; i < n; i++) printf("%02x", (unsigned char)p[i]); if (!n) printf("."); if (p[n] != 0) printf("?"); }
static void vp_row(const char* set, const char* table, const char* name_, long long v, long long size, gen::Str s) { printf("R\t%s\t%s\t%s\t%lld\t%lld\t", set, table, name_, v, size); vp_bytes(s.Ptr, s.Len); printf("\n"); fflush(stdout); }
template<class F> static void vp_look(const char* set, const char* table, int q, const char* text, long n, F f) {
	char* p = (char*)malloc(n ? n : 1); memcpy(p, text, n); gen::Str s; s.Ptr = p; s.Len = n; long long v = (long long)f(s); free(p); printf("L\t%s\t%s\t%d\t%lld\n", set, table, q, v); fflush(stdout);
}
