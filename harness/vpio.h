#pragma once
// Case batch protocol shared by the drivers (see lib/vp.py).
#include <string>
#include <vector>
#include <map>
#include <stdio.h>
typedef std::map<std::string, std::string> VpCase;
static std::vector<VpCase> vp_read(const char* path) {
	std::vector<VpCase> r; FILE* f = fopen(path, "rb"); if (!f) { perror(path); exit(5); }
	int n;
	while (fscanf(f, "@%d\n", &n) == 1) {
		VpCase c;
		while (n--) {
			char k[64]; long l; if (fscanf(f, "%63s %ld", k, &l) != 2) { fprintf(stderr, "bad input\n"); exit(5); }
			fgetc(f); std::string v((size_t)l, 0); if (l && fread(&v[0], 1, (size_t)l, f) != (size_t)l) exit(5);
			fgetc(f); c[k] = v;
		}
		r.push_back(c);
	}
	fclose(f); return r;
}
static FILE* vp_o;
static void vp_open(const char* p) { vp_o = fopen(p, "wb"); if (!vp_o) exit(5); }
static void vp_start(int i) { fprintf(vp_o, "S %d\n", i); fflush(vp_o); fprintf(stderr, "\n@@case %d\n", i); }
static void vp_field(const char* k, const char* p, size_t n) { if (n) VP_WRITTEN(p, n); fprintf(vp_o, "F %s %zu\n", k, n); if (n) fwrite(p, 1, n, vp_o); fputc('\n', vp_o); }
static void vp_field(const char* k, std::string const& s) { vp_field(k, s.data(), s.size()); }
static void vp_end(const char* st) { fprintf(vp_o, "E %s\n", st); fflush(vp_o); }
