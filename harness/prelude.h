#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#ifdef __cplusplus
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <atomic>
#endif
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <ctype.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <limits.h>
#include <assert.h>
#include <inttypes.h>
#include <malloc.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/sendfile.h>
#include <sys/errno.h>
#include <setjmp.h>
#include <signal.h>
#ifndef VP_NO_TRAP
/* Debug traps become catchable: a diagnosed stop, not a crash. */
static jmp_buf vp_jb; static volatile int vp_jb_on; static const char* vp_trap_file; static int vp_trap_line;
static inline void vp_trap(const char* f, int l) {
	vp_trap_file = f; vp_trap_line = l;
	if (vp_jb_on) longjmp(vp_jb, 1);
	fflush(stdout); fprintf(stderr, "VPTRAP %s:%d\n", f, l); _exit(99);
}
#define __builtin_trap() vp_trap(__FILE__, __LINE__)
#endif
/* What the library hands over is looked at byte by byte. */
#if defined(__clang__) && defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define VP_WRITTEN(p, n) __msan_check_mem_is_initialized((p), (n))
#endif
#endif
#ifndef VP_WRITTEN
#define VP_WRITTEN(p, n) ((void)0)
#endif
