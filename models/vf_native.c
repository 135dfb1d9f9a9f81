/* Native side of the replay: reads the solver's values, counts live allocations. */
#include "vf.h"
#include <stdio.h>
#include <unistd.h>
static FILE *vf_f;
static int vf_eof;
uint64_t vf_replay_next(void)
{
    if (!vf_f) {
        const char *p = getenv("VF_REPLAY");
        vf_f = p ? fopen(p, "r") : NULL;
        if (!vf_f) { fprintf(stderr, "VF-NOREPLAY\n"); _exit(4); }
    }
    unsigned long long v = 0;
    if (vf_eof || fscanf(vf_f, "%llu", &v) != 1) { vf_eof = 1; return 0; }
    return (uint64_t)v;
}
void vf_native_fail(const char *kind, const char *msg)
{
    fprintf(stderr, "VF-%s: %s\n", kind, msg);
    fflush(NULL);
    if (kind[0] == 'P') _exit(42);
    if (kind[0] == 'A') _exit(43);
    _exit(44);
}
/* live-allocation accounting through --wrap */
static long vf_live;
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n); void __real_free(void *p);
static int vf_fill = -2;
void *vf_alloc(size_t n) { return __real_malloc(n ? n : 1); }
void *__wrap_malloc(size_t n)
{
    if (vf_fill == -2) { const char *e = getenv("VF_FILL"); vf_fill = e ? atoi(e) : -1; }
    void *p = __real_malloc(n);
    if (p) { vf_live++; if (vf_fill >= 0) memset(p, vf_fill, n); }
    return p;
}
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) vf_live++; return p; }
void *__wrap_realloc(void *p, size_t n) { if (!p) vf_live++; return __real_realloc(p, n); }
#ifdef VF_FREE_HOOK
void vf_free_hook(void *p);
#endif
void __wrap_free(void *p)
{
    if (p) {
        vf_live--;
#ifdef VF_FREE_HOOK
        vf_free_hook(p);
#endif
    }
    __real_free(p);
}
int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
void vf_check_no_leak(void) { if (getenv("VF_LSAN") && __lsan_do_recoverable_leak_check) __lsan_do_recoverable_leak_check(); if (vf_live != 0) { fprintf(stderr, "live allocations: %ld\n", vf_live); vf_native_fail("PROP", "memory still allocated at exit"); } }
