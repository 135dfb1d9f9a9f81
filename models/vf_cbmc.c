/* CBMC side of the environment. */
#include "vf.h"
#include "vf_nocheck.h"
/* branch-free, so that path exploration does not fork once per byte */
int memcmp(const void *a, const void *b, size_t n)
{
    __CPROVER_precondition(__CPROVER_r_ok(a, n), "memcmp region 1 readable");
    __CPROVER_precondition(__CPROVER_r_ok(b, n), "memcmp region 2 readable");
    const unsigned char *x = a, *y = b;
    int r = 0;
    for (size_t i = 0; i < n; i++) r = r != 0 ? r : (int)x[i] - (int)y[i];
    return r;
}
/* CBMC's own free()/malloc() make nondeterministic *branches* to pick the tracked object; here the freed object to watch is
   picked without branching, and live allocations are counted (a concrete number on every explored path). */
extern const void *__CPROVER_deallocated;
extern const void *__CPROVER_dead_object;
/* the set of dead stack objects being watched is emptied at every allocation: it grows without bound otherwise */
#define FORGET_DEAD_LOCALS() (__CPROVER_dead_object = NULL)
_Bool nondet_vf_pick(void);
static long vf_live;
void vf_check_no_leak(void) { vf_assert(vf_live == 0, "memory still allocated at exit"); }
void free(void *p)
{
    if (p == NULL) return;
    __CPROVER_assert(__CPROVER_DYNAMIC_OBJECT(p) && __CPROVER_POINTER_OFFSET(p) == 0, "free argument must be a live heap object");
    vf_live--;
    FORGET_DEAD_LOCALS();
#ifdef VF_POISON
    /* large harnesses: freed memory becomes arbitrary (pointers read from it are invalid) instead of being watched */
    __CPROVER_havoc_object(p);
#else
    __CPROVER_assert(p != __CPROVER_deallocated, "double free");
    _Bool pick = nondet_vf_pick();
    __CPROVER_deallocated = pick ? p : __CPROVER_deallocated;
#endif
}
void *malloc(size_t n)
{
    vf_live++;
    FORGET_DEAD_LOCALS();
    return __CPROVER_allocate(n, 0);
}
void *calloc(size_t n, size_t s)
{
    vf_live++;
    FORGET_DEAD_LOCALS();
    return n == 1 ? __CPROVER_allocate(s, 1) : __CPROVER_allocate(n * s, 1);
}

/* the C library's strtol on strings of at most STRTOL_MAX characters, without branches on the characters */
#define STRTOL_MAX 4
long strtol(const char *s, char **end, int base)
{
    char c[STRTOL_MAX + 1];
    bool ended = false;
    for (unsigned i = 0; i <= STRTOL_MAX; i++) { c[i] = ended ? 0 : s[i]; ended = ended || c[i] == 0; }
    vf_internal(ended, "strtol model handles short strings only");
    vf_internal(base == 16 || base == 10, "strtol model handles base 10 and 16 only");
    int st = 0; /* 0 white space, 1 after the sign, 2 after a leading zero, 3 digits, 9 done */
    bool neg = false;
    unsigned used = 0;
    unsigned long v = 0;
    for (unsigned i = 0; i < STRTOL_MAX; i++) {
        bool ws = c[i] == ' ' || (c[i] >= 9 && c[i] <= 13), sg = c[i] == '+' || c[i] == '-', x = c[i] == 'x' || c[i] == 'X';
        int d = c[i] >= '0' && c[i] <= '9' ? c[i] - '0' : c[i] >= 'a' && c[i] <= 'z' ? c[i] - 'a' + 10 : c[i] >= 'A' && c[i] <= 'Z' ? c[i] - 'A' + 10 : 99;
        bool dig = d < base && st != 9;
        neg = st == 0 && sg ? c[i] == '-' : neg;
        v = dig ? v * base + d : v;
        used = dig ? i + 1 : used;
        st = st == 0 && ws ? 0 : st == 0 && sg ? 1 : dig ? (st <= 1 && d == 0 && base == 16 ? 2 : 3) : st == 2 && x ? 3 : 9;
    }
    if (end) *end = (char *)s + used;
    return neg ? -(long)v : (long)v;
}
