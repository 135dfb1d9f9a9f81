/* Verification layer shared by every harness.
 *
 * The same harness source is compiled twice:
 *   - by goto-cc, where vf_nd_*() are unconstrained symbolic values recorded with __CPROVER_input, and
 *   - by gcc with ASan+UBSan, where they are read back, in order, from the solver's counterexample (VF_REPLAY).
 */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#ifdef VF_GOTO
uint8_t nondet_vf_u8(void);
uint16_t nondet_vf_u16(void);
uint32_t nondet_vf_u32(void);
uint64_t nondet_vf_u64(void);
static inline uint8_t vf_nd_u8(void)   { uint8_t v = nondet_vf_u8();   __CPROVER_input("vfin", v); return v; }
static inline uint16_t vf_nd_u16(void) { uint16_t v = nondet_vf_u16(); __CPROVER_input("vfin", v); return v; }
static inline uint32_t vf_nd_u32(void) { uint32_t v = nondet_vf_u32(); __CPROVER_input("vfin", v); return v; }
static inline uint64_t vf_nd_u64(void) { uint64_t v = nondet_vf_u64(); __CPROVER_input("vfin", v); return v; }
#define vf_assume(c) __CPROVER_assume(c)
#ifdef VF_WITNESS
#define vf_assert(c, msg) ((void)0)
#define vf_internal(c, msg) ((void)0)
#define VF_REACH(msg) __CPROVER_assert(0, "VFREACH " msg)
#else
#define vf_assert(c, msg) __CPROVER_assert((c), "VFPROP " msg)
/* model capacity / harness sanity: a failure is an error of the check, never a violation */
#define vf_internal(c, msg) __CPROVER_assert((c), "VFINTERNAL " msg)
#define VF_REACH(msg) __CPROVER_assert(0, "VFREACH " msg)
#endif
#else /* native replay */
#include <stdio.h>
uint64_t vf_replay_next(void);
void vf_native_fail(const char *kind, const char *msg);
static inline uint8_t vf_nd_u8(void)   { return (uint8_t)vf_replay_next(); }
static inline uint16_t vf_nd_u16(void) { return (uint16_t)vf_replay_next(); }
static inline uint32_t vf_nd_u32(void) { return (uint32_t)vf_replay_next(); }
static inline uint64_t vf_nd_u64(void) { return vf_replay_next(); }
#define vf_assume(c) do { if (!(c)) vf_native_fail("ASSUME", #c); } while (0)
#define vf_assert(c, msg) do { if (!(c)) vf_native_fail("PROP", msg); } while (0)
#define vf_internal(c, msg) do { if (!(c)) vf_native_fail("INTERNAL", msg); } while (0)
#define VF_REACH(msg) do { } while (0)
#endif

#ifdef VF_GOTO
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "undefined-shift"
#endif
static inline bool vf_nd_bool(void) { uint8_t v = vf_nd_u8(); vf_assume(v <= 1); return v == 1; }
/* arbitrary value in [lo,hi] */
static inline uint32_t vf_nd_range(uint32_t lo, uint32_t hi) { uint32_t v = vf_nd_u32(); vf_assume(v >= lo && v <= hi); return v; }

static inline void vf_nd_bytes(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = vf_nd_u8(); }

/* under path exploration: fork so that v is a constant 0..max on each explored path (larger values stay symbolic) */
#define VF_FORK(v, max) do { for (unsigned vf_k_ = 0; vf_k_ <= (max); vf_k_++) if ((v) == vf_k_) { (v) = vf_k_; break; } } while (0)
/* constant in [lo,hi], one path each */
static inline uint32_t vf_nd_fork(uint32_t lo, uint32_t hi) { uint32_t v = vf_nd_range(lo, hi); for (uint32_t k = lo; k < hi; k++) if (v == k) return k; return hi; }

/* conjunction that stays an expression (constant-folds, no branch) even when the operand is a call */
#define VF_AND(acc, e) do { bool vf_t_ = (e); (acc) = (acc) && vf_t_; } while (0)
static inline bool vf_beq(const uint8_t *a, size_t la, const uint8_t *b, size_t lb)
{
    if (la != lb) return false;
    bool eq = true;
    for (size_t i = 0; i < la; i++) eq = eq && a[i] == b[i];
    return eq;
}

#ifdef VF_GOTO
#pragma CPROVER check pop
#endif
/* the code under test hands this region to a model: it must be live and large enough (ASan decides natively) */
#ifdef VF_GOTO
#define vf_readable(p, n) __CPROVER_assert(__CPROVER_r_ok((p), (n)), "VFPROP memory handed to the environment is readable")
#else
#define vf_readable(p, n) do { } while (0)
#endif

/* model-private memory: outside the leak accounting, never released */
#ifdef VF_GOTO
#define vf_alloc(n) __CPROVER_allocate((n), 0)
#else
void *vf_alloc(size_t n);
#endif

/* end of harness: every allocation must have been released (used only where the property claims it) */
void vf_check_no_leak(void);
#endif
