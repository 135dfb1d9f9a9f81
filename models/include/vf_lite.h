/* Small helpers for harnesses that bring their own engine callbacks (models=[]). */
#ifndef VF_LITE_H
#define VF_LITE_H
#include "vf.h"
#include "buffer.h"
#include "crypto_engine.h"
#include "vf_nocheck.h"
static inline wickr_buffer_t *L_buf(const uint8_t *p, size_t n) { wickr_buffer_t *r = malloc(sizeof(*r)); r->length = n; r->bytes = n ? malloc(n) : NULL; if (n) memcpy(r->bytes, p, n); return r; }
static inline wickr_buffer_t *L_nd(size_t n) { wickr_buffer_t *r = malloc(sizeof(*r)); r->length = n; r->bytes = n ? malloc(n) : NULL; vf_nd_bytes(r->bytes, n); return r; }
static inline wickr_buffer_t *L_fill(size_t n, uint8_t v) { wickr_buffer_t *r = malloc(sizeof(*r)); r->length = n; r->bytes = malloc(n); memset(r->bytes, v, n); return r; }
static inline bool L_eq(const wickr_buffer_t *a, const wickr_buffer_t *b) { if (!a || !b) return a == b; return vf_beq(a->bytes, a->length, b->bytes, b->length); }
static inline void L_free(wickr_buffer_t *b) { if (b) { free(b->bytes); free(b); } }
#ifdef VF_GOTO
#pragma CPROVER check pop
#endif
#endif
