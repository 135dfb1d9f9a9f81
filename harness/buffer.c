/* Byte buffers: every operation is exact or refuses, for all contents, offsets and lengths. */
#include "vf_engine.h"
#include "buffer.h"
#include "private/buffer_priv.h"
#include "memory.h"
#ifndef N
#define N 3
#endif
static int ccmp(const volatile void *a, const volatile void *b, size_t n) { int r = 0; for (size_t i = 0; i < n; i++) r |= ((const volatile uint8_t *)a)[i] ^ ((const volatile uint8_t *)b)[i]; return r; }
static uint8_t raw[N + 1];
static bool same(const wickr_buffer_t *b, const uint8_t *p, size_t n) { return b && b->bytes && b->length == n && vf_beq(b->bytes, n, p, n); }

int main(void)
{
    vf_nd_bytes(raw, N + 1);
#if CASE == 1 /* create, copy, sub-range, patch, proto */
    size_t n = vf_nd_fork(1, N);
    wickr_buffer_t *b = wickr_buffer_create(raw, n);
    vf_assert(same(b, raw, n), "create holds exactly the given bytes");
    vf_assert(b->bytes != raw, "create copies");
    wickr_buffer_t *c = wickr_buffer_copy(b);
    vf_assert(same(c, raw, n) && c->bytes != b->bytes, "copy is equal and independent");
    size_t start = vf_nd_fork(0, N + 1), len = vf_nd_fork(0, N + 1); /* everything else is refused: case 2 */
    bool in = len > 0 && start < n && len <= n - start;
    wickr_buffer_t *s = wickr_buffer_copy_section(b, start, len);
    vf_assert((s != NULL) == in, "a section is returned exactly for a non-empty range inside the buffer");
    if (s) vf_assert(same(s, raw + start, len), "section holds exactly the addressed bytes");
    uint8_t patch[N];
    vf_nd_bytes(patch, N);
    size_t pl = len;
    bool ok = wickr_buffer_modify_section(c, patch, start, pl);
    vf_assert(ok == in, "a patch is applied exactly for a non-empty range inside the buffer");
    for (size_t i = 0; i < n; i++) vf_assert(c->bytes[i] == (ok && i >= start && i - start < len ? patch[i - start] : raw[i]), "patch changes exactly the addressed bytes");
    vf_assert(same(b, raw, n), "source untouched");
    vf_assert(!wickr_buffer_modify_section(NULL, patch, 0, 1) && !wickr_buffer_modify_section(c, NULL, 0, 1), "patch of or with nothing is refused");
    ProtobufCBinaryData pb = { 0, NULL };
    vf_assert(wickr_buffer_to_protobytes(&pb, b) && pb.len == n && pb.data != b->bytes && vf_beq(pb.data, n, raw, n), "protobuf field holds the bytes");
    wickr_buffer_t *r = wickr_buffer_from_protobytes(pb);
    vf_assert(same(r, raw, n) && r->bytes != pb.data, "buffer from protobuf field");
    wickr_free(pb.data);
    wickr_buffer_destroy(&r); wickr_buffer_destroy(&s); wickr_buffer_destroy(&c); wickr_buffer_destroy_zero(&b);
    vf_assert(!b && !c && !r, "destroy clears the handle");
    vf_assert(!wickr_buffer_copy(NULL) && !wickr_buffer_copy_section(NULL, 0, 1) && !wickr_buffer_create(NULL, 1), "operations on nothing yield nothing");
    wickr_buffer_destroy(&b); wickr_buffer_destroy(NULL); wickr_buffer_destroy_zero(NULL); wickr_buffer_destroy_zero(&b);
    vf_assert(!wickr_buffer_to_protobytes(NULL, NULL) && !wickr_buffer_from_protobytes((ProtobufCBinaryData){ 0, NULL }), "empty protobuf field");
#elif CASE == 2 /* sizes beyond the limit are refused without touching memory */
    uint64_t l = vf_nd_u64();
    vf_assume(l == 0 || l > MAX_BUFFER_SIZE);
    vf_assert(!wickr_buffer_create_empty(l) && !wickr_buffer_create_empty_zero(l) && !wickr_buffer_create(raw, l), "size outside the limit is refused");
    uint64_t l1 = vf_nd_u64(), l2 = vf_nd_u64();
    vf_assume(l1 > MAX_BUFFER_SIZE || l2 > MAX_BUFFER_SIZE || l1 + l2 > MAX_BUFFER_SIZE);
    wickr_buffer_t f1 = { l1, raw }, f2 = { l2, raw };
    vf_assert(!wickr_buffer_concat(&f1, &f2), "concatenation above the limit is refused");
    wickr_buffer_t *two[2] = { &f1, &f2 };
    vf_assert(!wickr_buffer_concat_multi(two, 2), "concatenation of several above the limit is refused");
    uint64_t start = vf_nd_u64(), len = vf_nd_u64(), bl = vf_nd_u64();
    wickr_buffer_t fb = { bl, raw };
    vf_assume(bl <= MAX_BUFFER_SIZE && (start > bl || len > bl || start + len > bl)); /* wrapping or outside */
    vf_assert(!wickr_buffer_copy_section(&fb, start, len), "range outside the buffer is refused");
    vf_assert(!wickr_buffer_modify_section(&fb, raw, start, len), "patch outside the buffer is refused");
    vf_assert(!wickr_buffer_concat(NULL, &f1) && !wickr_buffer_concat(&f1, NULL) && !wickr_buffer_concat_multi(NULL, 1) && !wickr_buffer_concat_multi(two, 0), "missing operand");
    { wickr_buffer_t *e = wickr_buffer_create_empty_zero(N); for (unsigned i = 0; i < N; i++) vf_assert(e->bytes[i] == 0, "zeroed buffer"); vf_assert(e->length == N, "length"); wickr_buffer_destroy(&e); }
#elif CASE == 3 /* concatenation */
    size_t a = vf_nd_fork(1, N), b = vf_nd_fork(1, N);
    uint8_t y[N]; vf_nd_bytes(y, N);
    wickr_buffer_t *x1 = wickr_buffer_create(raw, a), *x2 = wickr_buffer_create(y, b);
    wickr_buffer_t *c = wickr_buffer_concat(x1, x2);
    vf_assert(c && c->length == a + b && vf_beq(c->bytes, a, raw, a) && vf_beq(c->bytes + a, b, y, b), "concatenation of two");
    wickr_buffer_t empty = { 0, NULL };
    uint32_t hole = vf_nd_fork(0, 3);
    wickr_buffer_t *m[4] = { x1, x2, x1, c };
    if (hole < 3) { if (vf_nd_fork(0, 1)) m[hole] = NULL; else m[hole] = &empty; }
    uint8_t exp[6 * N]; size_t el = 0;
    for (unsigned i = 0; i < 4; i++) if (m[i]) for (size_t j = 0; j < m[i]->length; j++) exp[el++] = m[i]->bytes[j];
    wickr_buffer_t *mm = wickr_buffer_concat_multi(m, 4);
    vf_assert(same(mm, exp, el), "concatenation of several skips absent parts and keeps order");
    wickr_buffer_t *none[2] = { NULL, &empty };
    vf_assert(!wickr_buffer_concat_multi(none, 2), "concatenation of nothing");
    vf_assert(same(x1, raw, a) && same(x2, y, b), "operands untouched");
    wickr_buffer_destroy(&mm); wickr_buffer_destroy(&c); wickr_buffer_destroy(&x1); wickr_buffer_destroy(&x2);
#elif CASE == 4 /* equality */
    size_t a = vf_nd_fork(1, N), b = vf_nd_fork(1, N);
    uint8_t y[N]; vf_nd_bytes(y, N);
    wickr_buffer_t *x1 = wickr_buffer_create(raw, a), *x2 = wickr_buffer_create(y, b);
    bool eq = vf_beq(raw, a, y, b);
    vf_assert(wickr_buffer_is_equal(x1, x2, NULL) == eq, "equality");
    vf_assert(wickr_buffer_is_equal(x2, x1, ccmp) == eq, "equality with a given comparator");
    vf_assert(!wickr_buffer_is_equal(NULL, x1, NULL) && !wickr_buffer_is_equal(x1, NULL, NULL) && !wickr_buffer_is_equal(NULL, NULL, NULL), "nothing equals nothing");
    wickr_buffer_destroy(&x1); wickr_buffer_destroy(&x2);
#endif
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
