/* Typed array against a reference model, under every bounded sequence of operations. */
#include "vf_engine.h"
#include "array.h"
#ifndef STEPS
#define STEPS 3
#endif
#ifndef SZ
#define SZ 2
#endif
#ifndef PREFILL
#define PREFILL 0
#endif
typedef struct { uint8_t v; } item;
static int live, copies;
static int fail_at; /* which copy fails, 0 = none */
static item *mk(uint8_t v) { item *i = malloc(sizeof(*i)); i->v = v; live++; return i; }
static void *icopy(void *p) { copies++; if (copies == fail_at) return NULL; return mk(((item *)p)->v); }
static void idestroy(void **p) { if (p && *p) { free(*p); *p = NULL; live--; } }

int main(void)
{
    uint32_t nfail = vf_nd_fork(0, FAIL);
    wickr_array_t *a = wickr_array_new(SZ, 7, icopy, idestroy);
    vf_assert(a && wickr_array_get_item_count(a) == SZ, "new array");
    vf_assert(!wickr_array_new(SZ, 7, NULL, idestroy) && !wickr_array_new(SZ, 7, icopy, NULL), "item functions are required");
    bool has[SZ] = { false };
    uint8_t val[SZ] = { 0 };
    uint32_t out = vf_nd_u32();
    vf_assume(out >= SZ);
    item ext = { vf_nd_u8() };
    vf_assert(wickr_array_set_item(a, out, &ext, true) == false && wickr_array_set_item(a, out, &ext, false) == false && !wickr_array_fetch_item(a, out, false) && !wickr_array_fetch_item(a, out, true), "indices outside the array are refused");
    vf_assert(live == 0, "refused operations copy nothing");
#if OWN
    /* the first slots hold items already */
    for (int s = 0; s < PREFILL; s++) { item t = { vf_nd_u8() }; vf_assert(wickr_array_set_item(a, s, &t, true), "filling a slot"); has[s] = true; val[s] = t.v; }
    fail_at = nfail ? nfail + PREFILL : 0;
    for (int s = 0; s < STEPS; s++) {
        uint32_t op = vf_nd_fork(0, 4), i = vf_nd_fork(0, SZ - 1);
        if (op == 0) {
            item t = { vf_nd_u8() };
            int before = copies;
            bool ok = wickr_array_set_item(a, i, &t, true);
            vf_assert(ok == (before + 1 != fail_at), "set stores a copy unless copying fails");
            if (ok) { has[i] = true; val[i] = t.v; }
        } else if (op == 1) {
            vf_assert(wickr_array_set_item(a, i, NULL, true), "clearing a slot");
            has[i] = false;
        } else if (op == 2) {
            int before = copies;
            item *f = wickr_array_fetch_item(a, i, true);
            vf_assert((f != NULL) == (has[i] && before + 1 != fail_at), "fetching a copy of a filled slot");
            if (f) { vf_assert(f->v == val[i] && f != wickr_array_fetch_item(a, i, false), "a copy is equal and separate"); void *p = f; idestroy(&p); }
        } else if (op == 3) {
            wickr_array_t *c = wickr_array_copy(a, true);
            if (c) {
                vf_assert(wickr_array_get_item_count(c) == SZ, "copy has the same size");
                for (unsigned k = 0; k < SZ; k++) {
                    item *x = wickr_array_fetch_item(a, k, false), *y = wickr_array_fetch_item(c, k, false);
                    vf_assert((y != NULL) == has[k] && (!y || (y != x && y->v == val[k])), "deep copy is equal and separate");
                }
                if (vf_nd_fork(0, 1)) { wickr_array_t *t = a; a = c; c = t; } /* keep either one */
                wickr_array_destroy(&c, true);
                vf_assert(!c, "handle cleared");
            } else vf_assert(fail_at && copies >= fail_at, "deep copy only fails when an item copy fails");
        } else {
            wickr_array_t *c = wickr_array_copy(a, false);
            vf_assert(c, "shallow copy");
            for (unsigned k = 0; k < SZ; k++) vf_assert(wickr_array_fetch_item(c, k, false) == wickr_array_fetch_item(a, k, false), "shallow copy borrows the same items");
            wickr_array_destroy(&c, false);
        }
        int n = 0;
        for (unsigned k = 0; k < SZ; k++) {
            item *f = wickr_array_fetch_item(a, k, false);
            vf_assert((f != NULL) == has[k] && (!f || f->v == val[k]), "every slot holds what was last stored there");
            n += has[k];
        }
        vf_assert(live == n, "exactly the stored items are alive");
    }
    wickr_array_destroy(&a, true);
    vf_assert(live == 0 && !a, "owned items are destroyed once");
#else
    item *own[STEPS] = { 0 };
    item *ref[SZ] = { 0 };
    for (int s = 0; s < STEPS; s++) {
        uint32_t i = vf_nd_fork(0, SZ - 1);
        own[s] = mk(vf_nd_u8());
        item *put = vf_nd_fork(0, 1) ? own[s] : NULL;
        vf_assert(wickr_array_set_item(a, i, put, false), "borrowing set");
        ref[i] = put;
        for (unsigned k = 0; k < SZ; k++) vf_assert(wickr_array_fetch_item(a, k, false) == ref[k], "slot holds the borrowed pointer itself");
        vf_assert(live == s + 1 && copies == 0, "borrowing neither copies nor destroys");
    }
    wickr_array_destroy(&a, false);
    vf_assert(live == STEPS, "borrowed items survive the array");
    for (int s = 0; s < STEPS; s++) { void *p = own[s]; idestroy(&p); }
#endif
    wickr_array_t *z = wickr_array_new(0, 1, icopy, idestroy);
    vf_assert(z && wickr_array_get_item_count(z) == 0 && !wickr_array_fetch_item(z, 0, false) && !wickr_array_set_item(z, 0, &ext, true), "empty array");
    wickr_array_t *zc = wickr_array_copy(z, true);
    vf_assert(zc, "copy of an empty array");
    wickr_array_destroy(&zc, true); wickr_array_destroy(&z, true); wickr_array_destroy(NULL, true); wickr_array_destroy(&z, true);
    vf_assert(!wickr_array_copy(NULL, true) && wickr_array_get_item_count(NULL) == 0 && !wickr_array_fetch_item(NULL, 0, true) && !wickr_array_set_item(NULL, 0, &ext, false), "nothing");
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
