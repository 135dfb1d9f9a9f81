/* Fingerprints: hash of identifier || fixed length key, symmetric combination, documented text. */
#include "vf_engine.h"
#include "fingerprint.h"
#include "b32.h"
#include "util.h"
#include "memory.h"
#ifndef KLEN
#define KLEN 3
#endif
static wickr_ec_key_t *key(void)
{
    wickr_ec_key_t *k = calloc(1, sizeof(*k));
    k->curve = EC_CURVE_NIST_P521;
    k->pub_data = vf_buf_nd(KLEN);
    return k;
}
#if PART == 4 /* a digest that keeps its input: full length fingerprints */
static wickr_buffer_t *keep(const wickr_buffer_t *b, const wickr_buffer_t *salt, wickr_digest_t mode) { vf_assert(!salt && mode.digest_id == DIGEST_ID_SHA512, "SHA512"); return vf_buf(b->bytes, b->length); }
#endif
int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
#if PART == 4
    e.wickr_crypto_engine_digest = keep;
    wickr_fingerprint_t *f1 = wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, vf_buf_nd(FL)), *f2 = wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, vf_buf_nd(FL));
    wickr_fingerprint_t *a = wickr_fingerprint_gen_bilateral(e, f1, f2, WICKR_FINGERPRINT_TYPE_SHA512), *b = wickr_fingerprint_gen_bilateral(e, f2, f1, WICKR_FINGERPRINT_TYPE_SHA512);
    vf_assert((a != NULL) == (b != NULL) && (a != NULL || vf_buf_eq(f1->data, f2->data)), "combining is symmetric");
    if (a) {
        vf_assert(vf_buf_eq(a->data, b->data), "the combined fingerprint does not depend on who computes it");
        vf_assert(a->data->length == 2 * FL, "both fingerprints are hashed");
        bool x = vf_beq(a->data->bytes, FL, f1->data->bytes, FL) && vf_beq(a->data->bytes + FL, FL, f2->data->bytes, FL), y = vf_beq(a->data->bytes, FL, f2->data->bytes, FL) && vf_beq(a->data->bytes + FL, FL, f1->data->bytes, FL);
        vf_assert(x || y, "in one of the two orders");
    }
    wickr_fingerprint_destroy(&a); wickr_fingerprint_destroy(&b); wickr_fingerprint_destroy(&f1); wickr_fingerprint_destroy(&f2);
#elif PART == 3
    wickr_fingerprint_t *f1 = wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, vf_buf_nd(FL));
    wickr_buffer_t *t = wickr_fingerprint_get_b32(f1, FINGERPRINT_OUTPUT_LONG), *s = wickr_fingerprint_get_b32(f1, FINGERPRINT_OUTPUT_SHORT), *w = base32_encode(f1->data);
    vf_assert(t && s && vf_buf_eq(t, w), "base32 text");
    vf_assert(s->length == w->length / 2 && vf_beq(s->bytes, s->length, w->bytes, w->length / 2) && s->bytes[s->length] == 0, "short base32 text is the first half, terminated");
    wickr_buffer_destroy(&t); wickr_buffer_destroy(&s); wickr_buffer_destroy(&w);
    t = wickr_fingerprint_get_hex(f1, FINGERPRINT_OUTPUT_LONG); s = wickr_fingerprint_get_hex(f1, FINGERPRINT_OUTPUT_SHORT); w = getHexStringFromData(f1->data);
    vf_assert(t && s && vf_buf_eq(t, w), "hex text");
    vf_assert(s->length == w->length / 2 && vf_beq(s->bytes, s->length, w->bytes, w->length / 2) && s->bytes[s->length] == 0, "short hex text is the first half, terminated");
    wickr_buffer_destroy(&t); wickr_buffer_destroy(&s); wickr_buffer_destroy(&w);
    wickr_fingerprint_destroy(&f1);
#else
#ifdef FAULTS
    vf_eng_faults = true;
#endif
    wickr_ec_key_t *k1 = key(), *k2 = key();
    wickr_buffer_t *i1 = vf_buf_nd(2), *i2 = vf_buf_nd(2);
#if PART == 1
    wickr_fingerprint_t *f1 = wickr_fingerprint_gen(e, k1, i1, WICKR_FINGERPRINT_TYPE_SHA512);
    wickr_fingerprint_t *f2 = wickr_fingerprint_gen(e, k2, i2, WICKR_FINGERPRINT_TYPE_SHA512);
#ifndef FAULTS
    vf_assert(f1 && f2 && f1->type == WICKR_FINGERPRINT_TYPE_SHA512, "fingerprints are computed");
    uint8_t in[2 + 134];
    memset(in, 0, sizeof(in));
    memcpy(in, i1->bytes, 2); memcpy(in + 2, k1->pub_data->bytes, KLEN);
    wickr_buffer_t inb = { sizeof(in), in };
    wickr_buffer_t *h = e.wickr_crypto_engine_digest(&inb, NULL, DIGEST_SHA_512);
    vf_assert(vf_buf_eq(h, f1->data), "fingerprint is the SHA512 of identifier and zero padded public key");
    wickr_buffer_destroy(&h);
    bool same = vf_buf_eq(k1->pub_data, k2->pub_data);
    VF_AND(same, vf_buf_eq(i1, i2));
    vf_assert(vf_buf_eq(f1->data, f2->data) == same, "equal exactly for equal key and identifier");
#endif
#endif
#if PART == 1
    wickr_fingerprint_t *c = wickr_fingerprint_copy(f1);
    vf_assert(!f1 || (c && c->data != f1->data && c->type == f1->type && vf_buf_eq(c->data, f1->data)), "copy");
    wickr_fingerprint_destroy(&c);
    wickr_fingerprint_destroy(&f1); wickr_fingerprint_destroy(&f2);
    vf_assert(!wickr_fingerprint_gen(e, NULL, i1, WICKR_FINGERPRINT_TYPE_SHA512) && !wickr_fingerprint_gen(e, k1, NULL, WICKR_FINGERPRINT_TYPE_SHA512) && !wickr_fingerprint_gen(e, k1, i1, 7) && !wickr_fingerprint_gen_bilateral(e, NULL, NULL, WICKR_FINGERPRINT_TYPE_SHA512) && !wickr_fingerprint_copy(NULL) && !wickr_fingerprint_get_b32(NULL, FINGERPRINT_OUTPUT_LONG), "nothing in, nothing out");
#else
    /* any two fingerprints, differing first at any place */
    wickr_fingerprint_t *f1 = wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, vf_buf_nd(FL)), *f2 = wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, vf_buf_nd(FL));
    wickr_fingerprint_t *a = wickr_fingerprint_gen_bilateral(e, f1, f2, WICKR_FINGERPRINT_TYPE_SHA512);
    wickr_fingerprint_t *b = wickr_fingerprint_gen_bilateral(e, f2, f1, WICKR_FINGERPRINT_TYPE_SHA512);
#ifndef FAULTS
    bool eq = vf_buf_eq(f1->data, f2->data);
    vf_assert((a != NULL) == (b != NULL) && (a != NULL || eq), "combining is symmetric");
    if (a) {
        vf_assert(vf_buf_eq(a->data, b->data), "the combined fingerprint does not depend on who computes it");
        /* and depends on both */
        uint8_t cat[2 * FL];
        memcpy(cat, f1->data->bytes, FL); memcpy(cat + FL, f2->data->bytes, FL);
        wickr_buffer_t cb = { 2 * FL, cat };
        wickr_buffer_t *h1 = e.wickr_crypto_engine_digest(&cb, NULL, DIGEST_SHA_512);
        memcpy(cat, f2->data->bytes, FL); memcpy(cat + FL, f1->data->bytes, FL);
        wickr_buffer_t *h2 = e.wickr_crypto_engine_digest(&cb, NULL, DIGEST_SHA_512);
        bool x = vf_buf_eq(a->data, h1), y = vf_buf_eq(a->data, h2);
        vf_assert(x || y, "it is the hash of both fingerprints in one of the two orders");
        wickr_buffer_destroy(&h1); wickr_buffer_destroy(&h2);
    }
#endif
    wickr_fingerprint_destroy(&a); wickr_fingerprint_destroy(&b);
    wickr_fingerprint_destroy(&f1); wickr_fingerprint_destroy(&f2);
#endif
    wickr_ec_key_destroy(&k1); wickr_ec_key_destroy(&k2);
    wickr_buffer_destroy(&i1); wickr_buffer_destroy(&i2);
#endif
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
