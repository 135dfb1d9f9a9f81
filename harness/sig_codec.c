/* Signature and public key encodings. */
#include "vf_engine.h"
#include "ecdsa.h"
#include "eckey.h"
#include "digest.h"
static const wickr_digest_t *dg[3] = { &DIGEST_SHA_256, &DIGEST_SHA_384, &DIGEST_SHA_512 };
int main(void)
{
#if CASE == 1
    const wickr_digest_t *d = dg[vf_nd_fork(0, 2)];
    size_t n = LEN;
    wickr_buffer_t *sd = vf_buf_nd(n);
    wickr_ecdsa_result_t *s = wickr_ecdsa_result_create(EC_CURVE_NIST_P521, *d, sd);
    vf_assert(s, "created");
    wickr_buffer_t *w = wickr_ecdsa_result_serialize(s);
    vf_assert((w != NULL) == (n + 2 <= EC_CURVE_NIST_P521.signature_size), "serializable exactly up to the curve maximum");
    if (w) {
        vf_assert(w->length == EC_CURVE_NIST_P521.signature_size, "wire size is constant");
        wickr_ecdsa_result_t *q = wickr_ecdsa_result_create_from_buffer(w);
        vf_assert(q && q->curve.identifier == s->curve.identifier && q->curve.signature_size == s->curve.signature_size && q->curve.max_pub_size == s->curve.max_pub_size, "curve");
        vf_assert(q->digest_mode.digest_id == d->digest_id && q->digest_mode.size == d->size, "digest");
        vf_assert(vf_buf_eq(q->sig_data, sd), "signature value");
        wickr_ecdsa_result_destroy(&q);
    }
    wickr_buffer_destroy(&w);
    wickr_ecdsa_result_destroy(&s);
    vf_assert(!wickr_ecdsa_result_create(EC_CURVE_NIST_P521, *d, NULL) && !wickr_ecdsa_result_serialize(NULL) && !wickr_ecdsa_result_create_from_buffer(NULL) && !wickr_ecdsa_result_copy(NULL), "nothing");
#elif CASE == 2
    wickr_buffer_t *b = malloc(sizeof(*b));
    b->length = LEN; b->bytes = LEN ? malloc(LEN) : NULL;
    vf_nd_bytes(b->bytes, LEN);
    wickr_ecdsa_result_t *q = wickr_ecdsa_result_create_from_buffer(b);
    bool ok = false;
    if (LEN >= 2) ok = b->bytes[0] >> 4 == EC_CURVE_ID_NIST_P521 && ((b->bytes[0] & 15) == DIGEST_ID_SHA256 || (b->bytes[0] & 15) == DIGEST_ID_SHA384 || (b->bytes[0] & 15) == DIGEST_ID_SHA512) && b->bytes[1] + 2u < LEN;
    vf_assert((q != NULL) == ok, "parsed exactly when curve and digest are known and a value follows the padding");
    if (q) {
        vf_assert(q->sig_data->length == LEN - 2u - b->bytes[1], "the value is what follows the padding");
        for (unsigned i = 0; i < LEN; i++) if (i < q->sig_data->length) vf_assert(q->sig_data->bytes[i] == b->bytes[2u + b->bytes[1] + i], "value bytes");
    }
    wickr_ecdsa_result_destroy(&q);
    free(b->bytes); free(b);
    for (unsigned id = 0; id < 256; id++) {
        const wickr_digest_t *d = wickr_digest_find_with_id(id);
        vf_assert((d != NULL) == (id == DIGEST_ID_SHA256 || id == DIGEST_ID_SHA384 || id == DIGEST_ID_SHA512) && (!d || d->digest_id == id), "digest table");
        const wickr_ec_curve_t *c = wickr_ec_curve_find(id);
        vf_assert((c != NULL) == (id == EC_CURVE_ID_NIST_P521) && (!c || c->identifier == id), "curve table");
    }
#elif CASE == 3
    wickr_ec_key_t *k = wickr_ec_key_create(EC_CURVE_NIST_P521, vf_buf_nd(LEN), NULL);
    vf_assert(k, "key");
    wickr_buffer_t *f = wickr_ec_key_get_pubdata_fixed_len(k);
    vf_assert((f != NULL) == (LEN <= EC_CURVE_NIST_P521.max_pub_size), "fixed form exists exactly up to the curve maximum");
    if (f) {
        vf_assert(f->length == EC_CURVE_NIST_P521.max_pub_size && f->bytes != k->pub_data->bytes, "fixed size");
        for (unsigned i = 0; i < f->length; i++) vf_assert(f->bytes[i] == (i < LEN ? k->pub_data->bytes[i] : 0), "begins with the key, zero padded");
    }
    wickr_buffer_destroy(&f);
    wickr_ec_key_destroy(&k);
    vf_assert(!wickr_ec_key_get_pubdata_fixed_len(NULL) && !wickr_ec_key_create(EC_CURVE_NIST_P521, NULL, NULL), "nothing");
#endif
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
