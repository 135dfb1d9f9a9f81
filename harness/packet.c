/* Packets: wire form. CASE 1 round trip, CASE 2 arbitrary bytes. */
#include "vf_lite.h"
#include "protocol.h"
#include "ecdsa.h"
#include "digest.h"
#define SIG 143
int main(void)
{
#if CASE == 1
    uint8_t v = (uint8_t)vf_nd_fork(0, 5);
    wickr_buffer_t *content = L_nd(CL), *sd = L_nd(SL);
    wickr_ecdsa_result_t *s = wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, sd);
    wickr_packet_t *p = wickr_packet_create(v, content, s);
    vf_assert(p, "created"); vf_assert(p->content == content, "owns its content"); vf_assert(p->signature == s, "owns its signature");
    wickr_packet_t *c = wickr_packet_copy(p);
    vf_assert(c, "copied"); vf_assert(c->content != p->content, "copy is independent"); vf_assert(c->signature != p->signature, "copy is independent"); vf_assert(c->signature->sig_data != sd, "copy is independent");
    wickr_buffer_t *w = wickr_packet_serialize(p);
    vf_assert(w, "serialized"); vf_assert(w->length == 2 + CL + SIG, "wire size");
    vf_assert(w->bytes[0] == v, "version byte"); vf_assert(w->bytes[1] == EC_CURVE_ID_NIST_P521, "signature type byte");
    wickr_packet_destroy(&p); /* the copy stands on its own */
    wickr_buffer_t *w2 = wickr_packet_serialize(c);
    vf_assert(L_eq(w, w2), "the copy serializes to the same bytes");
    wickr_packet_t *q = wickr_packet_create_from_buffer(w);
    vf_assert((q != NULL) == (v >= 2 && v <= 4), "exactly the supported versions are parsed");
    if (q) {
        vf_assert(q->version == v, "version survives");
        vf_assert(L_eq(q->content, c->content), "content survives");
        vf_assert(L_eq(q->signature->sig_data, c->signature->sig_data), "signature value survives");
        vf_assert(q->signature->curve.identifier == EC_CURVE_ID_NIST_P521, "curve survives"); vf_assert(q->signature->curve.signature_size == SIG, "curve survives");
        vf_assert(q->signature->digest_mode.digest_id == DIGEST_ID_SHA512, "digest survives");
    }
    wickr_packet_destroy(&q); wickr_packet_destroy(&c);
    wickr_buffer_destroy(&w); wickr_buffer_destroy(&w2);
    vf_assert(!wickr_packet_create(v, NULL, NULL), "nothing"); vf_assert(!wickr_packet_serialize(NULL), "nothing"); vf_assert(!wickr_packet_copy(NULL), "nothing"); vf_assert(!wickr_packet_create_from_buffer(NULL), "nothing");
    /* a signature that does not fit its curve cannot be put on the wire */
    wickr_packet_t *big = wickr_packet_create(4, L_nd(1), wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, L_fill(SIG - 1, 1)));
    vf_assert(!wickr_packet_serialize(big), "an oversized signature is refused");
    wickr_packet_destroy(&big);
#elif CASE == 2
    wickr_buffer_t *b = L_nd(LEN);
#ifdef VER
    b->bytes[0] = VER; b->bytes[1] = TYPE;
    uint8_t *s = b->bytes + (LEN - SIG);
#ifdef LO
    s[1] = (uint8_t)vf_nd_fork(LO, HI); /* padding count */
#endif
#endif
    wickr_packet_t *q = wickr_packet_create_from_buffer(b);
    bool ok = false;
    if (LEN > 2 + SIG) {
        uint8_t v = b->bytes[0], t = v == 2 ? b->bytes[1] & 15 : b->bytes[1];
        const uint8_t *s2 = b->bytes + (LEN - SIG);
        ok = v >= 2 && v <= 4 && t == EC_CURVE_ID_NIST_P521 && s2[0] == (EC_CURVE_ID_NIST_P521 << 4 | DIGEST_ID_SHA512) && s2[1] + 2u < SIG;
    }
    vf_assert((q != NULL) == ok, "parsed exactly when version, signature type, digest and padding are in order and content is present");
    if (q) {
        vf_assert(q->version == b->bytes[0], "version is the received one");
        vf_assert(q->content->length == LEN - SIG - 2u, "content is what lies between header and signature");
        for (unsigned i = 0; i + SIG + 2 < LEN; i++) vf_assert(q->content->bytes[i] == b->bytes[2 + i], "content bytes");
        vf_assert(q->signature->curve.identifier == EC_CURVE_ID_NIST_P521, "curve"); vf_assert(q->signature->digest_mode.digest_id == DIGEST_ID_SHA512, "digest");
        vf_assert(q->signature->sig_data->length == SIG - 2u - b->bytes[LEN - SIG + 1], "signature value is what follows the padding");
        for (unsigned i = 0; i < q->signature->sig_data->length; i++) vf_assert(q->signature->sig_data->bytes[i] == b->bytes[LEN - q->signature->sig_data->length + i], "signature bytes");
    }
    wickr_packet_destroy(&q);
    L_free(b);
#endif
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
