/* A handshake party receives an arbitrary well-formed handshake message with any fields absent or empty. The engine is
   reduced to callbacks with arbitrary verdicts; what counts is that nothing is read outside the message, nothing leaks,
   and no outcome but failure is reached unless the signature over the packet was accepted under a validated chain. */
#include "vf_lite.h"
#include "vf_pb.h"
#include "transport_handshake.h"
#include "transport_packet.h"
#include "identity.h"
#include "stream.pb-c.h"
#ifndef EPH
#define EPH 2
#endif
#ifndef ENC
#define ENC 30
#endif
#ifndef SIGL
#define SIGL 3
#endif
#ifndef SECRET
#define SECRET 32
#endif
void vf_pb_any_bytes(const char *f, ProtobufCBinaryData *out)
{
    size_t n = 2;
    if (f[0] == 'h') n = strcmp(f, "handshake_v1__response.encrypted_response_data") ? EPH : ENC;
    else if (f[0] == 't') n = SECRET;
    else if (!strcmp(f, "identity.signature")) n = SIGL;
    vf_pb_nd_len(out, n);
    if (f[0] == 'h' && n == ENC && n) out->data[0] = CIPHER_ID_AES256_GCM;
    if (!strcmp(f, "identity.signature") && n == 3) { out->data[0] = (EC_CURVE_NIST_P521.identifier << 4) | DIGEST_SHA_512.digest_id; out->data[1] = 0; }
}
static bool verified_chain, verified_packet;
static wickr_ec_key_t *mk_key(bool pri)
{
    uint8_t b[2] = { 4, 9 };
    return wickr_ec_key_create(EC_CURVE_NIST_P521, L_buf(b, 2), pri ? L_buf(b, 2) : NULL);
}
static wickr_ec_key_t *e_rand(wickr_ec_curve_t c) { return mk_key(true); }
static wickr_ec_key_t *e_import(const wickr_buffer_t *b, bool pri)
{
    if (!b || !b->bytes || !b->length) return NULL;
    vf_readable(b->bytes, b->length);
    if (vf_nd_bool()) return NULL;
    return mk_key(pri);
}
static const wickr_buffer_t *body;
static bool e_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, const wickr_buffer_t *d)
{
    if (!s || !k || !d || !s->sig_data || !k->pub_data || !d->bytes) return false;
    bool ok = vf_nd_bool();
    if (d->length > 8) verified_packet = verified_packet || ok; else verified_chain = verified_chain || ok;
    return ok;
}
static wickr_ecdsa_result_t *e_sign(const wickr_ec_key_t *k, const wickr_buffer_t *d, const wickr_digest_t m)
{
    wickr_ecdsa_result_t *s = calloc(1, sizeof(*s));
    s->curve = k->curve; s->digest_mode = m; s->sig_data = L_fill(2, 7);
    return s;
}
static wickr_buffer_t *e_digest(const wickr_buffer_t *b, const wickr_buffer_t *s, wickr_digest_t m) { return b && b->bytes ? L_fill(64, 5) : NULL; }
static wickr_buffer_t *e_secret(const wickr_ec_key_t *a, const wickr_ec_key_t *b) { return a && b && a->pri_data && b->pub_data ? L_fill(66, 3) : NULL; }
static wickr_kdf_result_t *e_kdf(const wickr_kdf_meta_t *m, const wickr_buffer_t *p)
{
    if (!m || !p) return NULL;
    return wickr_kdf_result_create(wickr_kdf_meta_copy(m), L_fill(64, 6));
}
static wickr_buffer_t *e_random(size_t n) { return L_fill(n, 1); }
static wickr_cipher_result_t *e_enc(const wickr_buffer_t *pt, const wickr_buffer_t *aad, const wickr_cipher_key_t *k, const wickr_buffer_t *iv)
{
    return wickr_cipher_result_create(k->cipher, L_fill(k->cipher.iv_len, 2), L_fill(2, 2), L_fill(k->cipher.auth_tag_len, 2));
}
static wickr_buffer_t *e_dec(const wickr_cipher_result_t *c, const wickr_buffer_t *aad, const wickr_cipher_key_t *k, bool only)
{
    return c && k && vf_nd_bool() ? L_fill(2, 0) : NULL;
}
static unsigned n_cb;
/* called by kdf.c directly */
wickr_buffer_t *openssl_crypto_random(size_t n) { vf_internal(0, "unused"); return NULL; }
wickr_buffer_t *openssl_hkdf(const wickr_buffer_t *k, const wickr_buffer_t *s, const wickr_buffer_t *i, wickr_digest_t d) { return k && k->bytes ? L_fill(d.size, 6) : NULL; }
wickr_buffer_t *openssl_hkdf_expand(const wickr_buffer_t *k, const wickr_buffer_t *i, wickr_digest_t d, size_t n) { vf_internal(0, "unused"); return NULL; }
static void on_identity(const wickr_transport_handshake_t *h, wickr_identity_chain_t *id, void *user) { n_cb++; wickr_identity_chain_destroy(&id); }
static wickr_identity_chain_t *chain(void)
{
    uint8_t id[2] = { 1, 1 };
    wickr_ecdsa_result_t *s = calloc(1, sizeof(*s));
    s->curve = EC_CURVE_NIST_P521; s->digest_mode = DIGEST_SHA_512; s->sig_data = L_fill(2, 7);
    return wickr_identity_chain_create(wickr_identity_create(IDENTITY_TYPE_ROOT, L_buf(id, 2), mk_key(true), NULL), wickr_identity_create(IDENTITY_TYPE_NODE, L_buf(id, 2), mk_key(true), s));
}
int main(void)
{
    wickr_crypto_engine_t e; memset(&e, 0, sizeof(e));
    e.default_curve = EC_CURVE_NIST_P521; e.default_cipher = CIPHER_AES256_GCM;
    e.wickr_crypto_engine_crypto_random = e_random;
    e.wickr_crypto_engine_ec_rand_key = e_rand; e.wickr_crypto_engine_ec_key_import = e_import; e.wickr_crypto_engine_ec_verify = e_verify; e.wickr_crypto_engine_ec_sign = e_sign;
    e.wickr_crypto_engine_digest = e_digest; e.wickr_crypto_engine_gen_shared_secret = e_secret; e.wickr_crypto_kdf_meta = e_kdf;
    e.wickr_crypto_engine_cipher_encrypt = e_enc; e.wickr_crypto_engine_cipher_decrypt = e_dec;
    wickr_transport_handshake_t *h = wickr_transport_handshake_create(e, chain(), PIN ? chain() : NULL, on_identity, 3, NULL);
    wickr_transport_packet_t *p1 = NULL;
    if (INIT) { p1 = wickr_transport_handshake_start(h); vf_assert(p1, "started"); }
    vf_pb_attack = true;
    verified_chain = verified_packet = false;
    wickr_transport_packet_meta_t m;
    memset(&m, 0, sizeof(m));
    wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_EC_P521);
    wickr_transport_packet_t *p = wickr_transport_packet_create(m, L_fill(2, 9));
    p->mac = L_fill(143, 0);
    p->mac->bytes[0] = (EC_CURVE_NIST_P521.identifier << 4) | DIGEST_SHA_512.digest_id;
    p->network_buffer = wickr_transport_packet_serialize(p);
    wickr_transport_packet_t *t = wickr_transport_handshake_process(h, p);
    wickr_transport_handshake_status st = wickr_transport_handshake_get_status(h);
    vf_assert(st == TRANSPORT_HANDSHAKE_STATUS_FAILED || st == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION || st == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION, "processing ends in a definite state");
    vf_assert(st == TRANSPORT_HANDSHAKE_STATUS_FAILED || (verified_chain && verified_packet), "anything but failure needs a signature accepted under a valid chain");
    vf_assert(!t || (st == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION && !INIT), "only a responder that is ready answers");
    vf_assert((n_cb == 1) == (st == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION), "the identity is presented exactly when a verdict is awaited");
    vf_assert(PIN ? st != TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION : st != TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION, "an unknown peer always needs a verdict");
    wickr_transport_packet_destroy(&t); wickr_transport_packet_destroy(&p); wickr_transport_packet_destroy(&p1);
    wickr_transport_handshake_destroy(&h);
    if (st == TRANSPORT_HANDSHAKE_STATUS_FAILED) VF_REACH("refused");
    else VF_REACH("accepted");
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
