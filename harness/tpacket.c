/* Transport packets: wire form and signatures. */
#include "vf_lite.h"
#include "transport_packet.h"
#include "ecdsa.h"
#ifndef BL
#define BL 2
#endif
#define SIG 143
/* the digest only names the material of a cached chain verdict: injective on it */
static wickr_buffer_t *e_digest(const wickr_buffer_t *b, const wickr_buffer_t *salt, wickr_digest_t m)
{
    vf_internal(!salt && b->length <= 64, "digest input");
    wickr_buffer_t *r = L_fill(64, (uint8_t)b->length);
    for (unsigned i = 0; i < b->length; i++) r->bytes[i] = b->bytes[i];
    return r;
}
static bool same_meta(const wickr_transport_packet_meta_t *a, const wickr_transport_packet_meta_t *b)
{
    if (a->body_type != b->body_type || a->mac_type != b->mac_type) return false;
    if (a->body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT) return a->body_meta.data.sequence_number == b->body_meta.data.sequence_number;
    return a->body_meta.handshake.protocol_version == b->body_meta.handshake.protocol_version && a->body_meta.handshake.flags == b->body_meta.handshake.flags;
}
#if CASE == 3
/* ideal signatures: exactly one (signature, key, data) triple per signing call verifies */
#define MAXS 5
static struct { uint8_t sig[2]; uint8_t key; uint8_t data[320]; size_t len; } rec[MAXS];
static unsigned nrec;
static wickr_ecdsa_result_t *e_sign(const wickr_ec_key_t *key, const wickr_buffer_t *data, const wickr_digest_t mode)
{
    vf_internal(nrec < MAXS, "signatures");
    vf_assert(key->pri_data, "signing inputs"); vf_assert(key->pri_data->length == 2, "signing inputs"); vf_assert(data, "signing inputs"); vf_assert(data->bytes, "signing inputs");
    vf_internal(data->length <= sizeof(rec[0].data), "signed data capacity");
    rec[nrec].sig[0] = 0x51; rec[nrec].sig[1] = (uint8_t)nrec; rec[nrec].key = key->pri_data->bytes[1]; rec[nrec].len = data->length;
    for (unsigned i = 0; i < data->length; i++) rec[nrec].data[i] = data->bytes[i];
    wickr_ecdsa_result_t *s = calloc(1, sizeof(*s));
    s->curve = key->curve; s->digest_mode = mode; s->sig_data = L_buf(rec[nrec].sig, 2);
    nrec++;
    return s;
}
static bool e_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *key, const wickr_buffer_t *data)
{
    bool ok = false;
    if (s->sig_data->length != 2 || key->pub_data->length != 2) return false;
    for (unsigned k = 0; k < MAXS; k++) if (k < nrec && rec[k].len == data->length) {
        bool m = s->sig_data->bytes[0] == rec[k].sig[0] && s->sig_data->bytes[1] == rec[k].sig[1] && key->pub_data->bytes[1] == rec[k].key && s->digest_mode.digest_id == DIGEST_ID_SHA512 && s->curve.identifier == key->curve.identifier;
        for (unsigned i = 0; i < data->length; i++) m = m && data->bytes[i] == rec[k].data[i];
        ok = ok || m;
    }
    return ok;
}
static wickr_ec_key_t *key(uint8_t n)
{
    uint8_t b[2] = { 4, n }, p[2] = { 0xA0, n };
    return wickr_ec_key_create(EC_CURVE_NIST_P521, L_buf(b, 2), L_buf(p, 2));
}
static wickr_identity_chain_t *chain(wickr_crypto_engine_t *e, uint8_t n, bool good)
{
    uint8_t id[2] = { 1, n };
    wickr_ec_key_t *rk = key(100 + n), *nk = key(n);
    wickr_identity_t *root = wickr_identity_create(IDENTITY_TYPE_ROOT, L_buf(id, 2), rk, NULL);
    wickr_ecdsa_result_t *s = e_sign(good ? rk : nk, nk->pub_data, DIGEST_SHA_512);
    id[0] = 2;
    return wickr_identity_chain_create(root, wickr_identity_create(IDENTITY_TYPE_NODE, L_buf(id, 2), nk, s));
}
#endif
int main(void)
{
#if CASE == 1
    wickr_transport_packet_meta_t m;
    memset(&m, 0, sizeof(m));
    uint8_t mac = MAC ? 2 : (uint8_t)vf_nd_fork(0, 1);
    bool hs = vf_nd_fork(0, 1);
    if (hs) { wickr_transport_packet_meta_initialize_handshake(&m, vf_nd_u8(), mac); m.body_meta.handshake.flags = vf_nd_u64(); }
    else wickr_transport_packet_meta_initialize_data(&m, vf_nd_u64(), mac);
    wickr_buffer_t *body = L_nd(BL), *sig = MAC ? L_nd(SIG) : NULL;
    wickr_transport_packet_t *p = wickr_transport_packet_create(m, body);
    vf_assert(p, "created"); vf_assert(p->body == body, "created"); vf_assert(same_meta(&p->meta, &m), "created");
    bool with = MAC;
    if (with) p->mac = sig;
    wickr_buffer_t *w = wickr_transport_packet_serialize(p);
    size_t h = hs ? 10 : 9;
    vf_assert(w, "wire size"); vf_assert(w->length == h + BL + (with ? SIG : 0), "wire size");
    vf_assert(w->bytes[0] == (((hs ? 0 : 1) << 4) | mac), "types");
    for (unsigned i = 0; i < BL; i++) vf_assert(w->bytes[h + i] == body->bytes[i], "body on the wire");
    if (with) for (unsigned i = 0; i < SIG; i++) vf_assert(w->bytes[h + BL + i] == sig->bytes[i], "signature on the wire");
    wickr_transport_packet_t *q = wickr_transport_packet_create_from_buffer(w);
    vf_assert(q, "parsing returns the packet"); vf_assert(same_meta(&q->meta, &m), "parsing returns the packet"); vf_assert(L_eq(q->body, body), "parsing returns the packet"); vf_assert(L_eq(q->mac, with ? sig : NULL), "parsing returns the packet"); vf_assert(L_eq(q->network_buffer, w), "parsing returns the packet");
    wickr_transport_packet_t *c = wickr_transport_packet_copy(p);
    vf_assert(c, "copy"); vf_assert(same_meta(&c->meta, &m), "copy"); vf_assert(c->body != p->body, "copy"); vf_assert(L_eq(c->body, p->body), "copy"); vf_assert(L_eq(c->mac, p->mac), "copy"); vf_assert((!c->mac || c->mac != p->mac), "copy");
    wickr_buffer_t *w2 = wickr_transport_packet_serialize(c), *w3 = wickr_transport_packet_serialize(q);
    vf_assert(L_eq(w, w2), "copy and parsed packet have the same wire form"); vf_assert(L_eq(w, w3), "copy and parsed packet have the same wire form");
    vf_assert(!wickr_transport_packet_create(m, NULL), "nothing"); vf_assert(!wickr_transport_packet_copy(NULL), "nothing"); vf_assert(!wickr_transport_packet_serialize(NULL), "nothing"); vf_assert(!wickr_transport_packet_create_from_buffer(NULL), "nothing");
    wickr_transport_packet_destroy(&p); wickr_transport_packet_destroy(&q); wickr_transport_packet_destroy(&c);
    wickr_buffer_destroy(&w); wickr_buffer_destroy(&w2); wickr_buffer_destroy(&w3);
#elif CASE == 2
    wickr_buffer_t *b = L_nd(LEN);
#ifdef FIRST
    b->bytes[0] = FIRST;
#endif
    wickr_transport_packet_t *q = wickr_transport_packet_create_from_buffer(b);
    if (LEN == 0) vf_assert(!q, "nothing parses from nothing");
    else {
        uint8_t ty = b->bytes[0] >> 4, mac = b->bytes[0] & 15;
        size_t h, s; /* one path each */
        if (ty == 0) h = 10; else h = 9;
        if (mac == 2) s = SIG; else s = 0;
        vf_assert((q != NULL) == (ty <= 1 && LEN > h + s), "parsed exactly when the type is known and a body is left");
        if (q) {
            vf_assert(q->meta.body_type == ty, "types"); vf_assert(q->meta.mac_type == mac, "types");
            if (ty == 1) vf_assert(!memcmp(&q->meta.body_meta.data.sequence_number, b->bytes + 1, 8), "sequence number");
            else vf_assert(q->meta.body_meta.handshake.protocol_version == b->bytes[1] && !memcmp(&q->meta.body_meta.handshake.flags, b->bytes + 2, 8), "handshake header");
            vf_assert(vf_beq(q->body->bytes, q->body->length, b->bytes + h, LEN - h - s), "body");
            vf_assert(s ? q->mac && q->mac->length == SIG : !q->mac, "signature present exactly for signed packets");
            for (unsigned i = 0; i < SIG; i++) if (s && LEN > SIG) vf_assert(q->mac->bytes[i] == b->bytes[LEN - SIG + i], "signature bytes");
            vf_assert(L_eq(q->network_buffer, b), "the received bytes are kept");
            wickr_buffer_t *w = wickr_transport_packet_serialize(q);
            vf_assert(L_eq(w, b), "serializing a parsed packet gives the received bytes");
            wickr_buffer_destroy(&w);
        }
    }
    wickr_transport_packet_destroy(&q);
    wickr_transport_packet_meta_t m;
    int n = wickr_transport_packet_meta_initialize_buffer(&m, b);
    vf_assert(n < 0 || (size_t)n <= LEN, "a header lies within the packet");
    vf_assert(wickr_transport_packet_meta_initialize_buffer(&m, NULL) < 0, "no header without a packet");
    L_free(b);
#elif CASE == 3
    wickr_crypto_engine_t e; memset(&e, 0, sizeof(e));
    e.wickr_crypto_engine_digest = e_digest; e.wickr_crypto_engine_ec_sign = e_sign; e.wickr_crypto_engine_ec_verify = e_verify;
    const bool goodA = GOOD;
    wickr_identity_chain_t *A = chain(&e, 1, goodA), *B = chain(&e, 2, true);
    if (PRE) wickr_identity_chain_validate(A, &e);
    wickr_transport_packet_meta_t m;
    memset(&m, 0, sizeof(m));
    bool hs = HS;
    if (hs) { wickr_transport_packet_meta_initialize_handshake(&m, vf_nd_u8(), TRANSPORT_MAC_TYPE_NONE); m.body_meta.handshake.flags = vf_nd_u64(); }
    else wickr_transport_packet_meta_initialize_data(&m, vf_nd_u64(), TRANSPORT_MAC_TYPE_NONE);
    wickr_transport_packet_t *p = wickr_transport_packet_create(m, L_nd(BL));
    vf_assert(!wickr_transport_packet_verify(p, &e, A), "an unsigned packet does not verify");
    wickr_transport_packet_destroy(&p);
    p = wickr_transport_packet_create(m, L_nd(BL));
#ifdef RESIGN
    vf_assert(wickr_transport_packet_sign(p, &e, B), "first signature");
#endif
    vf_assert(wickr_transport_packet_sign(p, &e, A), "signing succeeds");
    vf_assert(p->meta.mac_type == TRANSPORT_MAC_TYPE_EC_P521, "signed"); vf_assert(p->mac, "signed"); vf_assert(p->mac->length == SIG, "signed");
    wickr_buffer_t *w = wickr_transport_packet_serialize(p);
    vf_assert(w, "the signed packet is what is sent"); vf_assert(L_eq(w, p->network_buffer), "the signed packet is what is sent");
    vf_assert(wickr_transport_packet_verify(p, &e, A) == goodA, "verifies locally exactly under a valid chain");
    wickr_transport_packet_t *q = wickr_transport_packet_create_from_buffer(w);
    vf_assert(q, "verifies exactly under the valid chain of its signer"); vf_assert(wickr_transport_packet_verify(q, &e, A) == goodA, "verifies exactly under the valid chain of its signer");
    vf_assert(!wickr_transport_packet_verify(q, &e, B), "not under another signer");
    vf_assert(!wickr_transport_packet_verify(q, &e, NULL), "nothing"); vf_assert(!wickr_transport_packet_verify(NULL, &e, A), "nothing"); vf_assert(!wickr_transport_packet_sign(q, &e, NULL), "nothing"); vf_assert(!wickr_transport_packet_sign(NULL, &e, A), "nothing");
    wickr_transport_packet_t *c = wickr_transport_packet_copy(q);
    vf_assert(c, "so does its copy"); vf_assert(wickr_transport_packet_verify(c, &e, A) == goodA, "so does its copy");
    vf_assert(wickr_transport_packet_verify(c, &e, A) == goodA, "and again");
    wickr_transport_packet_destroy(&c);
    /* any changed byte outside the padding of the signature */
    wickr_buffer_t *t = L_buf(w->bytes, w->length);
    uint32_t where = WHERE; uint8_t x = vf_nd_u8();
    vf_assume(x != 0);
    size_t sig0 = t->length - SIG, at = where == 1 ? sig0 : where == 2 ? sig0 + 1 : where == 3 ? t->length - 1 : where == 4 ? t->length - 2 : 0;
    if (where == 0) { uint32_t k = vf_nd_u32(); vf_assume(k < sig0); for (unsigned i = 0; i < sig0; i++) t->bytes[i] ^= i == k ? x : 0; }
    else t->bytes[at] ^= x;
    wickr_transport_packet_t *f = wickr_transport_packet_create_from_buffer(t);
    vf_assert(!f || !wickr_transport_packet_verify(f, &e, A), "a changed packet does not verify");
    wickr_transport_packet_destroy(&f); L_free(t);
    if (goodA) { /* a chain that changed since it was last validated: its node key is not the one its root signed */
        wickr_transport_packet_t *z = wickr_transport_packet_create(m, L_nd(BL));
        vf_assert(wickr_transport_packet_sign(z, &e, B), "signed by another signer");
        wickr_ec_key_destroy(&A->node->sig_key); A->node->sig_key = wickr_ec_key_copy(B->node->sig_key);
        vf_assert(!wickr_transport_packet_verify(z, &e, A), "a chain whose node key was replaced verifies nothing");
        vf_assert(!wickr_transport_packet_verify(p, &e, A), "a chain whose node key was replaced verifies nothing");
        wickr_transport_packet_destroy(&z);
    }
    wickr_transport_packet_destroy(&p); wickr_transport_packet_destroy(&q);
    wickr_buffer_destroy(&w);
    wickr_identity_chain_destroy(&A); wickr_identity_chain_destroy(&B);
#endif
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
