/* Transport handshakes between two parties: genuine ones, and ones whose messages are replaced, changed or reordered. */
#include "vf_engine.h"
#include "vf_lite.h"
#include "transport_handshake.h"
#include "transport_packet.h"
#include "stream_key.h"
#include "identity.h"
#ifndef PIN_I
#define PIN_I 0   /* the initiator already knows the responder */
#endif
#ifndef PIN_R
#define PIN_R 0   /* the responder already knows the initiator */
#endif
#ifndef POS
#define POS 0
#endif
#ifndef ATTACK
#define ATTACK 0
#endif
static wickr_crypto_engine_t e;
static wickr_identity_chain_t *party(uint8_t n, bool good)
{
    uint8_t id[2] = { 0x70, n };
    wickr_ec_key_t *rk = vf_key_new(true), *nk = vf_key_new(true);
    wickr_identity_t *root = wickr_identity_create(IDENTITY_TYPE_ROOT, L_buf(id, 2), rk, NULL);
    wickr_ecdsa_result_t *s = e.wickr_crypto_engine_ec_sign(good ? rk : nk, nk->pub_data, DIGEST_SHA_512);
    id[0] = 0x71;
    return wickr_identity_chain_create(root, wickr_identity_create(IDENTITY_TYPE_NODE, L_buf(id, 2), nk, s));
}
static unsigned n_cb;
static wickr_identity_chain_t *seen;
static void on_identity(const wickr_transport_handshake_t *h, wickr_identity_chain_t *id, void *user)
{
    n_cb++;
    wickr_identity_chain_destroy(&seen);
    seen = id;
}
/* every key derivation from the moment the record is opened */
static wickr_buffer_t *salts[4];
static unsigned n_salts;
static bool recording;
static wickr_kdf_result_t *kdf_rec(const wickr_kdf_meta_t *meta, const wickr_buffer_t *pass)
{
    if (recording && n_salts < 4) salts[n_salts++] = meta->salt ? L_buf(meta->salt->bytes, meta->salt->length) : NULL;
    return wickr_perform_kdf_meta(meta, pass);
}
static wickr_transport_handshake_t *mk(wickr_identity_chain_t *me, wickr_identity_chain_t *peer, uint32_t ppe)
{
    return wickr_transport_handshake_create(e, wickr_identity_chain_copy(me), peer ? wickr_identity_chain_copy(peer) : NULL, on_identity, ppe, NULL);
}
static wickr_transport_packet_t *send(wickr_transport_packet_t *p, wickr_buffer_t **w)
{
    *w = wickr_transport_packet_serialize(p);
    vf_assert(*w, "handshake message serializes");
    return wickr_transport_packet_create_from_buffer(*w);
}
static bool same_chain(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b)
{
    return vf_buf_eq(a->root->sig_key->pub_data, b->root->sig_key->pub_data) & vf_buf_eq(a->node->sig_key->pub_data, b->node->sig_key->pub_data) & vf_buf_eq(a->root->identifier, b->root->identifier) & vf_buf_eq(a->node->identifier, b->node->identifier);
}
static bool same_key(const wickr_stream_key_t *a, const wickr_stream_key_t *b)
{
    return (a->cipher_key->cipher.cipher_id == b->cipher_key->cipher.cipher_id) & vf_buf_eq(a->cipher_key->key_data, b->cipher_key->key_data) & vf_buf_eq(a->evolution_key, b->evolution_key) & (a->packets_per_evolution == b->packets_per_evolution);
}
/* a failed handshake stays failed and has no keys */
static void failed(wickr_transport_handshake_t *h)
{
    vf_assert(wickr_transport_handshake_get_status(h) == TRANSPORT_HANDSHAKE_STATUS_FAILED, "the handshake fails");
    vf_assert(!wickr_transport_handshake_verify_identity(h, true), "accepting the identity of a failed handshake does not revive it");
    vf_assert(wickr_transport_handshake_get_status(h) == TRANSPORT_HANDSHAKE_STATUS_FAILED, "still failed");
    vf_assert(!wickr_transport_handshake_finalize(h), "a failed handshake yields no keys");
    vf_assert(wickr_transport_handshake_get_status(h) == TRANSPORT_HANDSHAKE_STATUS_FAILED, "still failed");
}
int main(void)
{
    e = vf_engine();
    e.wickr_crypto_kdf_meta = kdf_rec;
    wickr_identity_chain_t *A = party(1, ATTACK != 3), *B = party(2, ATTACK != 4), *M = party(3, true);
    uint32_t ppe = 7;
    wickr_transport_handshake_t *i = mk(A, PIN_I ? (ATTACK == 5 ? M : B) : NULL, 9), *r = mk(B, PIN_R ? (ATTACK == 6 ? M : A) : NULL, ppe);
    wickr_buffer_t *w1 = NULL, *w2 = NULL;
    wickr_transport_packet_t *p1 = wickr_transport_handshake_start(i), *q1, *p2 = NULL, *q2 = NULL, *t;
    vf_assert(p1, "the initiator starts");
    vf_assert(wickr_transport_handshake_get_status(i) == TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS, "in progress");
    q1 = send(p1, &w1);
    vf_assert(q1, "the seed parses");
#if ATTACK == 1 || ATTACK == 2
    /* a changed seed: AT 0 header, 1 body, 2 first byte of the signature, 3 last one */
    {
        uint8_t x = vf_nd_u8(); vf_assume(x != 0);
        size_t sig0 = w1->length - 143;
        wickr_buffer_t *c = L_buf(w1->bytes, w1->length);
        c->bytes[AT == 0 ? POS : AT == 1 ? 10 : AT == 2 ? sig0 : c->length - 1] ^= x;
        wickr_transport_packet_destroy(&q1);
        q1 = wickr_transport_packet_create_from_buffer(c);
        L_free(c);
        if (q1) { t = wickr_transport_handshake_process(r, q1); vf_assert(!t, "no answer to a changed seed"); vf_assert(n_cb == 0, "no identity is presented for it"); failed(r); }
        goto done;
    }
#endif
#if ATTACK == 7
    /* the seed reaches the initiator itself */
    t = wickr_transport_handshake_process(i, q1);
    vf_assert(!t, "no answer"); vf_assert(n_cb == 0, "nobody presented"); failed(i);
    goto done;
#endif
#if ATTACK == 8
    /* a seed re-signed by somebody else, claiming the identity of A */
    { wickr_transport_packet_t *f = wickr_transport_packet_create(q1->meta, wickr_buffer_copy(q1->body));
      f->meta.mac_type = TRANSPORT_MAC_TYPE_NONE;
#ifndef UNSIGNED
      vf_assert(wickr_transport_packet_sign(f, &e, M), "attacker signs");
#endif
      wickr_buffer_t *fw = wickr_transport_packet_serialize(f);
      wickr_transport_packet_t *fq = wickr_transport_packet_create_from_buffer(fw);
      vf_assert(fq, "parses");
      t = wickr_transport_handshake_process(r, fq);
      vf_assert(!t, "no answer"); vf_assert(n_cb == 0, "nobody presented"); failed(r);
      wickr_transport_packet_destroy(&f); wickr_transport_packet_destroy(&fq); wickr_buffer_destroy(&fw);
      goto done; }
#endif
    p2 = wickr_transport_handshake_process(r, q1);
#if ATTACK == 3 || (ATTACK == 6 && PIN_R)
    /* the chain of the initiator is not valid, or is not the expected one */
    vf_assert(!p2, "no answer"); vf_assert(n_cb == 0, "nobody presented"); failed(r);
    goto done;
#endif
    if (!PIN_R) {
        vf_assert(!p2, "no answer before the identity is accepted"); vf_assert(n_cb == 1, "identity presented once"); vf_assert(same_chain(seen, A), "the identity presented is the initiator's");
        vf_assert(wickr_transport_handshake_get_status(r) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION, "waiting for the verdict");
#if ATTACK == 9
        vf_assert(!wickr_transport_handshake_verify_identity(r, false), "a refused identity gets no answer"); failed(r);
        goto done;
#elif ATTACK == 10
        vf_assert(!wickr_transport_handshake_finalize(r), "no keys before the identity is accepted"); failed(r);
        goto done;
#elif ATTACK == 11
        vf_assert(!wickr_transport_handshake_process(r, q1), "no second message is processed meanwhile"); failed(r);
        goto done;
#endif
        p2 = wickr_transport_handshake_verify_identity(r, true);
    } else vf_assert(n_cb == 0, "a known identity is not presented");
    vf_assert(p2, "the responder answers");
    vf_assert(wickr_transport_handshake_get_status(r) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION, "responder ready");
    q2 = send(p2, &w2);
    vf_assert(q2, "the response parses");
#if ATTACK == 12
    /* a changed response */
    {
        uint8_t x = vf_nd_u8(); vf_assume(x != 0);
        size_t sig0 = w2->length - 143;
        wickr_buffer_t *c = L_buf(w2->bytes, w2->length);
        c->bytes[AT == 0 ? POS : AT == 1 ? 10 : AT == 2 ? sig0 : c->length - 1] ^= x;
        wickr_transport_packet_destroy(&q2);
        q2 = wickr_transport_packet_create_from_buffer(c);
        L_free(c);
        n_cb = 0;
        if (q2) { t = wickr_transport_handshake_process(i, q2); vf_assert(!t, "no answer"); vf_assert(n_cb == 0, "no identity is presented for it"); failed(i); }
        goto done;
    }
#elif ATTACK == 13
    /* the response belongs to another handshake between the same parties */
    {
        wickr_transport_handshake_t *j = mk(A, PIN_I ? B : NULL, 9);
        wickr_transport_packet_t *pj = wickr_transport_handshake_start(j);
        vf_assert(pj, "second handshake"); n_cb = 0;
        t = wickr_transport_handshake_process(j, q2);
        vf_assert(!t, "no answer"); vf_assert(n_cb == 0, "nobody presented"); failed(j);
        wickr_transport_packet_destroy(&pj); wickr_transport_handshake_destroy(&j);
        goto done;
    }
#elif ATTACK == 14
    /* a response sent to a fresh responder */
    { wickr_transport_handshake_t *j = mk(A, PIN_I ? B : NULL, 9); n_cb = 0;
      t = wickr_transport_handshake_process(j, q2); vf_assert(!t, "no answer"); vf_assert(n_cb == 0, "nobody presented"); failed(j); wickr_transport_handshake_destroy(&j); goto done; }
#elif ATTACK == 15
    /* a response taken over by somebody else, signed and identified as M or as B */
    { wickr_transport_packet_t *f = wickr_transport_packet_create(q2->meta, wickr_buffer_copy(q2->body));
      f->meta.mac_type = TRANSPORT_MAC_TYPE_NONE;
      vf_assert(wickr_transport_packet_sign(f, &e, M), "attacker signs");
      wickr_buffer_t *fw = wickr_transport_packet_serialize(f);
      wickr_transport_packet_t *fq = wickr_transport_packet_create_from_buffer(fw);
      n_cb = 0;
      t = wickr_transport_handshake_process(i, fq);
      vf_assert(!t, "no answer"); vf_assert(n_cb == 0, "nobody presented"); failed(i);
      wickr_transport_packet_destroy(&f); wickr_transport_packet_destroy(&fq); wickr_buffer_destroy(&fw);
      goto done; }
#endif
    n_cb = 0;
    t = wickr_transport_handshake_process(i, q2);
    vf_assert(!t, "nothing follows the response");
#if ATTACK == 4 || (ATTACK == 5 && PIN_I)
    vf_assert(n_cb == 0, "nobody presented"); failed(i);
    goto done;
#endif
    if (!PIN_I) {
        vf_assert(n_cb == 1, "identity presented once"); vf_assert(same_chain(seen, B), "the identity presented is the responder's");
        vf_assert(wickr_transport_handshake_get_status(i) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION, "waiting for the verdict");
#if ATTACK == 16
        wickr_transport_handshake_verify_identity(i, false); failed(i); goto done;
#elif ATTACK == 17
        vf_assert(!wickr_transport_handshake_finalize(i), "no keys before the identity is accepted"); failed(i); goto done;
#endif
        vf_assert(!wickr_transport_handshake_verify_identity(i, true), "nothing follows");
    } else vf_assert(n_cb == 0, "a known identity is not presented");
    vf_assert(wickr_transport_handshake_get_status(i) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION, "initiator ready");
#if ATTACK == 18
    vf_assert(!wickr_transport_handshake_process(i, q2), "no second response"); failed(i); goto done;
#endif
    {
    recording = true;
#ifdef COPY
    { wickr_transport_handshake_t *c = wickr_transport_handshake_copy(i); vf_assert(c, "copy of a handshake"); wickr_transport_handshake_destroy(&i); i = c; }
    { wickr_transport_handshake_t *c = wickr_transport_handshake_copy(r); vf_assert(c, "copy of a handshake"); wickr_transport_handshake_destroy(&r); r = c; }
#endif
    wickr_transport_handshake_res_t *ki = wickr_transport_handshake_finalize(i), *kr = wickr_transport_handshake_finalize(r);
    recording = false;
    vf_assert(ki, "initiator keys"); vf_assert(kr, "responder keys");
    vf_assert(wickr_transport_handshake_get_status(i) == TRANSPORT_HANDSHAKE_STATUS_COMPLETE, "complete"); vf_assert(wickr_transport_handshake_get_status(r) == TRANSPORT_HANDSHAKE_STATUS_COMPLETE, "complete");
    vf_assert(same_chain(wickr_transport_handshake_get_remote_identity(i), B), "the initiator knows the responder"); vf_assert(same_chain(wickr_transport_handshake_get_remote_identity(r), A), "the responder knows the initiator");
    const wickr_stream_key_t *il = wickr_transport_handshake_res_get_local_key(ki), *ir = wickr_transport_handshake_res_get_remote_key(ki), *rl = wickr_transport_handshake_res_get_local_key(kr), *rr = wickr_transport_handshake_res_get_remote_key(kr);
    vf_assert(same_key(il, rr), "what the initiator sends with, the responder receives with"); vf_assert(same_key(rl, ir), "what the responder sends with, the initiator receives with");
    vf_assert(!vf_buf_eq(il->cipher_key->key_data, rl->cipher_key->key_data), "the directions use different keys"); vf_assert(!vf_buf_eq(il->evolution_key, rl->evolution_key), "the directions use different keys");
    vf_assert(il->packets_per_evolution == ppe, "the evolution rate is the responder's"); vf_assert(rl->packets_per_evolution == ppe, "the evolution rate is the responder's");
    vf_assert(il->cipher_key->cipher.cipher_id == CIPHER_ID_AES256_GCM, "cipher"); vf_assert(rl->cipher_key->cipher.cipher_id == CIPHER_ID_AES256_GCM, "cipher");
    /* bound to the messages */
    wickr_buffer_t *tr = wickr_buffer_concat(w1, w2), *th = e.wickr_crypto_engine_digest(tr, NULL, DIGEST_SHA_512);
    vf_assert(n_salts == 4, "two keys on each side");
    for (unsigned k = 0; k < 4; k++) { vf_assert(vf_buf_eq(salts[k], th), "every key is derived with the hash of both messages"); L_free(salts[k]); }
    wickr_buffer_destroy(&tr); wickr_buffer_destroy(&th);
    vf_assert(!wickr_transport_handshake_finalize(i), "keys are handed out once");
    wickr_transport_handshake_res_t *kc = wickr_transport_handshake_res_copy(ki);
    vf_assert(kc, "copy of the keys");
    wickr_transport_handshake_res_destroy(&ki); wickr_transport_handshake_res_destroy(&kr);
    vf_assert(wickr_transport_handshake_res_get_local_key(kc)->packets_per_evolution == ppe, "outlives the original");
    wickr_transport_handshake_res_destroy(&kc);
    }
done:
    wickr_identity_chain_destroy(&seen);
    wickr_transport_packet_destroy(&p1); wickr_transport_packet_destroy(&q1); wickr_transport_packet_destroy(&p2); wickr_transport_packet_destroy(&q2);
    wickr_buffer_destroy(&w1); wickr_buffer_destroy(&w2);
    wickr_transport_handshake_destroy(&i); wickr_transport_handshake_destroy(&r);
    wickr_identity_chain_destroy(&A); wickr_identity_chain_destroy(&B); wickr_identity_chain_destroy(&M);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
