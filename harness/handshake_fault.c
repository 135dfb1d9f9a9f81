/* A handshake in which any call into the crypto engine may fail: it is reported by the result and by the state, nothing leaks. */
#include "vf_engine.h"
#include "vf_lite.h"
#include "transport_handshake.h"
#include "transport_packet.h"
#include "stream_key.h"
#include "identity.h"
#ifndef PIN
#define PIN 0
#endif
static wickr_crypto_engine_t e;
static wickr_identity_chain_t *party(uint8_t n)
{
    uint8_t id[2] = { 0x70, n };
    wickr_ec_key_t *rk = vf_key_new(true), *nk = vf_key_new(true);
    wickr_identity_t *root = wickr_identity_create(IDENTITY_TYPE_ROOT, L_buf(id, 2), rk, NULL);
    wickr_ecdsa_result_t *s = e.wickr_crypto_engine_ec_sign(rk, nk->pub_data, DIGEST_SHA_512);
    return wickr_identity_chain_create(root, wickr_identity_create(IDENTITY_TYPE_NODE, L_buf(id, 2), nk, s));
}
static unsigned n_cb;
static void on_identity(const wickr_transport_handshake_t *h, wickr_identity_chain_t *id, void *user) { n_cb++; wickr_identity_chain_destroy(&id); }
static void dead(wickr_transport_handshake_t *h)
{
    vf_assert(wickr_transport_handshake_get_status(h) == TRANSPORT_HANDSHAKE_STATUS_FAILED, "a failure is visible in the state");
    vf_assert(!wickr_transport_handshake_finalize(h), "a failed handshake yields no keys");
}
int main(void)
{
    e = vf_engine();
    wickr_identity_chain_t *A = party(1), *B = party(2);
    wickr_transport_handshake_t *i = wickr_transport_handshake_create(e, A, PIN ? wickr_identity_chain_copy(B) : NULL, on_identity, 9, NULL);
    wickr_transport_handshake_t *r = wickr_transport_handshake_create(e, B, PIN ? wickr_identity_chain_copy(A) : NULL, on_identity, 7, NULL);
    wickr_transport_packet_t *p1 = NULL, *p2 = NULL, *t = NULL;
    wickr_transport_handshake_res_t *ki = NULL, *kr = NULL;
    vf_assert(i, "created"); vf_assert(r, "created");
#if PHASE == 1
    vf_eng_faults = true;
#endif
    p1 = wickr_transport_handshake_start(i);
    if (!p1) { dead(i); goto done; }
#if PHASE == 1
    VF_REACH("completed"); goto done;
#endif
#if PHASE == 2
    vf_eng_faults = true;
#endif
    p2 = wickr_transport_handshake_process(r, p1);
    if (!PIN && wickr_transport_handshake_get_status(r) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) {
        vf_assert(!p2, "no answer yet"); vf_assert(n_cb == 1, "presented");
        p2 = wickr_transport_handshake_verify_identity(r, true);
    }
    if (!p2) { dead(r); goto done; }
#if PHASE == 2
    VF_REACH("completed"); goto done;
#endif
#if PHASE == 3
    vf_eng_faults = true;
#endif
    t = wickr_transport_handshake_process(i, p2);
    vf_assert(!t, "no answer to the response");
    if (!PIN && wickr_transport_handshake_get_status(i) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) wickr_transport_handshake_verify_identity(i, true);
    if (wickr_transport_handshake_get_status(i) != TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) { dead(i); goto done; }
#if PHASE == 3
    VF_REACH("completed"); goto done;
#endif
#if PHASE == 4
    vf_eng_faults = true;
#endif
    ki = wickr_transport_handshake_finalize(i);
    if (!ki) { dead(i); goto done; }
    kr = wickr_transport_handshake_finalize(r);
    if (!kr) { dead(r); goto done; }
    vf_assert(vf_buf_eq(wickr_transport_handshake_res_get_local_key(ki)->cipher_key->key_data, wickr_transport_handshake_res_get_remote_key(kr)->cipher_key->key_data), "without failures the keys match");
#if PHASE == 4
    VF_REACH("completed");
#endif
done:
    vf_eng_faults = false;
    wickr_transport_handshake_res_destroy(&ki); wickr_transport_handshake_res_destroy(&kr);
    wickr_transport_packet_destroy(&p1); wickr_transport_packet_destroy(&p2);
    wickr_transport_handshake_destroy(&i); wickr_transport_handshake_destroy(&r);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
