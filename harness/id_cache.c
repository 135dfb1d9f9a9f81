/* Identity-chain verdict: whatever was validated before, the answer equals a fresh signature verification. */
#include "vf_engine.h"
#include "identity.h"

static wickr_identity_t *mk(wickr_identity_type t, bool sig)
{
    uint8_t id[4] = { 9, 8, 7, t };
    return wickr_identity_create(t, vf_buf(id, 4), vf_pub_nd(), sig ? vf_sig_nd() : NULL);
}

static void nd_mode(wickr_ecdsa_result_t *s) { bool o = vf_nd_bool(); s->digest_mode.digest_id = o ? DIGEST_ID_SHA256 : DIGEST_ID_SHA512; s->digest_mode.size = o ? 32 : 64; }

int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
    vf_eng_verify_oracle = true;
    wickr_identity_chain_t *c = wickr_identity_chain_create(mk(IDENTITY_TYPE_ROOT, false), mk(IDENTITY_TYPE_NODE, true));
    nd_mode(c->node->signature);
    for (int step = 0; step < STEPS; step++) {
        bool want = vf_is_signed(c->node->signature, c->root->sig_key, c->node->sig_key->pub_data);
        bool got = wickr_identity_chain_validate(c, &e);
        vf_assert(got == want, "identity chain verdict equals a fresh verification");
        vf_assert((c->status == IDENTITY_CHAIN_STATUS_VALID) == want, "published status equals a fresh verification");
        if (step == STEPS - 1) break;
        /* the caller swaps any part for an arbitrary one (which may equal the old one) */
#ifdef COPY
        { wickr_identity_chain_t *k = wickr_identity_chain_copy(c); vf_assert(k, "copy succeeds"); wickr_identity_chain_destroy(&c); c = k; }
#endif
        wickr_ec_key_destroy(&c->root->sig_key); c->root->sig_key = vf_pub_nd();
        wickr_ec_key_destroy(&c->node->sig_key); c->node->sig_key = vf_pub_nd();
        wickr_ecdsa_result_destroy(&c->node->signature); c->node->signature = vf_sig_nd(); nd_mode(c->node->signature);
    }
    wickr_identity_chain_destroy(&c);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
