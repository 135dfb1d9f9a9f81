/* Node verdict: valid exactly when root signed the node key and the node key signed the ephemeral key,
   whatever was verified, replaced, rotated, copied or re-validated before. */
#include "vf_engine.h"
#include "node.h"

static wickr_identity_t *mk(wickr_identity_type t, bool sig)
{
    uint8_t id[4] = { 9, 8, 7, t };
    return wickr_identity_create(t, vf_buf(id, 4), vf_pub_nd(), sig ? vf_sig_nd() : NULL);
}
static void nd_mode(wickr_ecdsa_result_t *s) { bool o = vf_nd_bool(); s->digest_mode.digest_id = o ? DIGEST_ID_SHA256 : DIGEST_ID_SHA512; s->digest_mode.size = o ? 32 : 64; }
static wickr_identity_chain_t *mkchain(void)
{
    wickr_identity_chain_t *c = wickr_identity_chain_create(mk(IDENTITY_TYPE_ROOT, false), mk(IDENTITY_TYPE_NODE, true));
    nd_mode(c->node->signature);
    return c;
}
static wickr_ephemeral_keypair_t *mkkp(void)
{
    wickr_ephemeral_keypair_t *k = wickr_ephemeral_keypair_create(7, vf_pub_nd(), vf_sig_nd());
    nd_mode(k->signature);
    return k;
}
static bool fresh(wickr_node_t *n)
{
    return vf_is_signed(n->id_chain->node->signature, n->id_chain->root->sig_key, n->id_chain->node->sig_key->pub_data) &
           vf_is_signed(n->ephemeral_keypair->signature, n->id_chain->node->sig_key, n->ephemeral_keypair->ec_key->pub_data);
}

int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
    vf_eng_verify_oracle = true;
    uint8_t dev[4] = { 1, 2, 3, 4 };
    wickr_node_t *n = wickr_node_create(vf_buf(dev, 4), mkchain(), mkkp());

    bool want = fresh(n);
    bool got = wickr_node_verify_signature_chain(n, &e);
    vf_assert(got == want, "first node verdict equals a fresh verification of both links");
    vf_assert((n->status == NODE_STATUS_VALID) == want, "published node status after the first verification");

#ifdef COPY
    wickr_node_t *k = wickr_node_copy(n);
    vf_assert(k, "copy succeeds");
    wickr_node_destroy(&n);
    n = k;
#endif
#ifdef ROTATE
    wickr_ephemeral_keypair_t *nk = mkkp();
    vf_assert(wickr_node_rotate_keypair(n, nk, ROTATE == 2), "rotation succeeds");
    if (ROTATE == 2) wickr_ephemeral_keypair_destroy(&nk);
#endif
#ifdef SWAPCHAIN
    wickr_identity_chain_destroy(&n->id_chain);
    n->id_chain = mkchain();
#endif
#ifdef EDIT
    wickr_ec_key_destroy(&n->id_chain->root->sig_key); n->id_chain->root->sig_key = vf_pub_nd();
    wickr_ec_key_destroy(&n->id_chain->node->sig_key); n->id_chain->node->sig_key = vf_pub_nd();
    wickr_ecdsa_result_destroy(&n->id_chain->node->signature); n->id_chain->node->signature = vf_sig_nd(); nd_mode(n->id_chain->node->signature);
    wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair);
    n->ephemeral_keypair = mkkp();
#endif
    want = fresh(n);
#ifdef REVALIDATE
    wickr_identity_chain_validate(n->id_chain, &e);
#endif
    got = wickr_node_verify_signature_chain(n, &e);
    vf_assert(got == want, "node verdict equals a fresh verification of both links");
    vf_assert((n->status == NODE_STATUS_VALID) == want, "published node status equals a fresh verification");
    wickr_node_destroy(&n);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
