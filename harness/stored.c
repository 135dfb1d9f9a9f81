/* Stored forms of keys, identities and contexts restore what was stored.
   OBJ 1 root keys under a recovery key, 2 storage keys, 3 context, 4 identity, 5 chain, 6 node, 7 message keypair,
   8 data under the storage keys, 9 recovered context (recovery data, or passphrase) */
#include "vf_engine.h"
#include "vf_pb.h"
#include "wickr_ctx.h"
#include "memory.h"
#ifndef STEP
#define STEP 0
#endif
#ifndef POS
#define POS 0
#endif
static wickr_crypto_engine_t e;
static wickr_dev_info_t *mkdev(uint8_t i)
{
    uint8_t sys[2] = { 0x30, i };
    wickr_buffer_t *sid = vf_buf(sys, 2);
    wickr_dev_info_t *d = wickr_dev_info_create_new(&e, sid);
    wickr_buffer_destroy(&sid);
    return d;
}
static bool ck_eq(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b) { return a && b && a != b && a->key_data != b->key_data && a->cipher.cipher_id == b->cipher.cipher_id && vf_buf_eq(a->key_data, b->key_data); }
static bool sig_eq(const wickr_ecdsa_result_t *a, const wickr_ecdsa_result_t *b) { return !a ? !b : b && a != b && a->digest_mode.digest_id == b->digest_mode.digest_id && a->curve.identifier == b->curve.identifier && vf_buf_eq(a->sig_data, b->sig_data); }
static bool key_eq(const wickr_ec_key_t *a, const wickr_ec_key_t *b, bool pri) { return a && b && a != b && a->curve.identifier == b->curve.identifier && vf_buf_eq(a->pub_data, b->pub_data) && (pri ? vf_buf_eq(a->pri_data, b->pri_data) : !b->pri_data); }
static bool id_eq(const wickr_identity_t *a, const wickr_identity_t *b, bool pri)
{
    return a && b && a != b && a->type == b->type && vf_buf_eq(a->identifier, b->identifier) && key_eq(a->sig_key, b->sig_key, pri) && sig_eq(a->signature, b->signature);
}
static bool dev_eq(const wickr_dev_info_t *a, const wickr_dev_info_t *b) { return vf_buf_eq(a->dev_salt, b->dev_salt) && vf_buf_eq(a->system_salt, b->system_salt) && vf_buf_eq(a->msg_proto_id, b->msg_proto_id) && vf_buf_eq(a->srv_comm_id, b->srv_comm_id); }
static bool roots_eq(const wickr_root_keys_t *a, const wickr_root_keys_t *b) { return a && b && key_eq(a->node_signature_root, b->node_signature_root, true) && ck_eq(a->node_storage_root, b->node_storage_root) && ck_eq(a->remote_storage_root, b->remote_storage_root); }
#ifdef FAULTS
#define FON() (vf_eng_faults = true)
#define FOFF() (vf_eng_faults = false)
#define STOP(o, what) do { FOFF(); if (!(o)) { VF_REACH(what " failed"); goto end; } } while (0)
#else
#define FON() ((void)0)
#define FOFF() ((void)0)
#define STOP(o, what) vf_assert((o), what " succeeds")
#endif
int main(void)
{
    e = vf_engine();
#ifdef CTR
    e.default_cipher = CIPHER_AES256_CTR;
#endif
    wickr_dev_info_t *dev = mkdev(1), *dev2 = NULL;
    uint8_t idb[3] = { 0x40, 1, 0x41 };
    wickr_buffer_t *id = vf_buf(idb, 3), *b = NULL, *b2 = NULL, *xk = NULL;
    wickr_ctx_gen_result_t *G = NULL, *R = NULL;
    wickr_root_keys_t *rk = NULL, *rk2 = NULL;
    wickr_storage_keys_t *sk = NULL;
    wickr_ctx_t *c2 = NULL;
    wickr_cipher_key_t *ck = NULL;
    wickr_cipher_result_t *cr = NULL;
    wickr_identity_t *i2 = NULL; wickr_identity_chain_t *ch2 = NULL; wickr_node_t *n1 = NULL, *n2 = NULL; wickr_ephemeral_keypair_t *k1 = NULL, *k2 = NULL;
#if STEP == 1
    FON();
#endif
    G = wickr_ctx_gen_new(e, dev, id);
#if STEP == 0
    vf_assert(G, "context");
#else
    STOP(G, "creating a context");
    vf_assert(G->ctx && G->recovery_key && G->root_keys, "a new context is complete");
    vf_assert(G->ctx->dev_info != dev && dev_eq(G->ctx->dev_info, dev) && G->ctx->id_chain->root->identifier != id && vf_buf_eq(G->ctx->id_chain->root->identifier, id), "the inputs stay with the caller");
    vf_assert(wickr_identity_chain_validate(G->ctx->id_chain, &e), "a new context has a valid chain");
    goto end;
#endif
#if OBJ == 1
    FON();
    b = wickr_ctx_gen_result_make_recovery(G);
    STOP(b, "making recovery data");
    vf_assert(b->length > 29 && b->bytes[0] == e.default_cipher.cipher_id, "recovery data is ciphertext");
    vf_assert(vf_beq(vf_enc->key, vf_enc->key_len, G->recovery_key->key_data->bytes, 32), "under the recovery key");
    FON();
    rk = wickr_ctx_gen_import_recovery(e, b, G->recovery_key);
    STOP(rk, "importing recovery data");
    vf_assert(roots_eq(G->root_keys, rk), "recovery data restores the root keys");
    rk2 = wickr_root_keys_copy(rk);
    vf_assert(roots_eq(rk, rk2), "root keys copy");
#ifdef TAMPER
    { uint8_t d = vf_nd_u8(); vf_assume(d); b->bytes[POS < 0 ? b->length + POS : POS] ^= d; wickr_root_keys_t *x = wickr_ctx_gen_import_recovery(e, b, G->recovery_key); vf_assert(!x, "changed recovery data restores nothing"); VF_REACH("changed"); }
#else
    ck = wickr_cipher_key_create(G->recovery_key->cipher, vf_buf_nd(32));
    if (!vf_buf_eq(ck->key_data, G->recovery_key->key_data)) { wickr_root_keys_t *x = wickr_ctx_gen_import_recovery(e, b, ck); vf_assert(!x, "another recovery key restores nothing"); VF_REACH("wrong key"); }
#endif
#elif OBJ == 2
    b = wickr_storage_keys_serialize(G->ctx->storage_keys);
    vf_assert(b, "storage keys serialize");
    sk = wickr_storage_keys_create_from_buffer(b);
    vf_assert(sk && ck_eq(sk->local, G->ctx->storage_keys->local) && ck_eq(sk->remote, G->ctx->storage_keys->remote), "storage keys restore");
    vf_assert(!vf_buf_eq(sk->local->key_data, G->root_keys->node_storage_root->key_data) && ck_eq(sk->remote, G->root_keys->remote_storage_root), "the local key depends on the device, the remote key does not");
    { wickr_storage_keys_t *again = wickr_root_keys_localize(G->root_keys, &e, dev); vf_assert(again && ck_eq(again->local, sk->local) && ck_eq(again->remote, sk->remote), "localizing again gives the same keys"); wickr_storage_keys_destroy(&again); }
    { wickr_dev_info_t *o = mkdev(2); wickr_storage_keys_t *s = wickr_root_keys_localize(G->root_keys, &e, o); vf_assert(s && !vf_buf_eq(s->local->key_data, sk->local->key_data) && ck_eq(s->remote, sk->remote), "another device has another local key"); wickr_storage_keys_destroy(&s); wickr_dev_info_destroy(&o); }
#elif OBJ == 3
    b = wickr_ctx_serialize(G->ctx);
    vf_assert(b, "context serializes");
    dev2 = wickr_dev_info_copy(dev);
    FON();
    c2 = wickr_ctx_create_from_buffer(e, dev2, b);
    STOP(c2, "restoring a context");
    vf_assert(c2->dev_info == dev2, "the device info is handed over"); dev2 = NULL;
    vf_assert(id_eq(G->ctx->id_chain->root, c2->id_chain->root, true) && id_eq(G->ctx->id_chain->node, c2->id_chain->node, true), "identities");
    vf_assert(ck_eq(G->ctx->storage_keys->local, c2->storage_keys->local) && ck_eq(G->ctx->storage_keys->remote, c2->storage_keys->remote) && ck_eq(G->ctx->packet_header_key, c2->packet_header_key), "keys");
    vf_assert(c2->pkt_enc_version == G->ctx->pkt_enc_version, "encoding version");
    /* the restored context signs for the same chain */
    FON();
    k1 = wickr_ctx_ephemeral_keypair_gen(c2, 7);
    STOP(k1, "making a message key");
    vf_assert(k1->identifier == 7 && k1->ec_key->pri_data, "message key");
    FON();
    { bool ok = wickr_ephemeral_keypair_verify_owner(k1, &e, G->ctx->id_chain->node); STOP(ok, "checking a message key"); }
    vf_assert(!wickr_ephemeral_keypair_verify_owner(k1, &e, G->ctx->id_chain->root), "the root did not sign it");
    FON();
    { wickr_ctx_t *c3 = wickr_ctx_copy(c2); STOP(c3, "copying a context");
      vf_assert(id_eq(c2->id_chain->root, c3->id_chain->root, true) && id_eq(c2->id_chain->node, c3->id_chain->node, true) && ck_eq(c2->storage_keys->local, c3->storage_keys->local) && ck_eq(c2->storage_keys->remote, c3->storage_keys->remote) && c3->dev_info != c2->dev_info && dev_eq(c3->dev_info, c2->dev_info) && ck_eq(c2->packet_header_key, c3->packet_header_key) && c3->pkt_enc_version == c2->pkt_enc_version, "copy of a context");
      wickr_ctx_destroy(&c3); }
#elif OBJ == 4
    { wickr_identity_t *src = NODE ? G->ctx->id_chain->node : G->ctx->id_chain->root;
      b = wickr_identity_serialize(src);
      vf_assert(b, "identity serializes");
      FON(); i2 = wickr_identity_create_from_buffer(b, &e); STOP(i2, "restoring an identity");
      vf_assert(id_eq(src, i2, PRI), "identity restores"); }
#elif OBJ == 5
    b = PRI ? wickr_identity_chain_serialize_private(G->ctx->id_chain) : wickr_identity_chain_serialize(G->ctx->id_chain);
    vf_assert(b, "chain serializes");
    FON(); ch2 = wickr_identity_chain_create_from_buffer(b, &e); STOP(ch2, "restoring a chain");
    vf_assert(id_eq(G->ctx->id_chain->root, ch2->root, PRI) && id_eq(G->ctx->id_chain->node, ch2->node, PRI), "chain restores");
    vf_assert(ch2->status == IDENTITY_CHAIN_STATUS_UNKNOWN, "with no verdict");
    vf_assert(wickr_identity_chain_validate(ch2, &e), "and is valid");
#elif OBJ == 6
    k1 = wickr_ctx_ephemeral_keypair_gen(G->ctx, 7);
    n1 = wickr_node_create(wickr_buffer_copy(G->ctx->dev_info->msg_proto_id), wickr_identity_chain_copy(G->ctx->id_chain), KEY ? wickr_ephemeral_keypair_copy(k1) : NULL);
    b = wickr_node_serialize(n1);
    vf_assert(b, "node serializes");
    FON(); n2 = wickr_node_create_from_buffer(b, &e); STOP(n2, "restoring a node");
    vf_assert(vf_buf_eq(n1->dev_id, n2->dev_id) && id_eq(n1->id_chain->root, n2->id_chain->root, false) && id_eq(n1->id_chain->node, n2->id_chain->node, false), "node restores");
    vf_assert(!KEY ? !n2->ephemeral_keypair : n2->ephemeral_keypair && n2->ephemeral_keypair->identifier == 7 && key_eq(k1->ec_key, n2->ephemeral_keypair->ec_key, false) && sig_eq(k1->signature, n2->ephemeral_keypair->signature), "message key restores");
    vf_assert(n2->status == NODE_STATUS_UNKNOWN, "with no verdict");
    vf_assert(wickr_node_verify_signature_chain(n2, &e) == (KEY != 0), "and is valid exactly with a signed message key");
#elif OBJ == 7
    { uint64_t kid = vf_nd_u64(); k1 = wickr_ctx_ephemeral_keypair_gen(G->ctx, kid);
      b = wickr_ephemeral_keypair_serialize(k1); vf_assert(b, "message key serializes");
      k2 = wickr_ephemeral_keypair_create_from_buffer(b, &e); vf_assert(k2, "message key restores");
      vf_assert(k2->identifier == kid && key_eq(k1->ec_key, k2->ec_key, false) && sig_eq(k1->signature, k2->signature), "message key"); }
#elif OBJ == 8
    b = vf_buf_nd(3);
    FON(); cr = REMOTE ? wickr_ctx_cipher_remote(G->ctx, b) : wickr_ctx_cipher_local(G->ctx, b); STOP(cr, "encrypting data");
    vf_assert(cr->cipher.is_authenticated && vf_beq(vf_enc->key, vf_enc->key_len, (REMOTE ? G->ctx->storage_keys->remote : G->ctx->storage_keys->local)->key_data->bytes, 32), "data is encrypted and authenticated under the storage key");
    FON(); b2 = REMOTE ? wickr_ctx_decipher_remote(G->ctx, cr) : wickr_ctx_decipher_local(G->ctx, cr); STOP(b2, "decrypting data");
    vf_assert(vf_buf_eq(b, b2), "data restores");
    xk = REMOTE ? wickr_ctx_decipher_local(G->ctx, cr) : wickr_ctx_decipher_remote(G->ctx, cr);
    vf_assert(!xk, "the other storage key opens nothing");
    { uint8_t d = vf_nd_u8(); vf_assume(d); if (POS == 0) cr->iv->bytes[11] ^= d; else if (POS == 1) cr->cipher_text->bytes[0] ^= d; else cr->auth_tag->bytes[15] ^= d;
      wickr_buffer_t *x = REMOTE ? wickr_ctx_decipher_remote(G->ctx, cr) : wickr_ctx_decipher_local(G->ctx, cr); vf_assert(!x, "changed data opens to nothing"); }
#elif OBJ == 9
    b = wickr_ctx_gen_result_make_recovery(G);
    vf_assert(b, "recovery data");
#if PASS
    { uint8_t pb[3] = { 'p', 'a', 's' }; wickr_buffer_t *pass = vf_buf(pb, 3);
      xk = wickr_ctx_gen_export_recovery_key_passphrase(G, pass); vf_assert(xk, "recovery key exported");
      dev2 = mkdev(2);
      FON(); R = wickr_ctx_gen_with_passphrase(e, dev2, xk, pass, b, id); FOFF();
      wickr_buffer_destroy(&pass); }
#else
    dev2 = mkdev(2);
    FON(); R = wickr_ctx_gen_with_recovery(e, dev2, b, G->recovery_key, id);
#endif
    STOP(R, "recovering a context");
    vf_assert(roots_eq(G->root_keys, R->root_keys) && ck_eq(G->recovery_key, R->recovery_key), "root keys and recovery key are the stored ones");
    vf_assert(id_eq(G->ctx->id_chain->root, R->ctx->id_chain->root, true), "same root identity");
    vf_assert(!vf_buf_eq(G->ctx->id_chain->node->sig_key->pub_data, R->ctx->id_chain->node->sig_key->pub_data) && !vf_buf_eq(G->ctx->id_chain->node->identifier, R->ctx->id_chain->node->identifier), "a new node identity");
    vf_assert(wickr_identity_chain_validate(R->ctx->id_chain, &e), "signed by the root");
    vf_assert(ck_eq(G->ctx->storage_keys->remote, R->ctx->storage_keys->remote) && !vf_buf_eq(G->ctx->storage_keys->local->key_data, R->ctx->storage_keys->local->key_data), "remote storage stays readable, local storage is the device's own");
    vf_assert(R->ctx->dev_info != dev2 && dev_eq(R->ctx->dev_info, dev2), "the device");
#elif OBJ == 10
    k1 = NULL;
    { wickr_ec_key_t *own = vf_key_new(true);
      FON(); R = wickr_ctx_gen_new_with_sig_key(e, dev, own, id); FOFF();
      if (R) vf_assert(key_eq(own, R->root_keys->node_signature_root, true) && key_eq(own, R->ctx->id_chain->root->sig_key, true) && wickr_identity_chain_validate(R->ctx->id_chain, &e), "the given key is the root");
      wickr_ec_key_destroy(&own); }
    STOP(R, "creating a context with a key");
#elif OBJ == 11
    FON(); R = wickr_ctx_gen_result_copy(G); STOP(R, "copying a new context");
    vf_assert(roots_eq(G->root_keys, R->root_keys) && ck_eq(G->recovery_key, R->recovery_key) && id_eq(G->ctx->id_chain->node, R->ctx->id_chain->node, true), "copy");
    wickr_ctx_gen_result_destroy(&G);
    vf_assert(wickr_identity_chain_validate(R->ctx->id_chain, &e), "the copy outlives the source");
#endif
#if STEP == 0
    VF_REACH("done");
#endif
#ifdef FAULTS
end:
#elif STEP == 1
end:
#endif
    wickr_buffer_destroy(&id); wickr_buffer_destroy(&b); wickr_buffer_destroy(&b2); wickr_buffer_destroy(&xk);
    wickr_dev_info_destroy(&dev); wickr_dev_info_destroy(&dev2);
    wickr_ctx_gen_result_destroy(&G); wickr_ctx_gen_result_destroy(&R);
    wickr_root_keys_destroy(&rk); wickr_root_keys_destroy(&rk2); wickr_storage_keys_destroy(&sk); wickr_ctx_destroy(&c2); wickr_cipher_key_destroy(&ck); wickr_cipher_result_destroy(&cr);
    wickr_identity_destroy(&i2); wickr_identity_chain_destroy(&ch2); wickr_node_destroy(&n1); wickr_node_destroy(&n2); wickr_ephemeral_keypair_destroy(&k1); wickr_ephemeral_keypair_destroy(&k2);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
