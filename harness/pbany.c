/* Every object stored or sent as a protobuf message is parsed from an arbitrary well-formed message of its type: any
   optional part absent, byte fields empty or arbitrary. The result is nothing, or an object every other function of its
   type can take. The engine is reduced to callbacks with arbitrary verdicts that read all they are given. */
#include "vf_lite.h"
#include "vf_pb.h"
#include "wickr_ctx.h"
#include "private/storage_priv.h"
#ifndef SIGL
#define SIGL 3
#endif
#ifndef CK
#define CK 33
#endif
#ifndef BYTES
#define BYTES 2
#endif
static bool is(const char *f, const char *g) { return !strcmp(f, g); }
void vf_pb_any_bytes(const char *f, ProtobufCBinaryData *out)
{
    bool sig = is(f, "identity.signature") || is(f, "ephemeral_keypair.key_signature");
    bool key = is(f, "root_keys.node_storage_root") || is(f, "root_keys.remote_storage_root") || is(f, "storage_keys.local_storage") || is(f, "storage_keys.remote_storage");
    size_t n = sig ? SIGL : key ? CK : BYTES;
#if WHAT == 3 || WHAT == 9
    if (f[0] != 'i') /* identities with empty fields: see the chain runs */
#endif
    if (vf_nd_bool()) { out->len = 0; out->data = NULL; return; }
    if (!key) { vf_pb_nd_len(out, n); return; }
    /* parsing looks at the first byte and the length of a stored cipher key */
    out->len = n; out->data = malloc(n); memset(out->data, 7, n); out->data[0] = vf_nd_u8();
}
static wickr_ec_key_t *mk_key(bool pri)
{
    uint8_t b[2] = { 4, 9 };
    return wickr_ec_key_create(EC_CURVE_NIST_P521, L_buf(b, 2), pri ? L_buf(b, 2) : NULL);
}
static wickr_ec_key_t *e_rand(wickr_ec_curve_t c) { return mk_key(true); }
static wickr_ec_key_t *e_import(const wickr_buffer_t *b, bool pri)
{
    if (!b || !b->bytes || !b->length) return NULL;
    vf_readable(b->bytes, b->length);
    if (vf_nd_bool()) return NULL;
    return mk_key(pri);
}
static void rd(const wickr_buffer_t *b) { if (b) { vf_assert(b->bytes && b->length, "a buffer has contents"); vf_readable(b->bytes, b->length); } }
static bool e_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, const wickr_buffer_t *d)
{
    if (!s || !k || !d) return false;
    vf_assert(s->sig_data && k->pub_data, "signature and key are complete");
    rd(s->sig_data); rd(k->pub_data); rd(d);
    return vf_nd_bool();
}
static wickr_buffer_t *e_digest(const wickr_buffer_t *b, const wickr_buffer_t *s, wickr_digest_t m) { if (!b) return NULL; rd(b); rd(s); return L_fill(m.size, 5); }
static wickr_buffer_t *e_random(size_t n) { return L_fill(n, 1); }
#if WHAT == 9
wickr_digest_t wickr_digest_matching_cipher(wickr_cipher_t c) { return DIGEST_SHA_256; }
#endif
wickr_buffer_t *openssl_crypto_random(size_t n) { vf_internal(0, "unused"); return NULL; }
wickr_buffer_t *openssl_hkdf(const wickr_buffer_t *k, const wickr_buffer_t *s, const wickr_buffer_t *i, wickr_digest_t d) { vf_internal(0, "unused"); return NULL; }
wickr_buffer_t *openssl_hkdf_expand(const wickr_buffer_t *k, const wickr_buffer_t *i, wickr_digest_t d, size_t n) { vf_internal(0, "unused"); return NULL; }
static wickr_crypto_engine_t e;
static void chk_key(const wickr_ec_key_t *k, bool pri) { vf_assert(k && k->pub_data, "a key has its public part"); rd(k->pub_data); if (pri) { vf_assert(k->pri_data != NULL, "a private key has its private part"); rd(k->pri_data); } }
static void chk_ck(const wickr_cipher_key_t *k)
{
    vf_assert(k && k->key_data, "a cipher key has contents"); rd(k->key_data);
    vf_assert(k->key_data->length == k->cipher.key_len, "a cipher key has the length of its cipher");
}
static void chk_id(const wickr_identity_t *i)
{
    vf_assert(i && i->identifier && i->sig_key, "an identity has identifier and key");
    rd(i->identifier); chk_key(i->sig_key, false);
    if (i->signature) { vf_assert(i->signature->sig_data != NULL, "a signature has a value"); rd(i->signature->sig_data); }
}
static void chk_chain(const wickr_identity_chain_t *c) { vf_assert(c && c->root && c->node, "a chain has both identities"); chk_id(c->root); chk_id(c->node); vf_assert(c->status == IDENTITY_CHAIN_STATUS_UNKNOWN && !c->_status_cache, "a received chain has no verdict yet"); }
static void chk_eph(const wickr_ephemeral_keypair_t *k) { vf_assert(k && k->ec_key, "a keypair has its key"); chk_key(k->ec_key, false); vf_assert(!k->ec_key->pri_data, "received message keys are public"); if (k->signature) rd(k->signature->sig_data); }
static void out(wickr_buffer_t *b) { rd(b); wickr_buffer_destroy(&b); }
int main(void)
{
    memset(&e, 0, sizeof(e));
    e.default_curve = EC_CURVE_NIST_P521; e.default_cipher = CIPHER_AES256_GCM;
    e.wickr_crypto_engine_crypto_random = e_random; e.wickr_crypto_engine_ec_rand_key = e_rand; e.wickr_crypto_engine_ec_key_import = e_import; e.wickr_crypto_engine_ec_verify = e_verify; e.wickr_crypto_engine_digest = e_digest;
    vf_pb_attack = true;
    wickr_buffer_t *b = L_fill(2, 9);
#if WHAT == 1
    wickr_identity_t *o = wickr_identity_create_from_buffer(b, &e);
    if (o) {
        chk_id(o);
        wickr_identity_t *c = wickr_identity_copy(o); vf_assert(c, "copied"); chk_id(c); wickr_identity_destroy(&c);
        out(wickr_identity_serialize(o));
    }
    bool ok = o;
#if SIGL == 3
    if (ok && o->signature) VF_REACH("signed");
#endif
    wickr_identity_destroy(&o);
#elif WHAT == 2
    wickr_identity_chain_t *o = wickr_identity_chain_create_from_buffer(b, &e);
    if (o) {
        chk_chain(o);
#if USE == 0
        wickr_identity_chain_validate(o, &e); wickr_identity_chain_validate(o, &e);
#elif USE == 1
        wickr_identity_chain_t *c = wickr_identity_chain_copy(o); vf_assert(c, "copied"); chk_chain(c); wickr_identity_chain_destroy(&c);
#else
        out(wickr_identity_chain_serialize(o)); out(wickr_identity_chain_serialize_private(o));
#endif
    }
    bool ok = o;
    wickr_identity_chain_destroy(&o);
#elif WHAT == 3
    wickr_node_t *o = wickr_node_create_from_buffer(b, &e);
    if (o) {
        vf_assert(o->dev_id && o->id_chain, "a node has device and chain"); rd(o->dev_id); chk_chain(o->id_chain);
        if (o->ephemeral_keypair) chk_eph(o->ephemeral_keypair);
        vf_assert(o->status == NODE_STATUS_UNKNOWN && !o->_status_cache, "a received node has no verdict yet");
#if USE == 0
        wickr_node_verify_signature_chain(o, &e);
#elif USE == 1
        wickr_node_t *c = wickr_node_copy(o); vf_assert(c, "copied"); wickr_node_destroy(&c);
#else
        out(wickr_node_serialize(o));
#endif
    }
    bool ok = o;
    wickr_node_destroy(&o);
#elif WHAT == 4
    wickr_ephemeral_keypair_t *o = wickr_ephemeral_keypair_create_from_buffer(b, &e);
    if (o) {
        chk_eph(o);
        wickr_ephemeral_keypair_t *c = wickr_ephemeral_keypair_copy(o); vf_assert(c, "copied"); chk_eph(c); wickr_ephemeral_keypair_destroy(&c);
        uint8_t idb[2] = { 1, 1 };
        wickr_identity_t *w = wickr_identity_create(IDENTITY_TYPE_ROOT, L_buf(idb, 2), mk_key(true), NULL);
        wickr_ephemeral_keypair_verify_owner(o, &e, w);
        wickr_identity_destroy(&w);
        out(wickr_ephemeral_keypair_serialize(o));
        wickr_ephemeral_keypair_make_public(o);
    }
    bool ok = o;
    wickr_ephemeral_keypair_destroy(&o);
#elif WHAT == 5
    wickr_root_keys_t *o = wickr_root_keys_create_from_buffer(&e, b);
    if (o) {
        chk_key(o->node_signature_root, true); chk_ck(o->node_storage_root); chk_ck(o->remote_storage_root);
        wickr_root_keys_t *c = wickr_root_keys_copy(o); vf_assert(c, "copied"); wickr_root_keys_destroy(&c);
        out(wickr_root_keys_serialize(o));
    }
    bool ok = o;
    wickr_root_keys_destroy(&o);
#elif WHAT == 6
    wickr_storage_keys_t *o = wickr_storage_keys_create_from_buffer(b);
    if (o) {
        chk_ck(o->local); chk_ck(o->remote);
#if USE == 1
        wickr_storage_keys_t *c = wickr_storage_keys_copy(o); vf_assert(c, "copied"); wickr_storage_keys_destroy(&c);
#else
        out(wickr_storage_keys_serialize(o));
#endif
    }
    bool ok = o;
    wickr_storage_keys_destroy(&o);
#elif WHAT == 7
    wickr_payload_t *o = wickr_payload_create_from_buffer(b);
    if (o) {
        vf_assert(o->meta && o->meta->channel_tag && o->body, "a payload has tag and body"); rd(o->meta->channel_tag); rd(o->body);
        wickr_payload_t *c = wickr_payload_copy(o); vf_assert(c, "copied"); wickr_payload_destroy(&c);
        out(wickr_payload_serialize(o));
    }
    bool ok = o;
    wickr_payload_destroy(&o);
#elif WHAT == 9
    uint8_t sb[2] = { 3, 3 };
    wickr_dev_info_t *di = wickr_dev_info_create_new(&e, b);
    vf_assert(di, "device");
    wickr_ctx_t *o = wickr_ctx_create_from_buffer(e, di, b);
    if (o) {
        chk_chain(o->id_chain); vf_assert(o->storage_keys, "a context has storage keys"); chk_ck(o->storage_keys->local); chk_ck(o->storage_keys->remote); chk_ck(o->packet_header_key);
        vf_assert(o->dev_info == di, "the device info is handed over");
#if USE == 0
        out(wickr_ctx_serialize(o));
#elif USE == 1
        wickr_ctx_t *c = wickr_ctx_copy(o); vf_assert(c, "copied"); wickr_ctx_destroy(&c);
#endif
    } else wickr_dev_info_destroy(&di);
    bool ok = o;
    wickr_ctx_destroy(&o);
#endif
    L_free(b);
#if (WHAT == 5 || WHAT == 6) && CK < 33
    vf_assert(!ok, "short keys are refused");
#else
    if (ok) VF_REACH("accepted");
#endif
    if (!ok) VF_REACH("refused");
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
