/* Copies hold the content of the source, share no storage with it, and outlive it; nothing copies to nothing. Contents are
   arbitrary, optional parts absent or present. */
#include "vf_engine.h"
#include "wickr_ctx.h"
#include "stream_ctx.h"
#include "transport_packet.h"
#include "transport_root_key.h"
#include "ecdh_cipher_ctx.h"
#include "fingerprint.h"
#include "memory.h"
static wickr_crypto_engine_t e;
static wickr_buffer_t *B(size_t n) { return vf_buf_nd(n); }
#ifndef OPT
#define OPT 0
#endif
static bool opt(void) { static unsigned k; k++; return OPT == 0 ? false : OPT == 1 ? true : ((k & 1) != 0) == (OPT == 2); } /* which optional parts are present: none, all, every other one */
static void cb(const wickr_buffer_t *a, const wickr_buffer_t *b)
{
    vf_assert((a == NULL) == (b == NULL), "absent parts stay absent, present parts present");
    if (!a) return;
    vf_assert(a != b && a->bytes != b->bytes && a->bytes && b->bytes, "no storage is shared");
    vf_assert(a->length == b->length && vf_beq(a->bytes, a->length, b->bytes, b->length), "equal bytes");
}
#define BOTH(a, b) do { vf_assert(((a) == NULL) == ((b) == NULL), "absent parts stay absent, present parts present"); if (!(a)) return; vf_assert((const void *)(a) != (const void *)(b), "no storage is shared"); } while (0)
static void c_cipher(wickr_cipher_t a, wickr_cipher_t b) { vf_assert(a.cipher_id == b.cipher_id && a.key_len == b.key_len && a.iv_len == b.iv_len && a.auth_tag_len == b.auth_tag_len && a.is_authenticated == b.is_authenticated, "cipher"); }
static wickr_cipher_t any_cipher(void) { return opt() ? CIPHER_AES256_GCM : CIPHER_AES256_CTR; }
static wickr_cipher_key_t *m_ck(void) { return wickr_cipher_key_create(any_cipher(), B(32)); }
static void c_ck(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b) { BOTH(a, b); c_cipher(a->cipher, b->cipher); cb(a->key_data, b->key_data); }
static wickr_cipher_result_t *m_cr(void) { wickr_cipher_t c = any_cipher(); return wickr_cipher_result_create(c, B(c.iv_len), B(2), c.is_authenticated ? B(c.auth_tag_len) : NULL); }
static void c_cr(const wickr_cipher_result_t *a, const wickr_cipher_result_t *b) { BOTH(a, b); c_cipher(a->cipher, b->cipher); cb(a->iv, b->iv); cb(a->cipher_text, b->cipher_text); cb(a->auth_tag, b->auth_tag); }
static wickr_ec_key_t *m_ec(void) { bool p = opt(); return wickr_ec_key_create(EC_CURVE_NIST_P521, B(3), p ? B(3) : NULL); }
static void c_ec(const wickr_ec_key_t *a, const wickr_ec_key_t *b) { BOTH(a, b); vf_assert(a->curve.identifier == b->curve.identifier && a->curve.signature_size == b->curve.signature_size && a->curve.max_pub_size == b->curve.max_pub_size, "curve"); cb(a->pub_data, b->pub_data); cb(a->pri_data, b->pri_data); }
static wickr_ecdsa_result_t *m_sig(void) { return wickr_ecdsa_result_create(EC_CURVE_NIST_P521, opt() ? DIGEST_SHA_256 : DIGEST_SHA_512, B(3)); }
static void c_sig(const wickr_ecdsa_result_t *a, const wickr_ecdsa_result_t *b) { BOTH(a, b); vf_assert(a->curve.identifier == b->curve.identifier && a->digest_mode.digest_id == b->digest_mode.digest_id && a->digest_mode.size == b->digest_mode.size, "signature parameters"); cb(a->sig_data, b->sig_data); }
static wickr_identity_t *m_id(void) { bool n = opt(); return wickr_identity_create(n ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT, B(2), m_ec(), n ? m_sig() : NULL); }
static void c_id(const wickr_identity_t *a, const wickr_identity_t *b) { BOTH(a, b); vf_assert(a->type == b->type, "type"); cb(a->identifier, b->identifier); c_ec(a->sig_key, b->sig_key); c_sig(a->signature, b->signature); }
static wickr_identity_chain_t *m_chain(void)
{
    wickr_identity_chain_t *c = wickr_identity_chain_create(m_id(), m_id());
    c->status = (wickr_identity_chain_status)vf_nd_range(0, 2);
    if (opt()) c->_status_cache = B(4);
    return c;
}
static void c_chain(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b) { BOTH(a, b); vf_assert(a->status == b->status, "status"); c_id(a->root, b->root); c_id(a->node, b->node); cb(a->_status_cache, b->_status_cache); }
static wickr_ephemeral_keypair_t *m_eph(void) { uint64_t n = vf_nd_u64(); wickr_ec_key_t *k = m_ec(); return wickr_ephemeral_keypair_create(n, k, opt() ? m_sig() : NULL); }
static void c_eph(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b) { BOTH(a, b); vf_assert(a->identifier == b->identifier, "identifier"); c_ec(a->ec_key, b->ec_key); c_sig(a->signature, b->signature); }
static wickr_node_t *m_node(void)
{
    wickr_identity_chain_t *ch = wickr_identity_chain_create(wickr_identity_create(IDENTITY_TYPE_ROOT, B(2), m_ec(), NULL), wickr_identity_create(IDENTITY_TYPE_NODE, B(2), m_ec(), m_sig()));
    wickr_node_t *n = wickr_node_create(B(2), ch, opt() ? m_eph() : NULL);
    n->status = (wickr_node_status)vf_nd_range(0, 2);
    if (opt()) n->_status_cache = B(4);
    return n;
}
static void c_node(const wickr_node_t *a, const wickr_node_t *b) { BOTH(a, b); vf_assert(a->status == b->status, "status"); cb(a->dev_id, b->dev_id); c_chain(a->id_chain, b->id_chain); c_eph(a->ephemeral_keypair, b->ephemeral_keypair); cb(a->_status_cache, b->_status_cache); }
static wickr_root_keys_t *m_rk(void) { return wickr_root_keys_create(m_ec(), m_ck(), m_ck()); }
static void c_rk(const wickr_root_keys_t *a, const wickr_root_keys_t *b) { BOTH(a, b); c_ec(a->node_signature_root, b->node_signature_root); c_ck(a->node_storage_root, b->node_storage_root); c_ck(a->remote_storage_root, b->remote_storage_root); }
static wickr_storage_keys_t *m_sk(void) { return wickr_storage_keys_create(m_ck(), m_ck()); }
static void c_sk(const wickr_storage_keys_t *a, const wickr_storage_keys_t *b) { BOTH(a, b); c_ck(a->local, b->local); c_ck(a->remote, b->remote); }
static wickr_packet_meta_t *m_meta(void) { wickr_ephemeral_info_t i; i.ttl = vf_nd_u64(); i.bor = vf_nd_u64(); return wickr_packet_meta_create(i, B(2), vf_nd_u16()); }
static void c_meta(const wickr_packet_meta_t *a, const wickr_packet_meta_t *b) { BOTH(a, b); vf_assert(a->ephemerality_settings.ttl == b->ephemerality_settings.ttl && a->ephemerality_settings.bor == b->ephemerality_settings.bor && a->content_type == b->content_type, "settings"); cb(a->channel_tag, b->channel_tag); }
static wickr_payload_t *m_pay(void) { return wickr_payload_create(m_meta(), B(3)); }
static void c_pay(const wickr_payload_t *a, const wickr_payload_t *b) { BOTH(a, b); c_meta(a->meta, b->meta); cb(a->body, b->body); }
static wickr_packet_t *m_pkt(void) { uint8_t v = (uint8_t)(2 + (OPT > 2 ? 2 : OPT)); return wickr_packet_create(v, B(3), m_sig()); }
static void c_pkt(const wickr_packet_t *a, const wickr_packet_t *b) { BOTH(a, b); vf_assert(a->version == b->version, "version"); cb(a->content, b->content); c_sig(a->signature, b->signature); }
static wickr_key_exchange_t *m_kx(void) { uint64_t n = vf_nd_u64(); return wickr_key_exchange_create(B(2), n, m_cr()); }
static void c_kx(const wickr_key_exchange_t *a, const wickr_key_exchange_t *b) { BOTH(a, b); vf_assert(a->key_id == b->key_id, "key id"); cb(a->exchange_id, b->exchange_id); c_cr(a->exchange_ciphertext, b->exchange_ciphertext); }
static wickr_key_exchange_set_t *m_kxs(void)
{
    uint32_t n = OPT == 0 ? 1 : 2;
    wickr_exchange_array_t *x = wickr_exchange_array_new(n);
    for (uint32_t i = 0; i < n; i++) wickr_exchange_array_set_item(x, i, m_kx());
    return wickr_key_exchange_set_create(m_ec(), x);
}
static void c_kxs(const wickr_key_exchange_set_t *a, const wickr_key_exchange_set_t *b)
{
    BOTH(a, b); c_ec(a->sender_pub, b->sender_pub); vf_assert(a->exchanges != b->exchanges && wickr_array_get_item_count(a->exchanges) == wickr_array_get_item_count(b->exchanges), "number of exchanges");
    for (uint32_t i = 0; i < wickr_array_get_item_count(a->exchanges); i++) { const wickr_key_exchange_t *x = wickr_exchange_array_fetch_item(a->exchanges, i), *y = wickr_exchange_array_fetch_item(b->exchanges, i); vf_assert(x && y, "exchange present"); c_kx(x, y); }
}
static wickr_kdf_meta_t *m_km(void)
{
    wickr_kdf_algo_t a = opt() ? KDF_SCRYPT_2_18 : KDF_HKDF_SHA512;
    wickr_buffer_t *salt = a.algo_id == KDF_SCRYPT || opt() ? B(16) : NULL;
    return wickr_kdf_meta_create(a, salt, opt() || !salt ? B(2) : NULL); /* HKDF without a salt needs an info */
}
static void c_km(const wickr_kdf_meta_t *a, const wickr_kdf_meta_t *b) { BOTH(a, b); vf_assert(a->algo.algo_id == b->algo.algo_id && a->algo.kdf_id == b->algo.kdf_id && a->algo.cost == b->algo.cost && a->algo.salt_size == b->algo.salt_size && a->algo.output_size == b->algo.output_size, "algorithm"); cb(a->salt, b->salt); cb(a->info, b->info); }
#define RUN(T, mk, cp, cmp, del) do { T *a = mk, *b; vf_assert(a, "source"); b = cp(a); vf_assert(b, "a copy is made"); cmp(a, b); del(&a); vf_assert(!a, "destroyed"); T *c = cp(b); vf_assert(c, "the copy outlives the source"); cmp(b, c); del(&b); del(&c); vf_assert(!cp(NULL), "nothing copies to nothing"); del(&a); } while (0)
#if KIND == 17
static void c_dev(const wickr_dev_info_t *a, const wickr_dev_info_t *b) { BOTH(a, b); cb(a->dev_salt, b->dev_salt); cb(a->system_salt, b->system_salt); cb(a->msg_proto_id, b->msg_proto_id); cb(a->srv_comm_id, b->srv_comm_id); }
#endif
static void c_parse(const wickr_parse_result_t *a, const wickr_parse_result_t *b) { BOTH(a, b); vf_assert(a->err == b->err && a->signature_status == b->signature_status, "verdict"); c_kxs(a->key_exchange_set, b->key_exchange_set); c_kx(a->key_exchange, b->key_exchange); c_cr(a->enc_payload, b->enc_payload); }
static void c_dec(const wickr_decode_result_t *a, const wickr_decode_result_t *b) { BOTH(a, b); vf_assert(a->err == b->err, "verdict"); c_ck(a->payload_key, b->payload_key); c_pay(a->decrypted_payload, b->decrypted_payload); }
static void c_enc(const wickr_encoder_result_t *a, const wickr_encoder_result_t *b) { BOTH(a, b); c_ck(a->packet_key, b->packet_key); c_pkt(a->packet, b->packet); }
static void c_fp(const wickr_fingerprint_t *a, const wickr_fingerprint_t *b) { BOTH(a, b); vf_assert(a->type == b->type, "type"); cb(a->data, b->data); }
static void c_kr(const wickr_kdf_result_t *a, const wickr_kdf_result_t *b) { BOTH(a, b); c_km(a->meta, b->meta); cb(a->hash, b->hash); }
static void c_skey(const wickr_stream_key_t *a, const wickr_stream_key_t *b) { BOTH(a, b); vf_assert(a->packets_per_evolution == b->packets_per_evolution, "rate"); c_ck(a->cipher_key, b->cipher_key); cb(a->evolution_key, b->evolution_key); cb(a->user_data, b->user_data); }
static void c_iv(const wickr_stream_iv_t *a, const wickr_stream_iv_t *b) { BOTH(a, b); vf_assert(a->gen_count == b->gen_count && a->engine.wickr_crypto_engine_digest == b->engine.wickr_crypto_engine_digest, "position"); c_cipher(a->cipher, b->cipher); cb(a->seed, b->seed); }
static void c_stream(const wickr_stream_ctx_t *a, const wickr_stream_ctx_t *b) { BOTH(a, b); vf_assert(a->last_seq == b->last_seq && a->direction == b->direction && b->ref_count == 1, "position and direction"); c_skey(a->key, b->key); c_iv(a->iv_factory, b->iv_factory); }
static void c_troot(const wickr_transport_root_key_t *a, const wickr_transport_root_key_t *b) { BOTH(a, b); vf_assert(a->packets_per_evo_send == b->packets_per_evo_send && a->packets_per_evo_recv == b->packets_per_evo_recv, "rates"); c_cipher(a->cipher, b->cipher); cb(a->secret, b->secret); }
static void c_tpkt(const wickr_transport_packet_t *a, const wickr_transport_packet_t *b)
{
    BOTH(a, b); cb(a->body, b->body); /* network_buffer caches the serialized form and is rebuilt on demand */
    vf_assert(!b->network_buffer || b->network_buffer != a->network_buffer, "no storage is shared"); cb(a->mac, b->mac);
    vf_assert(a->meta.body_type == b->meta.body_type && a->meta.mac_type == b->meta.mac_type, "kind");
    if (a->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE) vf_assert(a->meta.body_meta.handshake.protocol_version == b->meta.body_meta.handshake.protocol_version, "version"); else vf_assert(a->meta.body_meta.data.sequence_number == b->meta.body_meta.data.sequence_number, "number");
}
static void c_ecdh(const wickr_ecdh_cipher_ctx_t *a, const wickr_ecdh_cipher_ctx_t *b) { BOTH(a, b); c_cipher(a->cipher, b->cipher); c_ec(a->local_key, b->local_key); vf_assert(a->engine.wickr_crypto_engine_digest == b->engine.wickr_crypto_engine_digest, "engine"); }
static void c_na(const wickr_node_array_t *a, const wickr_node_array_t *b)
{
    BOTH(a, b); vf_assert(wickr_array_get_item_count(a) == wickr_array_get_item_count(b), "count");
    for (uint32_t i = 0; i < wickr_array_get_item_count(a); i++) c_node(wickr_node_array_fetch_item(a, i), wickr_node_array_fetch_item(b, i));
}
int main(void)
{
    e = vf_engine();
#if KIND == 18
    RUN(wickr_cipher_result_t, m_cr(), wickr_cipher_result_copy, c_cr, wickr_cipher_result_destroy);
#elif KIND == 1
    RUN(wickr_cipher_key_t, m_ck(), wickr_cipher_key_copy, c_ck, wickr_cipher_key_destroy);
    RUN(wickr_ec_key_t, m_ec(), wickr_ec_key_copy, c_ec, wickr_ec_key_destroy);
    RUN(wickr_ecdsa_result_t, m_sig(), wickr_ecdsa_result_copy, c_sig, wickr_ecdsa_result_destroy);
#elif KIND == 2
    RUN(wickr_kdf_meta_t, m_km(), wickr_kdf_meta_copy, c_km, wickr_kdf_meta_destroy);
    RUN(wickr_kdf_result_t, wickr_kdf_result_create(m_km(), B(32)), wickr_kdf_result_copy, c_kr, wickr_kdf_result_destroy);
#elif KIND == 3
    RUN(wickr_identity_t, m_id(), wickr_identity_copy, c_id, wickr_identity_destroy);
    RUN(wickr_ephemeral_keypair_t, m_eph(), wickr_ephemeral_keypair_copy, c_eph, wickr_ephemeral_keypair_destroy);
#elif KIND == 4
    RUN(wickr_identity_chain_t, m_chain(), wickr_identity_chain_copy, c_chain, wickr_identity_chain_destroy);
#elif KIND == 5
    RUN(wickr_node_t, m_node(), wickr_node_copy, c_node, wickr_node_destroy);
#elif KIND == 6
    RUN(wickr_root_keys_t, m_rk(), wickr_root_keys_copy, c_rk, wickr_root_keys_destroy);
    RUN(wickr_storage_keys_t, m_sk(), wickr_storage_keys_copy, c_sk, wickr_storage_keys_destroy);
#elif KIND == 7
    RUN(wickr_packet_meta_t, m_meta(), wickr_packet_meta_copy, c_meta, wickr_packet_meta_destroy);
    RUN(wickr_payload_t, m_pay(), wickr_payload_copy, c_pay, wickr_payload_destroy);
    RUN(wickr_packet_t, m_pkt(), wickr_packet_copy, c_pkt, wickr_packet_destroy);
#elif KIND == 8
    RUN(wickr_key_exchange_t, m_kx(), wickr_key_exchange_copy, c_kx, wickr_key_exchange_destroy);
#elif KIND == 9
    RUN(wickr_key_exchange_set_t, m_kxs(), wickr_key_exchange_set_copy, c_kxs, wickr_key_exchange_set_destroy);
#elif KIND == 10
    RUN(wickr_parse_result_t, wickr_parse_result_create_success(m_kxs(), opt() ? m_kx() : NULL, m_cr()), wickr_parse_result_copy, c_parse, wickr_parse_result_destroy);
#elif KIND == 11
    RUN(wickr_parse_result_t, wickr_parse_result_create_failure((wickr_packet_signature_status)vf_nd_range(0, 2), (wickr_decode_error)vf_nd_range(1, 5)), wickr_parse_result_copy, c_parse, wickr_parse_result_destroy);
    RUN(wickr_decode_result_t, wickr_decode_result_create_failure((wickr_decode_error)vf_nd_range(1, 5)), wickr_decode_result_copy, c_dec, wickr_decode_result_destroy);
    RUN(wickr_decode_result_t, wickr_decode_result_create_success(m_pay(), m_ck()), wickr_decode_result_copy, c_dec, wickr_decode_result_destroy);
    RUN(wickr_encoder_result_t, wickr_encoder_result_create(m_ck(), m_pkt()), wickr_encoder_result_copy, c_enc, wickr_encoder_result_destroy);
    RUN(wickr_fingerprint_t, wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, B(64)), wickr_fingerprint_copy, c_fp, wickr_fingerprint_destroy);
#elif KIND == 12
    {
        uint32_t ppe = vf_nd_range(1, 32768);
        wickr_stream_key_t *k = wickr_stream_key_create_user_data(m_ck(), B(4), ppe, opt() ? B(2) : NULL);
        vf_assert(k, "key");
        RUN(wickr_stream_key_t, wickr_stream_key_copy(k), wickr_stream_key_copy, c_skey, wickr_stream_key_destroy);
        wickr_cipher_t c = k->cipher_key->cipher;
        wickr_stream_iv_t *iv = wickr_stream_iv_create(e, c);
        vf_assert(iv, "nonce source"); iv->gen_count = vf_nd_u64();
        RUN(wickr_stream_iv_t, wickr_stream_iv_copy(iv), wickr_stream_iv_copy, c_iv, wickr_stream_iv_destroy);
        wickr_stream_iv_destroy(&iv);
        wickr_stream_key_destroy(&k);
    }
#elif KIND == 13
    {
        bool enc = opt();
        wickr_stream_ctx_t *s = wickr_stream_ctx_create(e, wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, B(32)), B(4), 512), enc ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE);
        vf_assert(s, "stream"); s->last_seq = vf_nd_u64();
        vf_assert(wickr_stream_ctx_ref_up(s), "shared by two owners");
        wickr_stream_ctx_t *c = wickr_stream_ctx_copy(s);
        vf_assert(c, "copy"); c_stream(s, c);
        wickr_stream_ctx_t *s2 = s;
        wickr_stream_ctx_destroy(&s); vf_assert(s2->ref_count == 1, "one owner left"); c_stream(s2, c);
        wickr_stream_ctx_destroy(&s2);
        wickr_stream_ctx_t *d = wickr_stream_ctx_copy(c); vf_assert(d, "the copy outlives the source"); c_stream(c, d);
        wickr_stream_ctx_destroy(&c); wickr_stream_ctx_destroy(&d);
        vf_assert(!wickr_stream_ctx_copy(NULL), "nothing copies to nothing");
    }
#elif KIND == 14
    RUN(wickr_transport_root_key_t, wickr_transport_root_key_create(B(32), any_cipher(), vf_nd_range(1, 32768), vf_nd_range(1, 32768)), wickr_transport_root_key_copy, c_troot, wickr_transport_root_key_destroy);
    {
        wickr_transport_packet_meta_t m; memset(&m, 0, sizeof(m));
        if (opt()) wickr_transport_packet_meta_initialize_handshake(&m, vf_nd_u8(), TRANSPORT_MAC_TYPE_EC_P521);
        else wickr_transport_packet_meta_initialize_data(&m, vf_nd_u64(), TRANSPORT_MAC_TYPE_AUTH_CIPHER);
        wickr_transport_packet_t *p = wickr_transport_packet_create(m, B(2));
        vf_assert(p, "packet");
        if (opt()) p->mac = B(4);
        if (opt()) p->network_buffer = B(5);
        wickr_transport_packet_t *c = wickr_transport_packet_copy(p);
        vf_assert(c, "copy"); c_tpkt(p, c); wickr_transport_packet_destroy(&p);
        wickr_transport_packet_t *d = wickr_transport_packet_copy(c); vf_assert(d, "the copy outlives the source"); c_tpkt(c, d);
        wickr_transport_packet_destroy(&c); wickr_transport_packet_destroy(&d);
        vf_assert(!wickr_transport_packet_copy(NULL), "nothing copies to nothing");
    }
#elif KIND == 15
    RUN(wickr_ecdh_cipher_ctx_t, wickr_ecdh_cipher_ctx_create(e, EC_CURVE_NIST_P521, any_cipher()), wickr_ecdh_cipher_ctx_copy, c_ecdh, wickr_ecdh_cipher_ctx_destroy);
#elif KIND == 16
    {
        wickr_node_t *n1 = m_node(), *n2 = wickr_node_create(B(2), wickr_identity_chain_create(wickr_identity_create(IDENTITY_TYPE_ROOT, B(2), vf_key_new(true), NULL), wickr_identity_create(IDENTITY_TYPE_NODE, B(2), vf_key_new(false), wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, B(3)))), NULL);
        wickr_node_array_t *a = wickr_node_array_new(2);
        vf_assert(wickr_node_array_set_item(a, 0, n1) && wickr_node_array_set_item(a, 1, n2), "array");
        wickr_node_array_t *b = wickr_node_array_copy(a);
        vf_assert(b, "copy"); c_na(a, b);
        wickr_node_array_destroy(&a); wickr_node_destroy(&n1); wickr_node_destroy(&n2);
        wickr_array_destroy(&b, true);
    }
#elif KIND == 17
    {
        wickr_dev_info_t *d = wickr_dev_info_create(B(4), opt() ? B(3) : NULL, B(2), B(2));
        RUN(wickr_dev_info_t, wickr_dev_info_create(B(4), B(3), B(2), B(2)), wickr_dev_info_copy, c_dev, wickr_dev_info_destroy);
        wickr_dev_info_destroy(&d);
    }
#endif
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
