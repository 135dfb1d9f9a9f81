/* Parsing and decoding of packets that are not as the sender made them. */
#include "vf_engine.h"
#include "wickr_ctx.h"
#include "message.pb-c.h"
#ifndef VERSION
#define VERSION 4
#endif
#ifndef POS
#define POS 0
#endif
static wickr_ctx_gen_result_t *mkctx(wickr_crypto_engine_t e, uint8_t i)
{
    uint8_t sys[2] = { 0x30, i }, idb[3] = { 0x40, i, 0x41 };
    wickr_buffer_t *sid = vf_buf(sys, 2), *id = vf_buf(idb, 3);
    wickr_dev_info_t *d = wickr_dev_info_create_new(&e, sid);
    wickr_ctx_gen_result_t *r = wickr_ctx_gen_new(e, d, id);
    wickr_buffer_destroy(&sid); wickr_buffer_destroy(&id); wickr_dev_info_destroy(&d);
    return r;
}
static void nothing_in(const wickr_parse_result_t *r)
{
    vf_assert(!r->key_exchange_set, "a refused packet gives no header"); vf_assert(!r->key_exchange, "a refused packet gives no key exchange"); vf_assert(!r->enc_payload, "a refused packet gives no payload");
}
static void no_payload(wickr_decode_result_t *d, bool may_exist)
{
    if (!d) return;
    vf_assert(may_exist, "nothing is decoded");
    vf_assert(d->err == ERROR_KEY_EXCHANGE_FAILED, "the failure is reported"); vf_assert(!d->decrypted_payload, "no plaintext"); vf_assert(!d->payload_key, "no key");
    wickr_decode_result_destroy(&d);
}
int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
    wickr_ctx_gen_result_t *A = mkctx(e, 1), *B = mkctx(e, 2);
    vf_assert(A && B, "contexts are created");
    wickr_ephemeral_keypair_t *kb = wickr_ctx_ephemeral_keypair_gen(B->ctx, 11), *pub = wickr_ephemeral_keypair_copy(kb);
    wickr_ephemeral_keypair_make_public(pub);
    wickr_node_t *nb = wickr_node_create(wickr_buffer_copy(B->ctx->dev_info->msg_proto_id), wickr_identity_chain_copy(B->ctx->id_chain), pub);
    wickr_node_array_t *nodes = wickr_node_array_new(1);
    wickr_node_array_set_item(nodes, 0, nb);
    wickr_ephemeral_info_t eph = { 5, 6 };
    uint8_t pb[3] = { 1, 2, 3 };
    wickr_payload_t *p = wickr_payload_create(wickr_packet_meta_create(eph, vf_buf(pb, 2), 7), vf_buf(pb, 3));
    A->ctx->pkt_enc_version = VERSION;
    wickr_encoder_result_t *enc = wickr_ctx_encode_packet(A->ctx, p, nodes);
    vf_assert(enc, "encoding succeeds");
    wickr_identity_chain_t *sender = wickr_identity_chain_copy(A->ctx->id_chain);
    wickr_buffer_t *wire = NULL;
    wickr_ctx_packet_t *in = NULL;
    (void)sender;
#if MODE == 8 || MODE == 9 /* signed by the sender, but the header or the payload is under another key */
    {
        wickr_packet_t *pk = enc->packet;
        wickr_ctx_packet_t *own = NULL;
        wickr_buffer_t *w0 = wickr_packet_serialize(pk);
        own = wickr_ctx_parse_packet_no_decode(A->ctx, w0, sender);
        wickr_cipher_key_t *other = e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM);
        wickr_cipher_result_t *h = wickr_key_exchange_set_encrypt(own->parse_result->key_exchange_set, &e, MODE == 8 ? other : A->ctx->packet_header_key);
        wickr_cipher_result_t *b = wickr_payload_encrypt(p, &e, MODE == 9 ? other : enc->packet_key);
        wickr_buffer_t *hb = wickr_cipher_result_serialize(h), *bb = wickr_cipher_result_serialize(b);
        Wickr__Proto__Packet pp = WICKR__PROTO__PACKET__INIT;
        pp.enc_header.data = hb->bytes; pp.enc_header.len = hb->length; pp.enc_payload.data = bb->bytes; pp.enc_payload.len = bb->length;
        wickr_buffer_t *content = wickr_buffer_create_empty(wickr__proto__packet__get_packed_size(&pp));
        wickr__proto__packet__pack(&pp, content->bytes);
        wickr_buffer_destroy(&hb); wickr_buffer_destroy(&bb);
        wickr_packet_t *crafted = wickr_packet_create(VERSION, content, e.wickr_crypto_engine_ec_sign(A->ctx->id_chain->node->sig_key, content, DIGEST_SHA_512));
        vf_assert(crafted, "crafted");
        wire = wickr_packet_serialize(crafted);
        wickr_packet_destroy(&crafted); wickr_cipher_result_destroy(&h); wickr_cipher_result_destroy(&b); wickr_cipher_key_destroy(&other); wickr_ctx_packet_destroy(&own); wickr_buffer_destroy(&w0);
    }
#else
    wire = wickr_packet_serialize(enc->packet);
#endif
    vf_assert(wire, "packet serializes");
    wickr_payload_destroy(&p);
#if MODE == 1 || MODE == 2 /* content, signature value */
    uint8_t d = vf_nd_u8();
    vf_assume(d != 0);
    wire->bytes[MODE == 1 ? 2 + POS : wire->length - 1 - POS] ^= d;
#elif MODE == 3 /* another sender: B's own chain */
    wickr_identity_chain_destroy(&sender);
    sender = wickr_identity_chain_copy(B->ctx->id_chain);
#elif MODE == 4 /* same root, but a node key that did not sign */
    wickr_ec_key_destroy(&sender->node->sig_key);
    sender->node->sig_key = vf_pub_nd();
    vf_assume(!vf_buf_eq(sender->node->sig_key->pub_data, A->ctx->id_chain->node->sig_key->pub_data));
#elif MODE == 5 /* the version byte is not covered by the signature, but by the key exchange */
    wire->bytes[0] = POS;
#elif MODE == 7 /* an unsigned packet: any signature value, the primitive answers as it likes */
    for (unsigned i = 0; i < VF_SIG_LEN; i++) wire->bytes[wire->length - 1 - i] = vf_nd_u8();
    vf_eng_verify_oracle = true;
#endif
#if MODE == 6
    in = wickr_ctx_parse_packet_no_decode(B->ctx, wire, sender);
#elif MODE == 11 /* any engine call may fail while parsing */
    vf_eng_faults = true;
    in = wickr_ctx_parse_packet(B->ctx, wire, sender);
    vf_eng_faults = false;
    if (in) {
        vf_assert(in->parse_result, "a verdict");
        if (in->parse_result->err == E_SUCCESS) { vf_assert(in->parse_result->key_exchange_set && in->parse_result->key_exchange && in->parse_result->enc_payload, "a complete result"); VF_REACH("parsed"); }
        else { nothing_in(in->parse_result); VF_REACH("failed"); }
    }
    goto done;
#else
    in = wickr_ctx_parse_packet(B->ctx, wire, sender);
#endif
#if MODE == 12 /* any engine call may fail while decoding */
    {
        vf_assert(in && in->parse_result, "parsed");
        vf_eng_faults = true;
        wickr_decode_result_t *fd = wickr_ctx_decode_packet(B->ctx, in, kb->ec_key);
        vf_eng_faults = false;
        if (fd) {
            if (fd->err == E_SUCCESS) { vf_assert(fd->decrypted_payload && fd->payload_key, "a complete result"); VF_REACH("decoded"); wickr_decode_result_destroy(&fd); }
            else { VF_REACH("failed"); vf_assert(!fd->decrypted_payload, "no plaintext"); vf_assert(!fd->payload_key, "no key"); wickr_decode_result_destroy(&fd); }
        }
        goto done;
    }
#endif
    vf_assert(in, "the packet has a packet's form"); vf_assert(in->parse_result, "and a verdict");
    wickr_parse_result_t *r = in->parse_result;
#if MODE == 1 || MODE == 2 || MODE == 3 || MODE == 4
    vf_assert(r->signature_status == PACKET_SIGNATURE_INVALID, "a packet the sender did not sign is reported so");
    vf_assert(r->err == ERROR_MAC_INVALID, "as an authentication failure");
    nothing_in(r);
    vf_assert(vf_n_decrypt == 0, "nothing is decrypted before the signature is checked");
    no_payload(wickr_ctx_decode_packet(B->ctx, in, kb->ec_key), false);
    VF_REACH("refused");
#elif MODE == 5
    vf_assert(r->signature_status == PACKET_SIGNATURE_VALID, "the signature covers the content");
    no_payload(wickr_ctx_decode_packet(B->ctx, in, kb->ec_key), true);
    VF_REACH("other version");
#elif MODE == 6
    vf_assert(r->signature_status == PACKET_SIGNATURE_VALID, "signature status"); vf_assert(r->err == E_SUCCESS, "parsed"); vf_assert(!r->key_exchange, "no key exchange was looked for");
    no_payload(wickr_ctx_decode_packet(B->ctx, in, kb->ec_key), true);
#elif MODE == 7
    if (r->signature_status == PACKET_SIGNATURE_VALID) {
        vf_assert(vf_is_signed(in->packet->signature, sender->node->sig_key, in->packet->content), "a signature is valid only if the primitive says so for these bytes and this key");
        vf_assert(r->err == E_SUCCESS, "then the recipient finds its exchange");
        wickr_decode_result_t *out = wickr_ctx_decode_packet(B->ctx, in, kb->ec_key);
        vf_assert(out && out->err == E_SUCCESS && out->decrypted_payload, "recipient decodes");
        wickr_decode_result_destroy(&out);
        VF_REACH("valid");
    } else {
        vf_assert(!vf_is_signed(in->packet->signature, sender->node->sig_key, in->packet->content), "a signature is invalid only if the primitive says so");
        vf_assert(r->err == ERROR_MAC_INVALID, "as an authentication failure");
        nothing_in(r);
        no_payload(wickr_ctx_decode_packet(B->ctx, in, kb->ec_key), false);
        VF_REACH("invalid");
    }
#elif MODE == 8
    vf_assert(r->signature_status == PACKET_SIGNATURE_VALID, "signature status"); vf_assert(r->err == ERROR_CORRUPT_PACKET, "a header that does not decrypt is corruption");
    nothing_in(r);
    no_payload(wickr_ctx_decode_packet(B->ctx, in, kb->ec_key), false);
#elif MODE == 9
    vf_assert(r->signature_status == PACKET_SIGNATURE_VALID, "signature status"); vf_assert(r->err == E_SUCCESS, "parsed");
    wickr_decode_result_t *o9 = wickr_ctx_decode_packet(B->ctx, in, kb->ec_key);
    vf_assert(o9, "a decode verdict");
    no_payload(o9, true);
#elif MODE == 10 /* the verdict guards decoding, whatever else the object holds */
    vf_assert(r->err == E_SUCCESS, "parsed");
    vf_assert(!wickr_ctx_decode_packet(B->ctx, in, NULL), "no key, no decoding"); vf_assert(!wickr_ctx_decode_packet(B->ctx, NULL, kb->ec_key), "no packet"); vf_assert(!wickr_ctx_decode_packet(NULL, in, kb->ec_key), "no context");
    r->signature_status = (wickr_packet_signature_status)vf_nd_u8(); r->err = (wickr_decode_error)vf_nd_u8();
    vf_assume(r->signature_status != PACKET_SIGNATURE_VALID || r->err != E_SUCCESS);
    no_payload(wickr_ctx_decode_packet(B->ctx, in, kb->ec_key), false);
    vf_assert(!wickr_ctx_parse_packet(B->ctx, wire, NULL), "no sender"); vf_assert(!wickr_ctx_parse_packet(B->ctx, NULL, sender), "no packet");
    wickr_parse_result_t *f = wickr_parse_result_from_packet(&e, in->packet, NULL, NULL, sender);
    vf_assert(f->signature_status == PACKET_SIGNATURE_UNKNOWN, "nothing is known"); vf_assert(f->err == ERROR_INVALID_INPUT, "invalid input"); nothing_in(f);
    wickr_parse_result_destroy(&f);
#endif
#if MODE == 11 || MODE == 12
done:
#endif
    wickr_ctx_packet_destroy(&in);
    wickr_buffer_destroy(&wire);
    wickr_identity_chain_destroy(&sender);
    wickr_encoder_result_destroy(&enc);
    wickr_node_array_destroy(&nodes); wickr_node_destroy(&nb); wickr_ephemeral_keypair_destroy(&kb);
    wickr_ctx_gen_result_destroy(&A); wickr_ctx_gen_result_destroy(&B);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
