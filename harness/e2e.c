/* A packet addressed to two nodes is readable by each of them and yields exactly the payload; anybody else finds nothing. */
#include "vf_engine.h"
#include "wickr_ctx.h"
#ifndef VERSION
#define VERSION 4
#endif
#ifndef BODY
#define BODY 3
#endif

static wickr_ctx_gen_result_t *mkctx(wickr_crypto_engine_t e, uint8_t i)
{
    uint8_t sys[2] = { 0x30, i };
    wickr_buffer_t *sid = vf_buf(sys, 2);
    wickr_dev_info_t *d = wickr_dev_info_create_new(&e, sid);
    uint8_t idb[3] = { 0x40, i, 0x41 };
    wickr_buffer_t *id = vf_buf(idb, 3);
    wickr_ctx_gen_result_t *r = wickr_ctx_gen_new(e, d, id);
    wickr_buffer_destroy(&sid); wickr_buffer_destroy(&id); wickr_dev_info_destroy(&d);
    return r;
}
static wickr_node_t *mknode(wickr_ctx_t *c, wickr_ephemeral_keypair_t **kp, uint64_t kid)
{
    *kp = wickr_ctx_ephemeral_keypair_gen(c, kid);
    wickr_ephemeral_keypair_t *pub = wickr_ephemeral_keypair_copy(*kp);
    wickr_ephemeral_keypair_make_public(pub);
    return wickr_node_create(wickr_buffer_copy(c->dev_info->msg_proto_id), wickr_identity_chain_copy(c->id_chain), pub);
}

int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
    wickr_ctx_gen_result_t *A = mkctx(e, 1), *B = mkctx(e, 2), *C = mkctx(e, 3);
    vf_assert(A && B && C, "contexts are created");
    wickr_ephemeral_keypair_t *kb, *kc;
    wickr_node_array_t *nodes = wickr_node_array_new(2);
    wickr_node_t *nb = mknode(B->ctx, &kb, 11), *nc = mknode(C->ctx, &kc, 12);
    wickr_node_array_set_item(nodes, 0, nb);
    wickr_node_array_set_item(nodes, 1, nc);

    wickr_ephemeral_info_t eph = { vf_nd_u64(), vf_nd_u64() };
    uint16_t ct = vf_nd_u16();
    wickr_payload_t *p = wickr_payload_create(wickr_packet_meta_create(eph, vf_buf_nd(2), ct), vf_buf_nd(BODY));
    A->ctx->pkt_enc_version = VERSION;
    wickr_encoder_result_t *enc = wickr_ctx_encode_packet(A->ctx, p, nodes);
    vf_assert(enc, "encoding succeeds");
    wickr_buffer_t *wire = wickr_packet_serialize(enc->packet);
    vf_assert(wire, "packet serializes");

#ifdef ALIEN
    {   /* the stranger's identifier is close to that of a recipient: 1 a prefix, 2 an extension, 3 one byte different,
           4 any bytes of the same length that name no recipient, 5 one byte */
        wickr_buffer_t *id = B->ctx->dev_info->msg_proto_id, *mine;
        size_t n = id->length;
        if (ALIEN == 1) mine = wickr_buffer_copy_section(id, 0, n - 1);
        else if (ALIEN == 2) { wickr_buffer_t *x = vf_buf_nd(1); mine = wickr_buffer_concat(id, x); wickr_buffer_destroy(&x); }
        else if (ALIEN == 3) { uint8_t d = vf_nd_u8(); vf_assume(d != 0); mine = wickr_buffer_copy(id); mine->bytes[vf_nd_u8() % 2 ? 0 : n - 1] ^= d; }
        else if (ALIEN == 4) { mine = vf_buf_nd(n); vf_assume(!vf_buf_eq(mine, id)); vf_assume(!vf_buf_eq(mine, C->ctx->dev_info->msg_proto_id)); }
        else { mine = wickr_buffer_copy_section(id, 0, 1); }
        wickr_buffer_destroy(&A->ctx->dev_info->msg_proto_id);
        A->ctx->dev_info->msg_proto_id = mine;
    }
#endif
    for (int i = 0; i < 3; i++) {
        wickr_ctx_t *rc = i == 0 ? B->ctx : i == 1 ? C->ctx : A->ctx;
        wickr_ctx_packet_t *in = wickr_ctx_parse_packet(rc, wire, A->ctx->id_chain);
        vf_assert(in && in->parse_result, "packet parses");
        vf_assert(in->parse_result->signature_status == PACKET_SIGNATURE_VALID, "signature status");
        if (i == 2) {
            vf_assert(in->parse_result->err == ERROR_NODE_NOT_FOUND, "a node that is not a recipient finds no key exchange");
            vf_assert(!wickr_ctx_decode_packet(rc, in, kb->ec_key), "a node that is not a recipient decodes nothing");
        } else {
            vf_assert(in->parse_result->err == E_SUCCESS, "recipient finds its key exchange");
            vf_assert(in->parse_result->key_exchange->key_id == (uint64_t)(11 + i), "the key exchange names the recipient's key");
#ifdef WRONGKEY
            wickr_decode_result_t *bad = wickr_ctx_decode_packet(rc, in, i == 0 ? kc->ec_key : kb->ec_key);
            vf_assert(!bad || (bad->err != E_SUCCESS && !bad->decrypted_payload && !bad->payload_key), "another node's private key decodes nothing");
            wickr_decode_result_destroy(&bad);
#endif
            wickr_decode_result_t *out = wickr_ctx_decode_packet(rc, in, i == 0 ? kb->ec_key : kc->ec_key);
            vf_assert(out && out->err == E_SUCCESS && out->decrypted_payload, "recipient decodes");
            vf_assert(vf_buf_eq(out->decrypted_payload->body, p->body), "body");
            vf_assert(vf_buf_eq(out->decrypted_payload->meta->channel_tag, p->meta->channel_tag), "channel tag");
            vf_assert(out->decrypted_payload->meta->ephemerality_settings.ttl == eph.ttl, "ttl");
            vf_assert(out->decrypted_payload->meta->ephemerality_settings.bor == eph.bor, "bor");
            vf_assert(out->decrypted_payload->meta->content_type == ct, "content type");
            vf_assert(vf_buf_eq(out->payload_key->key_data, enc->packet_key->key_data), "payload key");
            wickr_decode_result_destroy(&out);
        }
        wickr_ctx_packet_destroy(&in);
    }
    wickr_buffer_destroy(&wire);
    wickr_encoder_result_destroy(&enc);
    wickr_payload_destroy(&p);
    wickr_node_array_destroy(&nodes); wickr_node_destroy(&nb); wickr_node_destroy(&nc);
    wickr_ephemeral_keypair_destroy(&kb); wickr_ephemeral_keypair_destroy(&kc);
    wickr_ctx_gen_result_destroy(&A); wickr_ctx_gen_result_destroy(&B); wickr_ctx_gen_result_destroy(&C);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
