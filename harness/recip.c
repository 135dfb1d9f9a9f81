/* Encoding for a list of recipients, some of whom may not verify. */
#include "vf_engine.h"
#include "wickr_ctx.h"
#ifndef NREC
#define NREC 2
#endif
#ifndef BAD
#define BAD -1
#endif
#ifndef SB
#define SB 0
#endif
#ifndef HOW
#define HOW 0
#endif
static wickr_ctx_gen_result_t *mkctx(wickr_crypto_engine_t e, uint8_t i)
{
    uint8_t sys[2] = { 0x30, i }, idb[3] = { 0x40, i, 0x41 };
    wickr_buffer_t *sid = vf_buf(sys, 2), *id = vf_buf(idb, 3);
    wickr_dev_info_t *d = wickr_dev_info_create_new(&e, sid);
    wickr_ctx_gen_result_t *r = wickr_ctx_gen_new(e, d, id);
    wickr_buffer_destroy(&sid); wickr_buffer_destroy(&id); wickr_dev_info_destroy(&d);
    return r;
}
static wickr_node_t *mknode(wickr_ctx_t *c, uint64_t kid)
{
    wickr_ephemeral_keypair_t *kp = wickr_ctx_ephemeral_keypair_gen(c, kid);
    wickr_ephemeral_keypair_make_public(kp);
    return wickr_node_create(wickr_buffer_copy(c->dev_info->msg_proto_id), wickr_identity_chain_copy(c->id_chain), kp);
}
int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
    wickr_ctx_gen_result_t *A = mkctx(e, 1), *R[3];
    wickr_node_t *nd[3];
    for (unsigned i = 0; i < NREC; i++) { R[i] = mkctx(e, 2 + i); nd[i] = mknode(R[i]->ctx, 11 + i); }
    bool bad = false;
#if NREC > 0
#ifdef SEEN /* every recipient was verified before, then one changed */
    for (unsigned i = 0; i < NREC; i++) vf_assert(wickr_node_verify_signature_chain(nd[i], &e), "verifies");
#endif
    if (BAD >= 0) {
        wickr_node_t *x = nd[BAD];
        bad = true;
        switch (HOW) {
            case 0: { uint8_t d = vf_nd_u8(); vf_assume(d); x->ephemeral_keypair->signature->sig_data->bytes[SB] ^= d; } break; /* message key signature changed */
            case 1: wickr_ecdsa_result_destroy(&x->ephemeral_keypair->signature); break;             /* message key unsigned */
            case 2: { uint8_t was[VF_PUB_LEN]; memcpy(was, x->ephemeral_keypair->ec_key->pub_data->bytes, VF_PUB_LEN); wickr_ec_key_destroy(&x->ephemeral_keypair->ec_key); x->ephemeral_keypair->ec_key = vf_pub_nd(); vf_assume(!vf_beq(x->ephemeral_keypair->ec_key->pub_data->bytes, VF_PUB_LEN, was, VF_PUB_LEN)); } break; /* another message key */
            case 3: wickr_identity_destroy(&x->id_chain->root); x->id_chain->root = wickr_identity_copy(A->ctx->id_chain->root); break; /* another root */
            case 4: { uint8_t d = vf_nd_u8(); vf_assume(d); x->id_chain->node->signature->sig_data->bytes[0] ^= d; } break; /* root signature changed */
            case 5: wickr_ephemeral_keypair_destroy(&x->ephemeral_keypair); break;                   /* no message key at all */
        }
    }
#endif
    wickr_node_array_t *nodes = wickr_node_array_new(NREC);
    for (unsigned i = 0; i < NREC; i++) {
#ifdef HOLE
        if (i == HOLE) continue; /* a slot never filled */
#endif
        wickr_node_array_set_item(nodes, i, nd[i]);
    }
    wickr_ephemeral_info_t eph = { 5, 6 };
    uint8_t pb[3] = { 1, 2, 3 };
    wickr_payload_t *p = wickr_payload_create(wickr_packet_meta_create(eph, vf_buf(pb, 2), 7), vf_buf(pb, 3));
#ifdef VERSION
    uint8_t v = VERSION;
#else
    uint8_t v = vf_nd_u8(); /* any unsupported version */
    vf_assume(v < 2 || v > 4);
#endif
    A->ctx->pkt_enc_version = v;
    unsigned enc0 = vf_n_encrypt;
#ifdef FAULTS
    vf_eng_faults = true;
    wickr_encoder_result_t *fe = wickr_ctx_encode_packet(A->ctx, p, nodes);
    vf_eng_faults = false;
    if (fe) { vf_assert(fe->packet && fe->packet_key, "packet and key"); VF_REACH("encoded"); } else VF_REACH("refused");
    wickr_encoder_result_destroy(&fe);
    goto done;
#endif
    wickr_encoder_result_t *enc = wickr_ctx_encode_packet(A->ctx, p, nodes);
    bool expect = !bad;
    if (NREC == 0) expect = false;
#ifdef HOLE
    expect = false;
#endif
    if (expect) expect = v >= 2 && v <= 4;
    vf_assert((enc != NULL) == expect, "encoded exactly when every recipient verifies and the version is supported");
#ifndef VERSION
    if (enc) return 0; /* only infeasible paths come here */
#endif
    if (enc) {
        vf_assert(enc->packet && enc->packet_key, "packet and key");
        vf_assert(vf_n_encrypt - enc0 == NREC + 2, "one wrapped key per recipient, the header and the payload");
        wickr_buffer_t *w = wickr_packet_serialize(enc->packet);
        vf_assert(w, "serializes");
        wickr_ctx_packet_t *in = wickr_ctx_parse_packet_no_decode(A->ctx, w, A->ctx->id_chain);
        vf_assert(in && in->parse_result->err == E_SUCCESS, "parses");
        vf_assert(wickr_array_get_item_count(in->parse_result->key_exchange_set->exchanges) == NREC, "exactly one key exchange per recipient");
        for (unsigned i = 0; i < NREC; i++) {
            wickr_key_exchange_t *x = wickr_exchange_array_fetch_item(in->parse_result->key_exchange_set->exchanges, i);
            vf_assert(x, "exchange"); vf_assert(vf_buf_eq(x->exchange_id, nd[i]->id_chain->node->identifier), "in the order of the recipients"); vf_assert(x->key_id == 11 + i, "naming the message key used");
        }
        wickr_ctx_packet_destroy(&in);
        wickr_buffer_destroy(&w);
    } else {
#if BAD >= 0 || NREC == 0 || defined(HOLE)
        vf_assert(vf_n_encrypt == enc0, "nothing is encrypted for a list that does not verify");
#endif
    }
#ifdef TWICE
    /* the same payload again: nothing secret is reused */
    {
        wickr_encoder_result_t *b = wickr_ctx_encode_packet(A->ctx, p, nodes);
        vf_assert(b, "encoded again"); vf_assert(!vf_buf_eq(enc->packet_key->key_data, b->packet_key->key_data), "every packet has a fresh payload key");
        wickr_buffer_t *w1 = wickr_packet_serialize(enc->packet), *w2 = wickr_packet_serialize(b->packet);
        wickr_ctx_packet_t *i1 = wickr_ctx_parse_packet_no_decode(A->ctx, w1, A->ctx->id_chain), *i2 = wickr_ctx_parse_packet_no_decode(A->ctx, w2, A->ctx->id_chain);
        vf_assert(i1 && i2, "parse"); vf_assert(i1->parse_result->err == E_SUCCESS && i2->parse_result->err == E_SUCCESS, "parse");
        vf_assert(!vf_buf_eq(i1->parse_result->key_exchange_set->sender_pub->pub_data, i2->parse_result->key_exchange_set->sender_pub->pub_data), "every packet has a fresh exchange key");
        for (vf_enc_rec *m = vf_enc; m; m = m->next) for (vf_enc_rec *n = m->next; n; n = n->next)
            if (m->key_len == n->key_len && vf_beq(m->key, m->key_len, n->key, n->key_len)) vf_assert(!vf_beq(m->iv, m->iv_len, n->iv, n->iv_len), "no key is used twice with the same IV");
        wickr_ctx_packet_destroy(&i1); wickr_ctx_packet_destroy(&i2); wickr_buffer_destroy(&w1); wickr_buffer_destroy(&w2); wickr_encoder_result_destroy(&b);
    }
#endif
    wickr_encoder_result_destroy(&enc);
#ifdef FAULTS
done:
#endif
    wickr_payload_destroy(&p);
    wickr_node_array_destroy(&nodes);
    for (unsigned i = 0; i < NREC; i++) { wickr_node_destroy(&nd[i]); wickr_ctx_gen_result_destroy(&R[i]); }
    wickr_ctx_gen_result_destroy(&A);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
