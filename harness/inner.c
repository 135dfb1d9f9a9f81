/* Payloads and key-exchange sets: stored form and encrypted form (CASE 1: payload, 2: key exchange set). */
#include "vf_engine.h"
#include "protocol.h"
#include "payload.h"
#include "key_exchange.h"
#ifndef BODY
#define BODY 3
#endif
#ifndef TAG
#define TAG 2
#endif
static wickr_cipher_key_t *ckey(wickr_cipher_t c) { return wickr_cipher_key_create(c, vf_buf_nd(c.key_len)); }
static bool same_cr(const wickr_cipher_result_t *a, const wickr_cipher_result_t *b)
{
    bool r = a->cipher.cipher_id == b->cipher.cipher_id;
    VF_AND(r, vf_buf_eq(a->iv, b->iv));
    VF_AND(r, vf_buf_eq(a->cipher_text, b->cipher_text));
    VF_AND(r, vf_buf_eq(a->auth_tag, b->auth_tag));
    return r;
}
/* FORM 1: another key, FORM 2: same key, changed ciphertext, FORM 3: changed tag or IV */
#if FORM == 1
#define SPOIL vf_assume(!vf_buf_eq(k->key_data, k2->key_data));
#elif FORM == 2
#define SPOIL wickr_cipher_key_destroy(&k2); k2 = wickr_cipher_key_copy(k); uint8_t d = vf_nd_u8(); vf_assume(d); enc->cipher_text->bytes[3] ^= d;
#elif FORM == 3
#define SPOIL wickr_cipher_key_destroy(&k2); k2 = wickr_cipher_key_copy(k); uint8_t d = vf_nd_u8(); vf_assume(d); if (vf_nd_bool()) enc->auth_tag->bytes[15] ^= d; else enc->iv->bytes[0] ^= d;
#endif
#if CASE == 1
static void same(const wickr_payload_t *a, const wickr_payload_t *b)
{
    vf_assert(a, "a payload comes back"); 
    vf_assert(vf_buf_eq(a->body, b->body), "body");
    vf_assert(vf_buf_eq(a->meta->channel_tag, b->meta->channel_tag), "channel tag");
    vf_assert(a->meta->content_type == b->meta->content_type, "content type");
    vf_assert(a->meta->ephemerality_settings.ttl == b->meta->ephemerality_settings.ttl, "ttl");
    vf_assert(a->meta->ephemerality_settings.bor == b->meta->ephemerality_settings.bor, "bor");
    vf_assert(a->body != b->body, "own body"); vf_assert(a->meta->channel_tag != b->meta->channel_tag, "own tag");
}
#else
static void same_ex(const wickr_key_exchange_t *a, const wickr_key_exchange_t *b)
{
    vf_assert(a, "an exchange comes back"); vf_assert(a != b, "own exchange");
    vf_assert(vf_buf_eq(a->exchange_id, b->exchange_id), "identifier");
    vf_assert(a->key_id == b->key_id, "key id");
    vf_assert(same_cr(a->exchange_ciphertext, b->exchange_ciphertext), "wrapped key");
    vf_assert(a->exchange_id != b->exchange_id, "own identifier"); vf_assert(a->exchange_ciphertext != b->exchange_ciphertext, "own ciphertext");
}
static void same(const wickr_key_exchange_set_t *a, const wickr_key_exchange_set_t *b)
{
    vf_assert(a, "a set comes back");
    vf_assert(vf_buf_eq(a->sender_pub->pub_data, b->sender_pub->pub_data), "exchange public key");
    vf_assert(wickr_array_get_item_count(a->exchanges) == NEX, "one entry per exchange");
    for (unsigned i = 0; i < NEX; i++) same_ex(wickr_exchange_array_fetch_item(a->exchanges, i), wickr_exchange_array_fetch_item(b->exchanges, i));
}
#endif
int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
    wickr_cipher_key_t *k = e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM), *k2 = ckey(CIPHER_AES256_GCM);
#if CASE == 1
    wickr_ephemeral_info_t eph = { vf_nd_u64(), vf_nd_u64() };
    wickr_payload_t *p = wickr_payload_create(wickr_packet_meta_create(eph, vf_buf_nd(TAG), vf_nd_u16()), vf_buf_nd(BODY)), *q;
    vf_assert(p, "created");
    wickr_payload_t *c = wickr_payload_copy(p);
    same(c, p);
#if FORM == 0
    wickr_buffer_t *w = wickr_payload_serialize(p);
    vf_assert(w, "serialized");
    q = wickr_payload_create_from_buffer(w);
    wickr_payload_destroy(&p);
    same(q, c);
    wickr_payload_destroy(&q);
    vf_assert(!wickr_payload_serialize(NULL), "nothing"); vf_assert(!wickr_payload_copy(NULL), "nothing"); vf_assert(!wickr_payload_create_from_buffer(NULL), "nothing"); vf_assert(!wickr_payload_create_from_cipher(&e, NULL, k), "nothing"); vf_assert(!wickr_payload_encrypt(c, &e, NULL), "nothing");
    w->bytes[0] ^= 1;
    vf_assert(!wickr_payload_create_from_buffer(w), "bytes that are no message are refused");
    wickr_buffer_destroy(&w);
#else
    wickr_cipher_result_t *enc = wickr_payload_encrypt(p, &e, k);
    vf_assert(enc, "encrypted");
    wickr_payload_destroy(&p);
    vf_assert(vf_enc_n == 1, "encrypted once"); vf_assert(vf_enc->aad_len == 0, "no associated data"); vf_assert(vf_beq(vf_enc->key, vf_enc->key_len, k->key_data->bytes, k->key_data->length), "encrypted under the payload key");
    q = wickr_payload_create_from_cipher(&e, enc, k);
    same(q, c);
    wickr_payload_destroy(&q);
    SPOIL
    vf_assert(!wickr_payload_create_from_cipher(&e, enc, k2), "another key or changed ciphertext yields nothing");
    wickr_cipher_result_destroy(&enc);
#endif
    wickr_payload_destroy(&c);
#else
    wickr_exchange_array_t *a = wickr_exchange_array_new(NEX);
    for (unsigned i = 0; i < NEX; i++) {
        wickr_cipher_t cph = (i + NEX) % 2 ? CIPHER_AES256_CTR : CIPHER_AES256_GCM;
        wickr_cipher_result_t *cr = wickr_cipher_result_create(cph, vf_buf_nd(cph.iv_len), vf_buf_nd(2), cph.is_authenticated ? vf_buf_nd(cph.auth_tag_len) : NULL);
        vf_assert(wickr_exchange_array_set_item(a, i, wickr_key_exchange_create(vf_buf_nd(2), vf_nd_u64(), cr)), "filled");
    }
    wickr_key_exchange_set_t *s = wickr_key_exchange_set_create(vf_key_new(false), a), *q;
    vf_assert(s, "created");
    wickr_key_exchange_set_t *c = wickr_key_exchange_set_copy(s);
    same(c, s);
#if FORM == 0
    wickr_buffer_t *w = wickr_key_exchange_set_serialize(s);
    vf_assert(w, "serialized");
    q = wickr_key_exchange_set_create_from_buffer(&e, w);
    wickr_key_exchange_set_destroy(&s);
    same(q, c);
    wickr_key_exchange_set_destroy(&q);
    w->bytes[0] ^= 1;
    vf_assert(!wickr_key_exchange_set_create_from_buffer(&e, w), "bytes that are no message are refused");
    vf_assert(!wickr_key_exchange_set_find(NULL, w), "nothing"); vf_assert(!wickr_key_exchange_set_find(c, NULL), "nothing"); vf_assert(!wickr_key_exchange_set_copy(NULL), "nothing"); vf_assert(!wickr_key_exchange_set_serialize(NULL), "nothing"); vf_assert(!wickr_key_exchange_set_create_from_buffer(&e, NULL), "nothing"); vf_assert(!wickr_key_exchange_copy(NULL), "nothing");
    wickr_buffer_destroy(&w);
    /* find: the first exchange with that identifier, or nothing */
    wickr_buffer_t *id = vf_buf_nd(2);
    uint64_t want = 0; bool there = false;
    for (unsigned i = NEX; i-- > 0;) {
        const wickr_key_exchange_t *x = wickr_exchange_array_fetch_item(c->exchanges, i);
        bool eq = (x->exchange_id->bytes[0] == id->bytes[0]) & (x->exchange_id->bytes[1] == id->bytes[1]);
        want = eq ? x->key_id : want; there = there | eq;
    }
    wickr_key_exchange_t *f = wickr_key_exchange_set_find(c, id);
    if (!f) vf_assert(!there, "found when present");
    else {
        vf_assert(there, "found only when present"); vf_assert(f->key_id == want, "the first such exchange");
        vf_assert(f->exchange_id->bytes[0] == id->bytes[0] && f->exchange_id->bytes[1] == id->bytes[1], "its identifier");
        for (unsigned i = 0; i < NEX; i++) vf_assert(f != wickr_exchange_array_fetch_item(c->exchanges, i), "an own copy");
    }
    wickr_key_exchange_destroy(&f);
    wickr_buffer_destroy(&id);
#else
    wickr_cipher_result_t *enc = wickr_key_exchange_set_encrypt(s, &e, k);
    vf_assert(enc, "encrypted");
    wickr_key_exchange_set_destroy(&s);
    vf_assert(vf_enc_n == 1, "encrypted once"); vf_assert(vf_enc->aad_len == 0, "no associated data"); vf_assert(vf_beq(vf_enc->key, vf_enc->key_len, k->key_data->bytes, k->key_data->length), "encrypted under the header key");
    q = wickr_key_exchange_set_create_from_cipher(&e, enc, k);
    same(q, c);
    wickr_key_exchange_set_destroy(&q);
    SPOIL
    vf_assert(!wickr_key_exchange_set_create_from_cipher(&e, enc, k2), "another key or changed ciphertext yields nothing");
    wickr_cipher_result_destroy(&enc);
#endif
    wickr_key_exchange_set_destroy(&c);
#endif
    wickr_cipher_key_destroy(&k); wickr_cipher_key_destroy(&k2);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
