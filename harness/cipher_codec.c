/* Cipher results and keys: lossless, and arbitrary bytes are refused or parsed into well-sized objects. */
#include "vf_engine.h"
#include "cipher.h"
#include "private/cipher_priv.h"

static const wickr_cipher_t *pick(void) { return vf_nd_fork(0, 1) ? &CIPHER_AES256_CTR : &CIPHER_AES256_GCM; }
static bool same_cipher(const wickr_cipher_t *a, const wickr_cipher_t *b)
{ return a->cipher_id == b->cipher_id && a->key_len == b->key_len && a->iv_len == b->iv_len && a->auth_tag_len == b->auth_tag_len && a->is_authenticated == b->is_authenticated; }
static wickr_buffer_t *raw(size_t n) /* exactly n bytes */
{ wickr_buffer_t *b = malloc(sizeof(*b)); b->length = n; b->bytes = n ? malloc(n) : NULL; vf_nd_bytes(b->bytes, n); return b; }
static void rawfree(wickr_buffer_t *b) { free(b->bytes); free(b); }

int main(void)
{
    vf_assert(wickr_cipher_find(CIPHER_ID_AES256_GCM) && same_cipher(wickr_cipher_find(CIPHER_ID_AES256_GCM), &(wickr_cipher_t){ CIPHER_ID_AES256_GCM, 32, 12, 16, true }), "AES-256-GCM parameters");
    vf_assert(wickr_cipher_find(CIPHER_ID_AES256_CTR) && same_cipher(wickr_cipher_find(CIPHER_ID_AES256_CTR), &(wickr_cipher_t){ CIPHER_ID_AES256_CTR, 32, 16, 0, false }), "AES-256-CTR parameters");
#if CASE == 1
    const wickr_cipher_t *c = pick();
    size_t n = vf_nd_fork(0, 3);
    wickr_buffer_t *iv = vf_buf_nd(c->iv_len), *ct = n ? vf_buf_nd(n) : NULL, *tag = c->is_authenticated ? vf_buf_nd(c->auth_tag_len) : NULL;
    wickr_cipher_result_t *r = wickr_cipher_result_create(*c, iv, ct, tag);
    vf_assert(r && wickr_cipher_result_is_valid(r), "well-sized parts make a valid result");
    wickr_buffer_t *s = wickr_cipher_result_serialize(r);
    vf_assert(s && s->length == 1u + c->iv_len + c->auth_tag_len + n, "serialized size");
    vf_assert(s->bytes[0] == c->cipher_id && vf_beq(s->bytes + 1, c->iv_len, iv->bytes, iv->length), "cipher id then IV");
    wickr_cipher_result_t *q = wickr_cipher_result_from_buffer(s);
    vf_assert(q && same_cipher(&q->cipher, c) && vf_buf_eq(q->iv, iv) && vf_buf_eq(q->auth_tag, tag) && vf_buf_eq(q->cipher_text, ct), "cipher result round trip");
    ProtobufCBinaryData pb = { 0, NULL };
    vf_assert(wickr_cipher_result_to_protobytes(&pb, r), "to protobuf field");
    wickr_cipher_result_t *q2 = wickr_cipher_result_from_protobytes(pb);
    vf_assert(q2 && same_cipher(&q2->cipher, c) && vf_buf_eq(q2->iv, iv) && vf_buf_eq(q2->auth_tag, tag) && vf_buf_eq(q2->cipher_text, ct), "protobuf round trip");
    free(pb.data);
    wickr_cipher_result_destroy(&q2); wickr_cipher_result_destroy(&q); wickr_cipher_result_destroy(&r); wickr_buffer_destroy(&s);
    wickr_buffer_t *kd = vf_buf_nd(c->key_len);
    wickr_cipher_key_t *k = wickr_cipher_key_create(*c, kd);
    vf_assert(k, "well-sized key data makes a key");
    s = wickr_cipher_key_serialize(k);
    vf_assert(s && s->length == 1u + c->key_len && s->bytes[0] == c->cipher_id, "serialized key");
    wickr_cipher_key_t *k2 = wickr_cipher_key_from_buffer(s);
    vf_assert(k2 && same_cipher(&k2->cipher, c) && vf_buf_eq(k2->key_data, kd), "cipher key round trip");
    pb.data = NULL;
    vf_assert(wickr_cipher_key_to_protobytes(&pb, k), "key to protobuf field");
    wickr_cipher_key_t *k3 = wickr_cipher_key_from_protobytes(pb);
    vf_assert(k3 && same_cipher(&k3->cipher, c) && vf_buf_eq(k3->key_data, kd), "cipher key protobuf round trip");
    free(pb.data);
    wickr_cipher_key_destroy(&k3); wickr_cipher_key_destroy(&k2); wickr_cipher_key_destroy(&k); wickr_buffer_destroy(&s);
#elif CASE == 2 /* construction refuses inconsistent parts */
    const wickr_cipher_t *c = pick();
    size_t il = vf_nd_fork(10, 17), tl = vf_nd_fork(15, 17);
    wickr_buffer_t *iv = vf_buf_nd(il), *tag = vf_nd_fork(0, 1) ? vf_buf_nd(tl) : NULL, *ct = vf_buf_nd(2);
    wickr_cipher_result_t *r = wickr_cipher_result_create(*c, iv, ct, tag);
    bool good = il == c->iv_len && (c->is_authenticated ? tag && tl == 16 : !tag);
    vf_assert((r != NULL) == good, "result accepted exactly for the cipher's IV and tag sizes");
    vf_assert(!wickr_cipher_result_create(*c, NULL, ct, tag), "an IV is required");
    if (r) wickr_cipher_result_destroy(&r); else { wickr_buffer_destroy(&iv); wickr_buffer_destroy(&ct); wickr_buffer_destroy(&tag); }
    size_t kl = vf_nd_fork(31, 33);
    wickr_buffer_t *kd = vf_buf_nd(kl);
    wickr_cipher_key_t *k = wickr_cipher_key_create(*c, kd);
    vf_assert((k != NULL) == (kl == c->key_len), "key accepted exactly for the cipher's key size");
    if (k) wickr_cipher_key_destroy(&k); else wickr_buffer_destroy(&kd);
    vf_assert(!wickr_cipher_key_create(*c, NULL) && !wickr_cipher_key_copy(NULL) && !wickr_cipher_result_copy(NULL), "nothing");
    vf_assert(!wickr_cipher_result_is_valid(NULL) && !wickr_cipher_result_serialize(NULL) && !wickr_cipher_key_serialize(NULL), "nothing");
#elif CASE == 3 /* arbitrary bytes */
    size_t n = vf_nd_fork(LO, HI);
    wickr_buffer_t *b = raw(n);
    uint8_t id = n ? b->bytes[0] : 0xFF;
    size_t need = id == 0 ? 29 : id == 1 ? 17 : 1000;
    wickr_cipher_result_t *r = wickr_cipher_result_from_buffer(b);
    vf_assert((r != NULL) == (n >= need), "parsed exactly when the cipher is known and all fixed parts are present");
    if (r) {
        vf_assert(r->iv && r->iv->length == r->cipher.iv_len && (r->cipher.is_authenticated ? r->auth_tag && r->auth_tag->length == r->cipher.auth_tag_len : !r->auth_tag), "component sizes are those of the cipher");
        vf_assert(r->cipher.cipher_id == id && wickr_cipher_result_is_valid(r), "cipher named by the first byte");
        vf_assert(1 + r->iv->length + (r->auth_tag ? r->auth_tag->length : 0) + (r->cipher_text ? r->cipher_text->length : 0) == n, "all bytes accounted for");
        wickr_buffer_t *s = wickr_cipher_result_serialize(r);
        vf_assert(vf_buf_eq(s, b), "re-serializing gives the same bytes");
        wickr_buffer_destroy(&s);
    }
    if (r) wickr_cipher_result_destroy(&r);
    wickr_cipher_key_t *k = wickr_cipher_key_from_buffer(b);
    vf_assert((k != NULL) == (n >= 33 && id <= 1), "key parsed exactly when the cipher is known and the key is complete");
    if (k) vf_assert(k->cipher.cipher_id == id && k->key_data->length == k->cipher.key_len && vf_beq(k->key_data->bytes, 32, b->bytes + 1, 32), "key bytes");
    wickr_cipher_key_destroy(&k);
    vf_assert(!wickr_cipher_result_from_buffer(NULL) && !wickr_cipher_key_from_buffer(NULL), "nothing");
    rawfree(b);
#endif
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
