/* Any 64-bit state: the numbers of evolutions between any two sequence numbers, at full width, with a counting engine. */
#include "vf.h"
#include "stream_ctx.h"
#include "memory.h"
static wickr_buffer_t *b(size_t n, uint8_t v) { wickr_buffer_t *r = malloc(sizeof(*r)); r->length = n; r->bytes = malloc(n); memset(r->bytes, v, n); return r; }
/* evolving: first half names the count, second half the count too */
static wickr_buffer_t *hmac(const wickr_buffer_t *data, const wickr_buffer_t *key, const wickr_digest_t m)
{
    if (data->length == sizeof(uint64_t)) return b(64, 0xEE); /* iv */
    vf_assert(data->length == 32 && key->length == 32 && data->bytes[0] == key->bytes[0], "the next keys come from both current keys");
    return b(64, data->bytes[0] + 1);
}
static wickr_buffer_t *rnd(size_t n) { return b(n, 0x99); }
static uint8_t used; static unsigned calls;
static wickr_cipher_result_t *enc(const wickr_buffer_t *pt, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv)
{
    used = key->key_data->bytes[31]; calls++;
    vf_assert(iv && iv->length == 12, "iv");
    wickr_cipher_result_t *r = calloc(1, sizeof(*r));
    r->cipher = key->cipher; r->iv = b(12, 0); r->auth_tag = b(16, 0); r->cipher_text = b(1, 0);
    return r;
}
static wickr_buffer_t *dec(const wickr_cipher_result_t *c, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, bool only_auth)
{
    used = key->key_data->bytes[31]; calls++;
    vf_assert(only_auth, "only authenticated text is decrypted");
    return b(1, 7);
}
int main(void)
{
    wickr_crypto_engine_t e; memset(&e, 0, sizeof(e));
    e.wickr_crypto_engine_hmac_create = hmac; e.wickr_crypto_engine_crypto_random = rnd;
    e.wickr_crypto_engine_cipher_encrypt = enc; e.wickr_crypto_engine_cipher_decrypt = dec;
    wickr_stream_key_t *k = wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, b(32, 0)), b(32, 0), PPE);
    wickr_stream_ctx_t *c = wickr_stream_ctx_create(e, k, DIR);
    c->last_seq = vf_nd_u64(); /* any earlier history */
    uint64_t last = c->last_seq, seq = vf_nd_u64();
    vf_assume(seq <= last || seq / PPE - last / PPE <= EVOS);
    uint8_t one = 1; wickr_buffer_t data = { 1, &one };
#if DIR == 0
    wickr_cipher_result_t *r = wickr_stream_ctx_encode(c, &data, NULL, seq);
#else
    wickr_cipher_result_t m = { CIPHER_AES256_GCM, &data, &data, &data };
    wickr_buffer_t *r = wickr_stream_ctx_decode(c, &m, NULL, seq);
#endif
    vf_assert((r != NULL) == (seq > last), "accepted exactly when greater than every number before");
    if (r) {
        vf_assert(calls == 1 && used == (uint8_t)(seq / PPE - last / PPE), "the key evolved once per boundary crossed");
        vf_assert(c->last_seq == seq, "the number is consumed");
    } else vf_assert(calls == 0 && c->last_seq == last && c->key->cipher_key->key_data->bytes[0] == 0, "a refused number changes nothing");
#if DIR == 0
    if (r) wickr_cipher_result_destroy(&r);
#else
    wickr_buffer_destroy(&r);
#endif
    wickr_stream_ctx_destroy(&c);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
