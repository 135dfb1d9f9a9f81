/* Looking up a key exchange: the first one whose identifier equals the one asked for, byte for byte, or none. */
#include "vf_engine.h"
#include "wickr_ctx.h"
#ifndef NEX
#define NEX 3
#endif
#ifndef MAXID
#define MAXID 3
#endif

static wickr_buffer_t *any_id(void)
{
    wickr_buffer_t *b = vf_buf_nd(MAXID);
    size_t n = vf_nd_u8();
    vf_assume(n >= 1 && n <= MAXID);
    b->length = n;
    return b;
}

int main(void)
{
    static wickr_key_exchange_t *x[NEX];
    wickr_exchange_array_t *arr = wickr_exchange_array_new(NEX);
    for (int i = 0; i < NEX; i++) {
        uint8_t iv[16] = { 1, 2 };
        x[i] = wickr_key_exchange_create(any_id(), vf_nd_u64(), wickr_cipher_result_create(CIPHER_AES256_CTR, vf_buf(iv, 16), vf_buf_nd(1), NULL));
        vf_assert(x[i], "exchange is created");
        vf_assert(wickr_exchange_array_set_item(arr, i, x[i]), "exchange is added");
    }
    uint8_t pk[2] = { 9, 9 };
    wickr_ec_key_t *pub = wickr_ec_key_create(EC_CURVE_NIST_P521, vf_buf(pk, 2), NULL);
    wickr_key_exchange_set_t *set = wickr_key_exchange_set_create(pub, arr);
    vf_assert(set, "set is created");
    wickr_buffer_t *q = any_id();
    wickr_key_exchange_t *f = wickr_key_exchange_set_find(set, q);
    int want = -1;
    for (int i = NEX - 1; i >= 0; i--) {
        int eq = x[i]->exchange_id->length == q->length;
        for (size_t k = 0; k < MAXID; k++) eq = eq & ((k >= q->length) | (x[i]->exchange_id->bytes[k] == q->bytes[k]));
        if (eq) want = i;
    }
    vf_assert(!f == (want < 0), "an exchange is found exactly when one has this identifier");
    if (f) {
        wickr_key_exchange_t *w = x[0];
        for (int i = 1; i < NEX; i++) if (want == i) w = x[i];
        vf_assert(f->key_id == w->key_id, "key identifier of the exchange found");
        vf_assert(f->exchange_ciphertext->cipher_text->bytes[0] == w->exchange_ciphertext->cipher_text->bytes[0], "wrapped key of the exchange found");
        vf_assert(f->exchange_id->length == q->length, "identifier of the exchange found");
    }
    vf_assert(!wickr_key_exchange_set_find(NULL, q) && !wickr_key_exchange_set_find(set, NULL), "nothing is found in nothing");
    wickr_key_exchange_destroy(&f);
    wickr_buffer_destroy(&q);
    wickr_key_exchange_set_destroy(&set);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
