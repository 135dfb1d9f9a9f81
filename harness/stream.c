/* A stream and its peer against a reference: increasing sequence numbers only, keyed evolution at the boundaries,
   fresh IVs, genuine packets recovered, anything else refused. */
#include "vf_engine.h"
#include "stream_ctx.h"
#ifndef PPE
#define PPE 2
#endif
#ifndef NPKT
#define NPKT 3
#endif
#ifndef SMAX
#define SMAX 5
#endif
#ifndef FIRST
#define FIRST 1
#endif
#define NEVO ((SMAX + FIRST + 2) / PPE + 1)
static wickr_crypto_engine_t e;
static wickr_buffer_t *refkey[NEVO];

static void reference(const wickr_stream_key_t *k)
{
    wickr_buffer_t *c = wickr_buffer_copy(k->cipher_key->key_data), *v = wickr_buffer_copy(k->evolution_key);
    for (unsigned i = 0; i < NEVO; i++) {
        refkey[i] = c;
        wickr_buffer_t *h = e.wickr_crypto_engine_hmac_create(c, v, DIGEST_SHA_512);
        c = vf_buf(h->bytes, 32);
        wickr_buffer_destroy(&v);
        v = vf_buf(h->bytes + 32, 32);
        wickr_buffer_destroy(&h);
    }
    wickr_buffer_destroy(&c); wickr_buffer_destroy(&v);
}
static void key_iv_unique(void)
{
    for (vf_enc_rec *a = vf_enc; a; a = a->next)
        for (vf_enc_rec *b = a->next; b; b = b->next) {
            bool same = vf_beq(a->key, a->key_len, b->key, b->key_len);
            VF_AND(same, vf_beq(a->iv, a->iv_len, b->iv, b->iv_len));
            vf_assert(!same, "no two packets use the same key and IV");
        }
}
static wickr_buffer_t *nonempty(void) { return vf_buf_nd(1); }

int main(void)
{
    e = vf_engine();
    wickr_stream_key_t *sk = wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, PPE);
    vf_assert(sk && sk->packets_per_evolution == PPE && sk->cipher_key->key_data->length == 32 && sk->evolution_key->length == 32, "random stream key");
    reference(sk);
    wickr_stream_ctx_t *tx = wickr_stream_ctx_create(e, wickr_stream_key_copy(sk), STREAM_DIRECTION_ENCODE);
    wickr_stream_ctx_t *rx = wickr_stream_ctx_create(e, sk, STREAM_DIRECTION_DECODE);
    vf_assert(tx && rx, "streams are created");
#if SCEN == 1 /* any attempts to encode and decode with honest packets */
    uint64_t last = 0, rlast = 0;
    for (int i = 0; i < NPKT; i++) {
        uint64_t seq = i == 0 ? FIRST : vf_nd_fork(0, SMAX);
        wickr_buffer_t *data = vf_buf_nd(2), *aad = i & 1 ? vf_buf_nd(1) : NULL;
        unsigned before = vf_enc_n;
        wickr_cipher_result_t *ct = wickr_stream_ctx_encode(tx, data, aad, seq);
        vf_assert((ct != NULL) == (seq > last), "a packet is encoded exactly when its number is greater than all before");
        vf_assert(!wickr_stream_ctx_encode(rx, data, aad, seq + SMAX), "a decoding stream does not encode");
        if (ct) {
            last = seq;
            vf_assert(vf_enc_n == before + 1, "one encryption per packet");
            vf_assert(vf_beq(vf_enc->key, vf_enc->key_len, refkey[seq / PPE]->bytes, 32), "the key is the one of the packet's evolution");
            vf_assert(vf_enc->iv_len == 12, "iv length");
            vf_assert(!wickr_stream_ctx_decode(tx, ct, aad, seq + 1), "an encoding stream does not decode");
            if (vf_nd_fork(0, 1)) { /* delivered */
                wickr_buffer_t *pt = wickr_stream_ctx_decode(rx, ct, aad, seq);
                vf_assert(pt && vf_buf_eq(pt, data), "the receiver recovers the data");
                rlast = seq;
                wickr_buffer_destroy(&pt);
                vf_assert(!wickr_stream_ctx_decode(rx, ct, aad, seq), "a replay is refused");
            }
            wickr_cipher_result_destroy(&ct);
        } else vf_assert(vf_enc_n == before, "nothing is encrypted for a refused number");
        wickr_buffer_destroy(&data); wickr_buffer_destroy(&aad);
    }
    key_iv_unique();
#elif SCEN == 2 /* the adversary delivers: any packet, any number, changed text, tag, iv or associated data */
    wickr_cipher_result_t *ct[2]; wickr_buffer_t *data[2], *aad[2];
    uint64_t sn[2];
    for (int i = 0; i < 2; i++) {
        sn[i] = i == 0 ? FIRST : FIRST + 1 + vf_nd_fork(0, 1);
        data[i] = vf_buf_nd(1); aad[i] = vf_buf_nd(1);
        ct[i] = wickr_stream_ctx_encode(tx, data[i], aad[i], sn[i]);
        vf_assert(ct[i], "encoded");
    }
    uint64_t top = 0, accepted = 0; /* top: every number offered so far is at most top */
    for (int i = 0; i < NPKT; i++) {
        uint32_t which = vf_nd_fork(0, 1);
        uint64_t seq = vf_nd_fork(1, SMAX);
        wickr_cipher_result_t *m = wickr_cipher_result_copy(ct[which]);
        uint8_t d0 = vf_nd_u8(), d1 = vf_nd_u8(), d2 = vf_nd_u8(), d3 = vf_nd_u8();
        m->cipher_text->bytes[0] ^= d0;
        m->auth_tag->bytes[15] ^= d1;
        m->iv->bytes[11] ^= d2;
        wickr_buffer_t *a = wickr_buffer_copy(aad[which]);
        a->bytes[0] ^= d3;
        bool genuine = !d0 && !d1 && !d2 && !d3;
        wickr_buffer_t *pt = wickr_stream_ctx_decode(rx, m, a, seq);
        vf_assert(!pt || genuine, "tampered text, tag, iv or associated data yields nothing");
        vf_assert(!pt || seq > accepted, "only numbers above every accepted one are accepted");
        vf_assert(!pt || seq / PPE == sn[which] / PPE, "a packet moved to another key evolution yields nothing");
        vf_assert(!pt || vf_buf_eq(pt, data[which]), "accepted data is the sender's");
        vf_assert(pt || !(genuine && seq == sn[which] && seq > top), "a genuine packet with a number above all earlier attempts is accepted");
        top = seq > top ? seq : top;
        if (pt) { accepted = seq; wickr_buffer_destroy(&pt); }
        wickr_buffer_destroy(&a); wickr_cipher_result_destroy(&m);
    }
    for (int i = 0; i < 2; i++) { wickr_cipher_result_destroy(&ct[i]); wickr_buffer_destroy(&data[i]); wickr_buffer_destroy(&aad[i]); }
#elif SCEN == 3 /* copies in the middle of a stream continue it */
    uint64_t s1 = vf_nd_fork(1, 2), s2 = vf_nd_fork(3, SMAX);
    wickr_buffer_t *d1 = nonempty(), *d2 = nonempty();
    wickr_cipher_result_t *c1 = wickr_stream_ctx_encode(tx, d1, NULL, s1);
    wickr_stream_ctx_t *tx2 = wickr_stream_ctx_copy(tx);
    vf_assert(tx2 && tx2->last_seq == s1 && tx2->direction == STREAM_DIRECTION_ENCODE && tx2->key != tx->key && tx2->iv_factory != tx->iv_factory, "a copy carries the state");
    wickr_stream_ctx_destroy(&tx); tx = tx2;
    vf_assert(!wickr_stream_ctx_encode(tx, d2, NULL, s1), "the copy refuses numbers already used");
    wickr_cipher_result_t *c2 = wickr_stream_ctx_encode(tx, d2, NULL, s2);
    vf_assert(c1 && c2, "encoded");
    wickr_buffer_t *p1 = wickr_stream_ctx_decode(rx, c1, NULL, s1);
    wickr_stream_ctx_t *rx2 = wickr_stream_ctx_copy(rx);
    vf_assert(rx2, "copy");
    wickr_stream_ctx_destroy(&rx); rx = rx2;
    vf_assert(!wickr_stream_ctx_decode(rx, c1, NULL, s1), "the copy refuses a replay");
    wickr_buffer_t *p2 = wickr_stream_ctx_decode(rx, c2, NULL, s2);
    vf_assert(vf_buf_eq(p1, d1) && vf_buf_eq(p2, d2), "data recovered");
    key_iv_unique();
    wickr_buffer_destroy(&d1); wickr_buffer_destroy(&d2); wickr_buffer_destroy(&p1); wickr_buffer_destroy(&p2);
    wickr_cipher_result_destroy(&c1); wickr_cipher_result_destroy(&c2);
    vf_assert(wickr_stream_ctx_ref_up(tx), "reference");
    wickr_stream_ctx_t *t = tx;
    wickr_stream_ctx_destroy(&t);
    vf_assert(tx->last_seq == s2 && tx->key, "a referenced stream stays alive");
#elif SCEN == 4 /* a changed packet between genuine ones does not take the receiver off the key schedule */
    for (uint64_t i = 0; i < NPKT; i++) {
        uint64_t seq = FIRST + i * STEP;
        wickr_buffer_t *d = nonempty();
        wickr_cipher_result_t *c = wickr_stream_ctx_encode(tx, d, NULL, seq);
        vf_assert(c, "encoded");
        vf_assert(vf_beq(vf_enc->key, vf_enc->key_len, refkey[seq / PPE]->bytes, 32), "the key is the one of the packet's evolution");
        if (i == BAD) { uint8_t x = vf_nd_u8(); vf_assume(x); if (vf_nd_fork(0, 1)) c->cipher_text->bytes[0] ^= x; else c->auth_tag->bytes[3] ^= x; }
        wickr_buffer_t *pt = wickr_stream_ctx_decode(rx, c, NULL, seq);
        if (i == BAD) vf_assert(!pt, "a changed packet yields nothing");
        else { vf_assert(pt, "a genuine packet is recovered"); vf_assert(vf_buf_eq(pt, d), "a genuine packet is recovered"); }
        wickr_buffer_destroy(&pt); wickr_buffer_destroy(&d); wickr_cipher_result_destroy(&c);
    }
#endif
    wickr_stream_ctx_destroy(&tx); wickr_stream_ctx_destroy(&rx);
    for (unsigned i = 0; i < NEVO; i++) wickr_buffer_destroy(&refkey[i]);
    wickr_stream_key_t *ctr = wickr_stream_key_create_rand(e, CIPHER_AES256_CTR, PPE);
    vf_assert(ctr && !wickr_stream_ctx_create(e, ctr, STREAM_DIRECTION_ENCODE) && !wickr_stream_ctx_create(e, ctr, STREAM_DIRECTION_DECODE) && !wickr_stream_ctx_create(e, NULL, STREAM_DIRECTION_DECODE), "streams need an authenticated cipher");
    wickr_stream_key_destroy(&ctr);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
