/* ECDH cipher contexts: both ends agree, nobody else, nothing else. */
#include "vf_engine.h"
#include "ecdh_cipher_ctx.h"
#include "memory.h"
#ifndef HALGO
#define HALGO KDF_HKDF_SHA512
#endif
#ifdef CTR
#define CIPHER CIPHER_AES256_CTR
#else
#define CIPHER CIPHER_AES256_GCM
#endif
static void kill(wickr_buffer_t **b, wickr_buffer_t *pt)
{
#ifdef CTR
    vf_assert(*b == NULL || !vf_buf_eq(*b, pt), "never the plaintext");
#else
    vf_assert(*b == NULL, "never decrypts");
#endif
    wickr_buffer_destroy(b);
}
int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
#ifdef FAULTS
    vf_eng_faults = true;
#endif
    wickr_ecdh_cipher_ctx_t *A = wickr_ecdh_cipher_ctx_create(e, EC_CURVE_NIST_P521, CIPHER);
    wickr_ecdh_cipher_ctx_t *B = wickr_ecdh_cipher_ctx_create(e, EC_CURVE_NIST_P521, CIPHER);
#ifdef FAULTS
    if (!A || !B) { wickr_ecdh_cipher_ctx_destroy(&A); wickr_ecdh_cipher_ctx_destroy(&B); vf_check_no_leak(); return 0; }
#endif
    vf_assert(A, "context"); vf_assert(B, "context");
    vf_assert(A->local_key, "own key"); vf_assert(A->local_key->pri_data, "own key");
    vf_assert(!vf_buf_eq(A->local_key->pub_data, B->local_key->pub_data), "every context has a fresh key");
    wickr_ec_key_t *apub = wickr_ec_key_create(EC_CURVE_NIST_P521, wickr_buffer_copy(A->local_key->pub_data), NULL), *bpub = wickr_ec_key_create(EC_CURVE_NIST_P521, wickr_buffer_copy(B->local_key->pub_data), NULL);
#ifdef NOSALT
    wickr_kdf_meta_t *kp = wickr_kdf_meta_create(HALGO, NULL, vf_buf_nd(2));
#elif defined NOINFO
    wickr_kdf_meta_t *kp = wickr_kdf_meta_create(HALGO, vf_buf_nd(2), NULL);
#else
    wickr_kdf_meta_t *kp = wickr_kdf_meta_create(HALGO, vf_buf_nd(2), vf_buf_nd(2));
#endif
    vf_assert(kp, "parameters");
    wickr_buffer_t *pt = vf_buf_nd(3);
    wickr_cipher_result_t *c = wickr_ecdh_cipher_ctx_cipher(A, pt, bpub, kp);
#ifdef FAULTS
    if (c)
#endif
    {
    vf_assert(c, "encrypts");
    vf_assert(c->cipher.cipher_id == CIPHER.cipher_id, "with the cipher of the context");
    vf_assert(vf_enc->key_len == CIPHER.key_len, "key of the size of the cipher");
    vf_assert(vf_beq(vf_enc->pt, vf_enc->pt_len, pt->bytes, pt->length), "exactly the plaintext is encrypted");
    wickr_buffer_t *d = wickr_ecdh_cipher_ctx_decipher(B, c, apub, kp);
#ifdef FAULTS
    if (d)
#endif
    vf_assert(vf_buf_eq(d, pt), "the peer decrypts it");
    wickr_buffer_destroy(&d);
#ifndef FAULTS
    wickr_ecdh_cipher_ctx_t *B2 = wickr_ecdh_cipher_ctx_copy(B);
    vf_assert(B2, "copy"); vf_assert(B2->local_key != B->local_key, "copy");
    d = wickr_ecdh_cipher_ctx_decipher(B2, c, apub, kp);
    vf_assert(vf_buf_eq(d, pt), "so does a copy of its context"); wickr_buffer_destroy(&d);
    d = wickr_ecdh_cipher_ctx_decipher(A, c, bpub, kp);
    vf_assert(vf_buf_eq(d, pt), "the shared key is the same on both sides"); wickr_buffer_destroy(&d);
    wickr_ecdh_cipher_ctx_t *C = wickr_ecdh_cipher_ctx_create(e, EC_CURVE_NIST_P521, CIPHER);
    d = wickr_ecdh_cipher_ctx_decipher(C, c, apub, kp); kill(&d, pt);
    d = wickr_ecdh_cipher_ctx_decipher(B, c, C->local_key, kp); kill(&d, pt);
    d = wickr_ecdh_cipher_ctx_decipher(B, c, bpub, kp); kill(&d, pt);
    uint8_t x = vf_nd_u8(); vf_assume(x != 0);
#ifndef NOSALT
    kp->salt->bytes[1] ^= x;
    d = wickr_ecdh_cipher_ctx_decipher(B, c, apub, kp); kill(&d, pt);
    kp->salt->bytes[1] ^= x;
#endif
#ifndef NOINFO
    kp->info->bytes[0] ^= x;
    d = wickr_ecdh_cipher_ctx_decipher(B, c, apub, kp); kill(&d, pt);
    kp->info->bytes[0] ^= x;
#endif
    /* the other algorithms */
    wickr_kdf_algo_t keep = kp->algo;
    kp->algo = keep.kdf_id == KDF_HKDF_SHA512.kdf_id ? KDF_HKDF_SHA256 : KDF_HKDF_SHA512;
    d = wickr_ecdh_cipher_ctx_decipher(B, c, apub, kp); kill(&d, pt);
    kp->algo = KDF_SCRYPT_2_17;
    vf_assert(!wickr_ecdh_cipher_ctx_decipher(B, c, apub, kp), "only HKDF"); vf_assert(!wickr_ecdh_cipher_ctx_cipher(B, pt, apub, kp), "only HKDF");
    kp->algo = KDF_BCRYPT_15;
    vf_assert(!wickr_ecdh_cipher_ctx_decipher(B, c, apub, kp), "only HKDF"); vf_assert(!wickr_ecdh_cipher_ctx_cipher(B, pt, apub, kp), "only HKDF");
    kp->algo = keep;
    /* another cipher */
    B2->cipher = CIPHER.cipher_id == CIPHER_AES256_GCM.cipher_id ? CIPHER_AES256_CTR : CIPHER_AES256_GCM;
    vf_assert(!wickr_ecdh_cipher_ctx_decipher(B2, c, apub, kp), "another cipher decrypts nothing");
    /* nothing without inputs */
    vf_assert(!wickr_ecdh_cipher_ctx_cipher(NULL, pt, bpub, kp), "nothing"); vf_assert(!wickr_ecdh_cipher_ctx_cipher(A, NULL, bpub, kp), "nothing"); vf_assert(!wickr_ecdh_cipher_ctx_cipher(A, pt, NULL, kp), "nothing"); vf_assert(!wickr_ecdh_cipher_ctx_cipher(A, pt, bpub, NULL), "nothing");
    vf_assert(!wickr_ecdh_cipher_ctx_decipher(NULL, c, bpub, kp), "nothing"); vf_assert(!wickr_ecdh_cipher_ctx_decipher(A, NULL, bpub, kp), "nothing"); vf_assert(!wickr_ecdh_cipher_ctx_decipher(A, c, NULL, kp), "nothing"); vf_assert(!wickr_ecdh_cipher_ctx_decipher(A, c, bpub, NULL), "nothing");
    vf_assert(!wickr_ecdh_cipher_ctx_create_key(e, NULL, CIPHER), "nothing"); vf_assert(!wickr_ecdh_cipher_ctx_copy(NULL), "nothing");
    wickr_buffer_destroy_zero(&B->local_key->pri_data);
    vf_assert(!wickr_ecdh_cipher_ctx_decipher(B, c, apub, kp), "no private key, no plaintext");
    wickr_ecdh_cipher_ctx_destroy(&B2); wickr_ecdh_cipher_ctx_destroy(&C);
#endif
    }
    wickr_cipher_result_destroy(&c);
    wickr_buffer_destroy(&pt); wickr_kdf_meta_destroy(&kp); wickr_ec_key_destroy(&apub); wickr_ec_key_destroy(&bpub);
    wickr_ecdh_cipher_ctx_destroy(&A); wickr_ecdh_cipher_ctx_destroy(&B);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
