/* Idealised crypto engine injected through the library's own wickr_crypto_engine_t seam. */
#ifndef VF_ENGINE_H
#define VF_ENGINE_H
#include "vf.h"
#include "crypto_engine.h"

#ifndef VF_PUB_LEN
#define VF_PUB_LEN 5     /* encoded public key */
#endif
#ifndef VF_PRI_LEN
#define VF_PRI_LEN 5     /* encoded private key */
#endif
#ifndef VF_SIG_LEN
#define VF_SIG_LEN 4
#endif

wickr_crypto_engine_t vf_engine(void);

/* fault injection: when set, every engine call may fail (return NULL/false) nondeterministically */
extern bool vf_eng_faults;
/* when set, ec_verify on a (sig,key,data) that was never signed is an uninterpreted predicate;
   when clear it is false (unforgeable signatures) */
extern bool vf_eng_verify_oracle;
/* when set, ec_key_import rejects/accepts through an uninterpreted predicate on well-formed encodings too */
extern bool vf_eng_import_oracle;

extern unsigned vf_n_random, vf_n_encrypt, vf_n_decrypt, vf_n_sign, vf_n_verify, vf_n_kdf, vf_n_digest, vf_n_ecdh, vf_n_hmac;

/* record of every encryption ever made (for IV/key uniqueness and confidentiality properties) */
typedef struct vf_enc_rec {
    struct vf_enc_rec *next;
    uint8_t cipher_id;
    uint8_t *key; size_t key_len;
    uint8_t *iv; size_t iv_len;
    uint8_t *aad; size_t aad_len;
    uint8_t *pt; size_t pt_len;
    uint8_t canon;
} vf_enc_rec;
extern vf_enc_rec *vf_enc;   /* newest first */
extern uint8_t vf_enc_n;


/* harness helpers */
wickr_buffer_t *vf_buf_nd(size_t len);                       /* buffer of len arbitrary bytes */
wickr_buffer_t *vf_buf(const uint8_t *b, size_t len);
wickr_ec_key_t *vf_key_new(bool with_private);               /* fresh key */
wickr_ec_key_t *vf_pub_nd(void);                             /* arbitrary well-formed public key */
wickr_ecdsa_result_t *vf_sig_nd(void);                       /* arbitrary signature value */
bool vf_buf_eq(const wickr_buffer_t *a, const wickr_buffer_t *b); /* both NULL or equal contents */
/* query the ideal primitives without going through the code under test */
bool vf_is_signed(const wickr_ecdsa_result_t *sig, const wickr_ec_key_t *pub, const wickr_buffer_t *data);
#endif
