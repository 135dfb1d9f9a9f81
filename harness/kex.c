/* Key exchanges: which inputs the wrapping key is bound to. SUB names the element that differs at the receiving side. */
#include "vf_engine.h"
#include "protocol.h"
#include "node.h"
#include "wickr_ctx.h"
wickr_buffer_t *openssl_hkdf(const wickr_buffer_t *ikm, const wickr_buffer_t *salt, const wickr_buffer_t *info, wickr_digest_t hash_mode);
#ifndef VERSION
#define VERSION 4
#endif
#ifndef SUB
#define SUB 0
#endif
static wickr_identity_chain_t *chain(wickr_crypto_engine_t *e, uint8_t i)
{
    uint8_t id[2] = { 0x40, i };
    wickr_buffer_t *a = vf_buf(id, 2);
    wickr_ec_key_t *rk = vf_key_new(true), *nk = vf_key_new(true);
    wickr_identity_t *root = wickr_identity_create(IDENTITY_TYPE_ROOT, a, rk, NULL);
    id[0] = 0x41;
    wickr_identity_t *node = wickr_identity_create(IDENTITY_TYPE_NODE, vf_buf(id, 2), nk, e->wickr_crypto_engine_ec_sign(rk, nk->pub_data, DIGEST_SHA_512));
    return wickr_identity_chain_create(root, node);
}
static void differs(wickr_buffer_t *b, unsigned at)
{
    uint8_t d = vf_nd_u8();
    vf_assume(d);
    b->bytes[at] ^= d;
}
int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
    wickr_identity_chain_t *S = chain(&e, 1), *Rc = chain(&e, 2);
#ifdef OWN /* the recipient is another device of the sender: same root identity */
    wickr_identity_destroy(&Rc->root); Rc->root = wickr_identity_copy(S->root);
    wickr_ecdsa_result_destroy(&Rc->node->signature); Rc->node->signature = e.wickr_crypto_engine_ec_sign(S->root->sig_key, Rc->node->sig_key->pub_data, DIGEST_SHA_512);
#endif
    uint8_t dev[3] = { 0x71, 0x72, 0x73 }, pskb[2] = { 9, 8 };
    wickr_ec_key_t *rk = vf_key_new(true), *xk = vf_key_new(true), *other = vf_key_new(true);
    wickr_ec_key_t *rpub = wickr_ec_key_copy(rk);
    wickr_buffer_destroy(&rpub->pri_data);
    /* the sender sees the recipient's public message key, the recipient holds the private one */
    wickr_node_t *to = wickr_node_create(vf_buf(dev, 3), wickr_identity_chain_copy(Rc), wickr_ephemeral_keypair_create(7, rpub, NULL));
    wickr_node_t *me = wickr_node_create(vf_buf(dev, 3), Rc, wickr_ephemeral_keypair_create(0, rk, NULL));
    wickr_identity_chain_t *from = wickr_identity_chain_copy(S);
    wickr_buffer_t *psk = NULL, *psk2 = NULL;
#ifdef PSK
    psk = vf_buf(pskb, 2); psk2 = vf_buf(pskb, 2);
#endif
    wickr_cipher_key_t *pk = e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM);
    wickr_key_exchange_t *x = wickr_key_exchange_create_with_packet_key(&e, S, to, xk, pk, psk, VERSION);
    vf_assert((x != NULL) == (VERSION >= 2 && VERSION <= 4), "exchanges exist for the supported versions");
    if (!x) goto done;
    vf_assert(vf_buf_eq(x->exchange_id, Rc->node->identifier), "names the recipient"); vf_assert(x->key_id == 7, "names the message key");
    /* the key used is exactly HKDF(secret, psk, context) */
    {
        wickr_buffer_t *secret = e.wickr_crypto_engine_gen_shared_secret(rk, xk), *info, *want;
        if (VERSION == 2) info = vf_buf(dev, 3);
        else {
            uint8_t cat[2 * VF_PUB_LEN + 3];
            memcpy(cat, S->root->sig_key->pub_data->bytes, VF_PUB_LEN); memcpy(cat + VF_PUB_LEN, Rc->root->sig_key->pub_data->bytes, VF_PUB_LEN); memcpy(cat + 2 * VF_PUB_LEN, dev, 3);
            info = vf_buf(cat, sizeof(cat));
        }
        want = openssl_hkdf(secret, psk, info, VERSION == 4 ? DIGEST_SHA_512 : DIGEST_SHA_256);
        vf_assert(vf_enc_n == 1, "wrapped once"); vf_assert(vf_enc->key_len == 32, "key size"); vf_assert(vf_beq(vf_enc->key, 32, want->bytes, 32), "wrapped under the key derived from the Diffie-Hellman secret and the bound context");
        vf_assert(vf_enc->cipher_id == wickr_exchange_cipher_matching_cipher(pk->cipher).cipher_id, "with the exchange cipher that belongs to the payload cipher");
        wickr_buffer_destroy(&secret); wickr_buffer_destroy(&info); wickr_buffer_destroy(&want);
    }
    uint8_t ver = VERSION;
    wickr_ec_key_t *use = wickr_ec_key_copy(xk);
    wickr_buffer_destroy(&use->pri_data);
    bool bound = true;
    switch (SUB) {
        case 0: bound = false; break;
        case 1: differs(me->dev_id, 1); break;
        case 2: differs(from->root->sig_key->pub_data, 2); bound = VERSION > 2; break;
        case 3: differs(me->id_chain->root->sig_key->pub_data, 3); bound = VERSION > 2; break;
        case 4: ver = VERSION == 4 ? 3 : VERSION + 1; break;
        case 5: ver = VERSION == 2 ? 4 : 2; break;
        case 6: differs(use->pub_data, 1); break;
        case 7: wickr_ec_key_destroy(&me->ephemeral_keypair->ec_key); me->ephemeral_keypair->ec_key = wickr_ec_key_copy(other); break;
        case 8: wickr_buffer_destroy(&psk2); psk2 = vf_buf_nd(2); { bool eq = (psk2->bytes[0] == 9) & (psk2->bytes[1] == 8); vf_assume(!eq || !psk); } break;
        case 9: wickr_buffer_destroy(&psk2); bound = psk != NULL; break;
        case 10: { wickr_identity_t *t = from->root; from->root = me->id_chain->root; me->id_chain->root = t; bound = VERSION > 2; } break; /* sender and recipient exchanged */
        case 11: wickr_buffer_destroy(&me->dev_id); me->dev_id = vf_buf(dev, 2); break;
        case 12: differs(x->exchange_ciphertext->cipher_text, 5); break;
        case 14: differs(x->exchange_ciphertext->iv, 11); break;
        case 15: ver = vf_nd_u8(); vf_assume(ver < 2 || ver > 4); break;
    }
    wickr_cipher_key_t *got = wickr_key_exchange_derive_packet_key(&e, from, me, use, x, psk2, ver);
    if (!bound) {
        vf_assert(got, "the recipient unwraps the key"); vf_assert(vf_buf_eq(got->key_data, pk->key_data), "the same key"); vf_assert(got->cipher.cipher_id == pk->cipher.cipher_id, "the same cipher");
    } else if (got) {
        /* the wrapping is a stream cipher: another key gives other bytes, which may look like a key but not be this one */
        vf_assert(ver >= 2 && ver <= 4, "an unsupported version unwraps nothing");
        bool same = got->cipher.cipher_id == pk->cipher.cipher_id;
        VF_AND(same, vf_buf_eq(got->key_data, pk->key_data));
        vf_assert(!same, "with one bound element changed the packet key is not unwrapped");
    }
    wickr_cipher_key_destroy(&got);
    wickr_ec_key_destroy(&use);
    wickr_key_exchange_destroy(&x);
done:
    wickr_cipher_key_destroy(&pk);
    wickr_buffer_destroy(&psk); wickr_buffer_destroy(&psk2);
    wickr_identity_chain_destroy(&from); wickr_identity_chain_destroy(&S);
    wickr_node_destroy(&to); wickr_node_destroy(&me);
    wickr_ec_key_destroy(&xk); wickr_ec_key_destroy(&other);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
