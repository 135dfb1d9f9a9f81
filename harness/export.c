/* Exports under a passphrase: opened by the same passphrase to exactly the exported object, by nothing else.
   OBJ 1 raw value, 2 storage keys of a context, 3 recovery key of a new context, 4 a whole context */
#include "vf_engine.h"
#include "vf_pb.h"
#include "wickr_ctx.h"
#include "memory.h"
int libscrypt_scrypt(const uint8_t *pw, size_t pwlen, const uint8_t *salt, size_t saltlen, uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen);
#ifndef OBJ
#define OBJ 1
#endif
#ifndef SCEN
#define SCEN 0
#endif
#ifndef POS
#define POS 0
#endif
#ifndef ALG
#define ALG KDF_SCRYPT_2_17
#endif
#ifndef CIPH
#define CIPH CIPHER_AES256_GCM
#endif
#ifndef PL
#define PL 3
#endif
extern size_t vf_bcrypt_len;
static wickr_crypto_engine_t e;
static wickr_dev_info_t *mkdev(void)
{
    uint8_t sys[2] = { 0x30, 1 };
    wickr_buffer_t *sid = vf_buf(sys, 2);
    wickr_dev_info_t *d = wickr_dev_info_create_new(&e, sid);
    wickr_buffer_destroy(&sid);
    return d;
}
static bool ck_eq(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b) { return a && b && a->cipher.cipher_id == b->cipher.cipher_id && vf_buf_eq(a->key_data, b->key_data); }
static bool id_eq(const wickr_identity_t *a, const wickr_identity_t *b)
{
    return a && b && a->type == b->type && vf_buf_eq(a->identifier, b->identifier) && vf_buf_eq(a->sig_key->pub_data, b->sig_key->pub_data) && vf_buf_eq(a->sig_key->pri_data, b->sig_key->pri_data) && a->sig_key->curve.identifier == b->sig_key->curve.identifier &&
           (!a->signature ? !b->signature : b->signature && a->signature->digest_mode.digest_id == b->signature->digest_mode.digest_id && a->signature->curve.identifier == b->signature->curve.identifier && vf_buf_eq(a->signature->sig_data, b->signature->sig_data));
}
static wickr_ctx_gen_result_t *G;
static wickr_buffer_t *V;
static wickr_buffer_t *do_export(const wickr_buffer_t *pass)
{
#if OBJ == 1
    return wickr_crypto_engine_kdf_cipher(&e, ALG, CIPH, V, pass);
#elif OBJ == 2
    return wickr_ctx_export_storage_keys(G->ctx, pass);
#elif OBJ == 3
    return wickr_ctx_gen_export_recovery_key_passphrase(G, pass);
#else
    return wickr_ctx_export(G->ctx, pass);
#endif
}
static const void *do_import(const wickr_buffer_t *x, const wickr_buffer_t *pass, wickr_dev_info_t *dev)
{
#if OBJ == 1
    return wickr_crypto_engine_kdf_decipher(&e, x, pass);
#elif OBJ == 2
    return wickr_ctx_import_storage_keys(e, x, pass);
#elif OBJ == 3
    return wickr_ctx_gen_import_recovery_key_passphrase(e, x, pass);
#else
    return wickr_ctx_import(e, dev, x, pass);
#endif
}
static void drop(const void *o)
{
#if OBJ == 1
    wickr_buffer_t *b = (void *)o; wickr_buffer_destroy(&b);
#elif OBJ == 2
    wickr_storage_keys_t *k = (void *)o; wickr_storage_keys_destroy(&k);
#elif OBJ == 3
    wickr_cipher_key_t *k = (void *)o; wickr_cipher_key_destroy(&k);
#else
    wickr_ctx_t *c = (void *)o; wickr_ctx_destroy(&c);
#endif
}
static void same(const void *o)
{
#if OBJ == 1
    vf_assert(vf_buf_eq(o, V), "the exported value");
#elif OBJ == 2
    const wickr_storage_keys_t *k = o;
    vf_assert(ck_eq(k->local, G->ctx->storage_keys->local) && ck_eq(k->remote, G->ctx->storage_keys->remote), "the exported storage keys");
#elif OBJ == 3
    vf_assert(ck_eq(o, G->recovery_key), "the exported recovery key");
#else
    const wickr_ctx_t *c = o;
    vf_assert(ck_eq(c->storage_keys->local, G->ctx->storage_keys->local) && ck_eq(c->storage_keys->remote, G->ctx->storage_keys->remote), "storage keys");
    vf_assert(id_eq(c->id_chain->root, G->ctx->id_chain->root), "root identity");
    vf_assert(id_eq(c->id_chain->node, G->ctx->id_chain->node), "node identity");
    vf_assert(ck_eq(c->packet_header_key, G->ctx->packet_header_key), "header key");
    vf_assert(wickr_identity_chain_validate(c->id_chain, &e), "the restored chain is valid");
#endif
}
int main(void)
{
    e = vf_engine(); vf_bcrypt_len = 3;
    wickr_dev_info_t *dev = mkdev(), *dev2 = NULL;
    uint8_t idb[3] = { 0x40, 1, 0x41 };
    wickr_buffer_t *id = vf_buf(idb, 3);
#if OBJ == 1
    V = vf_buf_nd(3);
#else
    G = wickr_ctx_gen_new(e, dev, id);
    vf_assert(G, "context");
#endif
#if OBJ == 1 && (SCEN == 0 || SCEN == 3)
    wickr_buffer_t *pass = vf_buf_nd(PL);
#else
    uint8_t pb[3] = { 'p', 'a', 's' };
    wickr_buffer_t *pass = vf_buf(pb, 3);
#endif
#if SCEN == 3
    vf_eng_faults = true;
#endif
    unsigned kdf0 = vf_n_kdf, rnd0 = vf_n_random;
    wickr_buffer_t *x = do_export(pass);
#if SCEN == 5
    vf_assert(!x, "only an authenticated cipher under a salted stretching function is used");
    goto end;
#endif
#if SCEN == 3
    if (x) { vf_eng_faults = false; dev2 = wickr_dev_info_copy(dev); const void *o = do_import(x, pass, dev2); vf_assert(o, "what was exported imports"); same(o); drop(o);
#if OBJ == 4
        dev2 = NULL;
#endif
        VF_REACH("exported"); }
    else VF_REACH("export failed");
    goto end;
#endif
    vf_assert(x, "exported");
    /* the passphrase was stretched with a new salt, the salt is in the export, and the data is encrypted with the result */
    vf_assert(vf_n_kdf == kdf0 + 1 && vf_n_random == rnd0 + 2, "one stretching, one salt and one nonce");
    vf_assert(x->length > 18 + 12 + 16 && x->bytes[0] == ALG.kdf_id, "the export names the stretching function");
    for (int i = 0; i < 16; i++) vf_assert(x->bytes[1 + i] == (i % 4 == 0 ? 0x52 : i % 4 == 1 ? (uint8_t)rnd0 : i % 4 == 2 ? i / 4 : 0x5A), "the salt is new and stored in the export");
    vf_assert(vf_enc->key_len == 32 && vf_enc->key[0] == 0xF2 && vf_enc->key[4] == 0xF2, "the data is encrypted with the stretched passphrase");
    {
        uint8_t want[32];
        libscrypt_scrypt(pass->bytes, pass->length, x->bytes + 1, 16, 1ull << (17 + (ALG.kdf_id - KDF_SCRYPT_2_17.kdf_id)), 8, 1, want, 32);
        vf_assert(vf_beq(want, 32, vf_enc->key, 32), "the stretching has the named cost, the whole passphrase and the stored salt");
    }
    vf_assert(x->bytes[17] == CIPHER_AES256_GCM.cipher_id, "an authenticated cipher");
#if SCEN == 0
    dev2 = wickr_dev_info_copy(dev);
    const void *o = do_import(x, pass, dev2);
    vf_assert(o, "the passphrase opens the export");
    same(o); drop(o);
#if OBJ == 4
    dev2 = NULL;
#endif
    wickr_dev_info_destroy(&dev2);
    /* any other passphrase of any of the lengths */
    uint32_t n = vf_nd_fork(1, PL + 1);
    wickr_buffer_t *other = vf_buf_nd(n);
    vf_assume(!vf_buf_eq(other, pass));
    dev2 = wickr_dev_info_copy(dev);
    vf_assert(!do_import(x, other, dev2), "no other passphrase opens it");
    wickr_buffer_destroy(&other);
    VF_REACH("wrong passphrase");
#elif SCEN == 1
    size_t at = POS < 0 ? x->length + POS : POS;
    uint8_t d = vf_nd_u8(); vf_assume(d != 0);
    x->bytes[at] ^= d;
    dev2 = wickr_dev_info_copy(dev);
    vf_assert(!do_import(x, pass, dev2), "a changed export opens to nothing");
    VF_REACH("changed");
#elif SCEN == 2
    for (int i = 0; i < 8; i++) {
        size_t keep = i < 3 ? (size_t)i : i == 3 ? 17 : i == 4 ? 18 : i == 5 ? 17 + 29 : i == 6 ? x->length - 1 : x->length + 1;
        wickr_buffer_t *cut = malloc(sizeof(*cut)); cut->length = keep; cut->bytes = keep ? malloc(keep) : NULL;
        for (size_t j = 0; j < keep; j++) cut->bytes[j] = j < x->length ? x->bytes[j] : 0;
        dev2 = wickr_dev_info_copy(dev);
        vf_assert(!do_import(cut, pass, dev2), "a shortened or extended export opens to nothing");
        wickr_dev_info_destroy(&dev2);
        free(cut->bytes); free(cut);
    }
#elif SCEN == 4
    vf_eng_faults = true;
    dev2 = wickr_dev_info_copy(dev);
    const void *o = do_import(x, pass, dev2);
    vf_eng_faults = false;
    if (o) { same(o); drop(o); VF_REACH("imported");
#if OBJ == 4
        dev2 = NULL;
#endif
    } else VF_REACH("import failed");
    goto end;
#endif
end:
    wickr_dev_info_destroy(&dev2);
    wickr_buffer_destroy(&x); wickr_buffer_destroy(&pass); wickr_buffer_destroy(&id); wickr_buffer_destroy(&V);
    wickr_dev_info_destroy(&dev); wickr_ctx_gen_result_destroy(&G);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
