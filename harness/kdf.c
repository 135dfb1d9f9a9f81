/* Key derivation settings: stored form lossless, unknown or truncated settings refused, same settings give the same key. */
#include "vf_engine.h"
#include "kdf.h"
#include "memory.h"
static const wickr_kdf_algo_t *algo(uint32_t i)
{
    switch (i) { case 0: return &KDF_SCRYPT_2_17; case 1: return &KDF_SCRYPT_2_18; case 2: return &KDF_SCRYPT_2_19; case 3: return &KDF_SCRYPT_2_20; case 4: return &KDF_BCRYPT_15;
                 case 5: return &KDF_HKDF_SHA256; case 6: return &KDF_HKDF_SHA384; default: return &KDF_HKDF_SHA512; }
}
static bool same_algo(wickr_kdf_algo_t a, wickr_kdf_algo_t b) { return a.algo_id == b.algo_id && a.kdf_id == b.kdf_id && a.salt_size == b.salt_size && a.output_size == b.output_size && a.cost == b.cost; }
int main(void)
{
#if CASE == 1
    uint32_t i = vf_nd_fork(0, 4), extra = vf_nd_fork(0, 2);
    const wickr_kdf_algo_t *a = algo(i);
    wickr_buffer_t *salt = vf_buf_nd(a->salt_size);
    wickr_kdf_meta_t *m = wickr_kdf_meta_create(*a, salt, NULL);
    vf_assert(m && m->salt == salt && same_algo(m->algo, *a), "settings with a salt of the right size");
    wickr_buffer_t *s = wickr_kdf_meta_serialize(m);
    vf_assert(s && s->length == 1 + a->salt_size && wickr_kdf_meta_size_with_buffer(s) == s->length, "stored size");
    wickr_buffer_t *stored = malloc(sizeof(*stored)); stored->length = s->length + extra; stored->bytes = malloc(stored->length);
    memcpy(stored->bytes, s->bytes, s->length);
    for (uint32_t k = 0; k < extra; k++) stored->bytes[s->length + k] = vf_nd_u8();
    wickr_kdf_meta_t *p = wickr_kdf_meta_create_with_buffer(stored);
    vf_assert(p && same_algo(p->algo, m->algo) && vf_buf_eq(p->salt, m->salt) && p->salt != m->salt, "parsing the stored settings restores them");
    wickr_buffer_t *cut = vf_buf(s->bytes, s->length - 1);
    vf_assert(!wickr_kdf_meta_create_with_buffer(cut), "truncated settings are refused");
    wickr_buffer_t *small = vf_buf_nd(a->salt_size - 1);
    vf_assert(!wickr_kdf_meta_create(*a, small, NULL) && !wickr_kdf_meta_create(*a, NULL, NULL), "settings need a salt of their size");
    wickr_kdf_meta_t *c = wickr_kdf_meta_copy(m);
    vf_assert(c && c != m && c->salt != m->salt && vf_buf_eq(c->salt, m->salt) && same_algo(c->algo, m->algo), "copy");
    vf_assert(!wickr_kdf_meta_copy(NULL) && !wickr_kdf_meta_serialize(NULL) && !wickr_kdf_meta_create_with_buffer(NULL) && !wickr_kdf_meta_size_with_buffer(NULL) && !wickr_kdf_result_copy(NULL) && !wickr_kdf_result_create(NULL, s) && !wickr_kdf_result_create(m, NULL), "nothing in, nothing out");
    wickr_kdf_meta_destroy(&m); wickr_kdf_meta_destroy(&p); wickr_kdf_meta_destroy(&c);
    wickr_buffer_destroy(&s); wickr_buffer_destroy(&stored); wickr_buffer_destroy(&cut); wickr_buffer_destroy(&small);
#elif CASE == 2
    wickr_buffer_t *b = malloc(sizeof(*b)); b->length = LEN; b->bytes = LEN ? malloc(LEN) : NULL; vf_nd_bytes(b->bytes, LEN);
    uint8_t n = wickr_kdf_meta_size_with_buffer(b);
    wickr_kdf_meta_t *m = wickr_kdf_meta_create_with_buffer(b);
    if (m) {
        vf_assert(b->bytes[0] >= 1 && b->bytes[0] <= 9 && (uint8_t)m->algo.kdf_id == b->bytes[0], "only known settings parse");
        if (b->bytes[0] <= 8) vf_assert(same_algo(m->algo, *algo(b->bytes[0] - 1 < 4 ? b->bytes[0] - 1 : b->bytes[0] == 5 ? 4 : b->bytes[0] - 1)), "the settings of the stored identifier");
        vf_assert(m->salt && LEN > m->salt->length && m->salt->length == m->algo.salt_size && n == 1 + m->salt->length, "salt of the size of the settings");
        vf_assert(vf_beq(m->salt->bytes, m->salt->length, b->bytes + 1, m->salt->length), "salt bytes");
    }
    else vf_assert(LEN == 0 || !(b->bytes[0] >= 1 && b->bytes[0] <= 4 && LEN >= 17) && !(b->bytes[0] == 5 && LEN >= 23), "well-formed settings parse");
    wickr_kdf_meta_destroy(&m);
    free(b->bytes); free(b);
#elif CASE == 3
    wickr_crypto_engine_t e = vf_engine();
    const wickr_kdf_algo_t *a = algo(ALGO);
#if ALGO == 4 && !defined FAULTS
    wickr_buffer_t *pass = vf_buf("ab", 2); /* bcrypt measures passphrases as text: concrete */
#else
    wickr_buffer_t *pass = vf_buf_nd(2);
    vf_assume(pass->bytes[0] != 0 && pass->bytes[1] != 0);
#endif
#ifdef FAULTS
    vf_eng_faults = true;
#endif
    wickr_kdf_result_t *r = wickr_perform_kdf(*a, pass);
#ifdef FAULTS
    if (r) vf_assert(r->hash && r->meta && r->meta->salt, "complete or nothing");
#else
    vf_assert(r && r->hash && r->meta && r->meta->salt && r->meta->salt->length == a->salt_size && same_algo(r->meta->algo, *a), "derivation");
    if (a->algo_id != KDF_BCRYPT) vf_assert(r->hash->length == a->output_size, "a key of the declared size");
    else vf_assert(r->hash->length == 60 && r->hash->length <= a->output_size, "a bcrypt hash");
    wickr_kdf_result_t *r2 = NULL;
    if (ALGO < 5) {
        wickr_buffer_t *s = wickr_kdf_meta_serialize(r->meta);
        wickr_kdf_meta_t *m = wickr_kdf_meta_create_with_buffer(s);
        vf_assert(m, "stored settings parse");
        r2 = wickr_perform_kdf_meta(m, pass);
        wickr_kdf_meta_destroy(&m); wickr_buffer_destroy(&s);
    } else r2 = wickr_perform_kdf_meta(r->meta, pass);
    vf_assert(r2 && vf_buf_eq(r2->hash, r->hash) && vf_buf_eq(r2->meta->salt, r->meta->salt) && r2->meta->salt != r->meta->salt, "same passphrase and settings give the same key");
    wickr_kdf_result_t *r3 = wickr_perform_kdf(*a, pass);
    vf_assert(r3 && !vf_buf_eq(r3->meta->salt, r->meta->salt) && !vf_buf_eq(r3->hash, r->hash), "every new derivation has a fresh salt");
#if ALGO == 4
    wickr_buffer_t *other = vf_buf("ac", 2);
#else
    wickr_buffer_t *other = vf_buf_nd(2);
#endif
    vf_assume(other->bytes[0] != 0 && other->bytes[1] != 0);
    wickr_kdf_result_t *r4 = wickr_perform_kdf_meta(r->meta, other);
    vf_assert(r4 && vf_buf_eq(r4->hash, r->hash) == vf_buf_eq(pass, other), "another passphrase gives another key");
    r->meta->salt->bytes[0] ^= 1;
    wickr_kdf_result_t *r5 = wickr_perform_kdf_meta(r->meta, pass);
    vf_assert(r5 && !vf_buf_eq(r5->hash, r->hash), "another salt gives another key");
    wickr_kdf_result_t *cp = wickr_kdf_result_copy(r);
    vf_assert(cp && cp->hash != r->hash && vf_buf_eq(cp->hash, r->hash) && cp->meta != r->meta, "copy");
#if ALGO >= 5
    wickr_buffer_t *info = vf_buf_nd(1), *none = NULL;
    wickr_kdf_meta_t *mi = wickr_kdf_meta_create(*a, wickr_buffer_copy(r->meta->salt), info);
    wickr_kdf_result_t *r6 = wickr_perform_kdf_meta(mi, pass);
    vf_assert(r6 && !vf_buf_eq(r6->hash, r5->hash), "the info separates keys");
    vf_assert(!wickr_kdf_meta_create(*a, NULL, NULL), "HKDF needs salt or info");
    wickr_kdf_meta_destroy(&mi); wickr_kdf_result_destroy(&r6);
#endif
    wickr_kdf_result_destroy(&r2); wickr_kdf_result_destroy(&r3); wickr_kdf_result_destroy(&r4); wickr_kdf_result_destroy(&r5); wickr_kdf_result_destroy(&cp);
    wickr_buffer_destroy(&other);
    vf_assert(!wickr_perform_kdf(*a, NULL) && !wickr_perform_kdf_meta(NULL, pass), "nothing in, nothing out");
#endif
    wickr_kdf_result_destroy(&r);
    wickr_buffer_destroy(&pass);
#endif
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
