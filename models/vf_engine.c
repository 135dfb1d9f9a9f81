#include "vf_engine.h"
#include "memory.h"
#include "vf_nocheck.h"

bool vf_eng_faults, vf_eng_verify_oracle, vf_eng_import_oracle;
unsigned vf_n_random, vf_n_encrypt, vf_n_decrypt, vf_n_sign, vf_n_verify, vf_n_kdf, vf_n_digest, vf_n_ecdh, vf_n_hmac;

static bool vf_fault(void) { return vf_eng_faults ? vf_nd_bool() : false; }

static uint8_t *vf_dup(const uint8_t *p, size_t n)
{
    if (!p || n == 0) return NULL;
    vf_readable(p, n);
    uint8_t *r = vf_alloc(n);
    memcpy(r, p, n);
    return r;
}

wickr_buffer_t *vf_buf(const uint8_t *b, size_t len)
{
    wickr_buffer_t *r = malloc(sizeof(*r));
    r->length = len;
    r->bytes = malloc(len);
    memcpy(r->bytes, b, len);
    return r;
}
wickr_buffer_t *vf_buf_nd(size_t len)
{
    wickr_buffer_t *r = malloc(sizeof(*r));
    r->length = len;
    r->bytes = malloc(len);
    vf_nd_bytes(r->bytes, len);
    return r;
}
bool vf_buf_eq(const wickr_buffer_t *a, const wickr_buffer_t *b)
{
    if (!a || !b) return a == b;
    return vf_beq(a->bytes, a->length, b->bytes, b->length);
}

/* every 4-byte word of an ideal output names the primitive, the query and the offset: any aligned slice of an
   output is distinct from any other slice of any other output */
static wickr_buffer_t *vf_out(uint8_t tag, uint8_t idx, size_t len)
{
    wickr_buffer_t *r = malloc(sizeof(*r));
    r->length = len;
    r->bytes = malloc(len);
    size_t j = 0;
    for (; j + 4 <= len; j += 4) {
        r->bytes[j] = tag; r->bytes[j + 1] = idx; r->bytes[j + 2] = (uint8_t)(j >> 2); r->bytes[j + 3] = 0x5A;
    }
    if (j < len) r->bytes[j] = tag;
    if (j + 1 < len) r->bytes[j + 1] = idx;
    if (j + 2 < len) r->bytes[j + 2] = (uint8_t)(j >> 2);
    return r;
}

/* Generic memo: up to 4 inputs per query, kept as a list with one heap node per query (under path exploration every
   node, length and link is concrete). `canon` names the first equal query and thereby the output; `verdict` is the
   answer of the latest equal query (for predicates). */
typedef struct vf_memo { struct vf_memo *next; uint8_t kind; uint8_t canon; uint8_t verdict; bool found; uint8_t *in[4]; size_t len[4]; bool has[4]; } vf_memo;
static vf_memo *memo;
static uint8_t memo_n;

static vf_memo *memo_query(uint8_t kind, const wickr_buffer_t *a, const wickr_buffer_t *b, const wickr_buffer_t *c, const wickr_buffer_t *d)
{
    const wickr_buffer_t *in[4] = { a, b, c, d };
    vf_memo *q = vf_alloc(sizeof(vf_memo));
    vf_internal(memo_n < 255, "memo capacity");
    q->kind = kind;
    q->canon = memo_n++;
    q->verdict = 0;
    q->found = false;
    for (unsigned k = 0; k < 4; k++) {
        q->has[k] = in[k] != NULL;
        q->len[k] = in[k] ? in[k]->length : 0;
        q->in[k] = in[k] ? vf_dup(in[k]->bytes, in[k]->length) : NULL;
    }
    bool settled = false;
    for (vf_memo *m = memo; m; m = m->next) { /* newest first */
        if (m->kind != kind) continue;
        bool shape = true;
        for (unsigned k = 0; k < 4; k++) shape = shape && m->has[k] == q->has[k] && m->len[k] == q->len[k];
        if (!shape) continue;
        bool eq = true;
        for (unsigned k = 0; k < 4; k++) if (q->has[k]) VF_AND(eq, vf_beq(m->in[k], m->len[k], q->in[k], q->len[k]));
        /* data-dependent parts are written without branches: path exploration must not fork inside the model */
        q->canon = eq && !settled ? m->canon : q->canon;
        q->verdict = eq && !settled ? m->verdict : q->verdict;
        settled = settled || eq;
    }
    q->found = settled;
    q->next = memo;
    memo = q;
    return q;
}

/* ---------- random ---------- */
static wickr_buffer_t *e_random(size_t len)
{
    if (len == 0 || vf_fault()) return NULL;
    return vf_out(0x52, (uint8_t)(vf_n_random++), len);
}
static wickr_cipher_key_t *e_cipher_key_random(wickr_cipher_t cipher)
{
    wickr_buffer_t *b = e_random(cipher.key_len);
    if (!b) return NULL;
    wickr_cipher_key_t *k = calloc(1, sizeof(*k));
    k->cipher = cipher;
    k->key_data = b;
    return k;
}

/* ---------- digest / hmac / kdf ---------- */
static wickr_buffer_t *e_digest(const wickr_buffer_t *buffer, const wickr_buffer_t *salt, wickr_digest_t mode)
{
    if (!buffer || vf_fault()) return NULL;
    vf_n_digest++;
    /* the real digest hashes buffer || salt: model the same concatenation */
    wickr_buffer_t cat = { buffer->length, buffer->bytes };
    uint8_t *tmp = NULL;
    if (salt && salt->length) {
        tmp = malloc(buffer->length + salt->length);
        memcpy(tmp, buffer->bytes, buffer->length);
        memcpy(tmp + buffer->length, salt->bytes, salt->length);
        cat.bytes = tmp; cat.length = buffer->length + salt->length;
    }
    vf_memo *q = memo_query(0x10 + (uint8_t)mode.digest_id, &cat, NULL, NULL, NULL);
    if (tmp) free(tmp);
    return vf_out(0xD0 + (uint8_t)mode.digest_id, q->canon, mode.size);
}
static wickr_buffer_t *e_hmac(const wickr_buffer_t *data, const wickr_buffer_t *key, const wickr_digest_t mode)
{
    if (!data || !key || vf_fault()) return NULL;
    vf_n_hmac++;
    vf_memo *q = memo_query(0x20 + (uint8_t)mode.digest_id, data, key, NULL, NULL);
    return vf_out(0xE0 + (uint8_t)mode.digest_id, q->canon, mode.size);
}
static bool e_hmac_verify(const wickr_buffer_t *data, const wickr_buffer_t *key, const wickr_digest_t mode, const wickr_buffer_t *expected)
{
    wickr_buffer_t *h = e_hmac(data, key, mode);
    if (!h || !expected) { wickr_buffer_destroy(&h); return false; }
    bool r = vf_buf_eq(h, expected);
    wickr_buffer_destroy(&h);
    return r;
}
/* ---------- ciphers ---------- */
vf_enc_rec *vf_enc;      /* newest first */
uint8_t vf_enc_n;

static wickr_buffer_t *vf_ct_for(uint8_t i, size_t len)
{
    if (len == 0) return NULL;
    wickr_buffer_t *b = malloc(sizeof(*b));
    b->length = len;
    b->bytes = malloc(len);
    for (size_t j = 0; j < len; j++) b->bytes[j] = (uint8_t)(0xC0 + i);
    return b;
}

static wickr_cipher_result_t *e_encrypt(const wickr_buffer_t *pt, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv)
{
    if (!pt || !key || !key->key_data || vf_fault()) return NULL;
    if (iv && iv->length != key->cipher.iv_len) return NULL;
    if (aad && !key->cipher.is_authenticated) return NULL;
    vf_n_encrypt++;
    wickr_buffer_t *civ = iv ? vf_buf(iv->bytes, iv->length) : e_random(key->cipher.iv_len);
    if (!civ) return NULL;
    vf_enc_rec *n = vf_alloc(sizeof(vf_enc_rec));
    vf_internal(vf_enc_n < 0x3F, "encryption capacity");
    n->cipher_id = (uint8_t)key->cipher.cipher_id;
    n->key = vf_dup(key->key_data->bytes, key->key_data->length); n->key_len = key->key_data->length;
    n->iv = vf_dup(civ->bytes, civ->length); n->iv_len = civ->length;
    n->aad = aad ? vf_dup(aad->bytes, aad->length) : NULL; n->aad_len = aad ? aad->length : 0;
    n->pt = vf_dup(pt->bytes, pt->length); n->pt_len = pt->length;
    n->canon = vf_enc_n++;
    for (vf_enc_rec *m = vf_enc; m; m = m->next) {
        if (m->cipher_id != n->cipher_id || m->iv_len != n->iv_len || m->key_len != n->key_len || m->pt_len != n->pt_len || m->aad_len != n->aad_len) continue;
        bool eq = vf_beq(m->iv, m->iv_len, n->iv, n->iv_len);
        VF_AND(eq, vf_beq(m->key, m->key_len, n->key, n->key_len));
        VF_AND(eq, vf_beq(m->pt, m->pt_len, n->pt, n->pt_len));
        VF_AND(eq, vf_beq(m->aad, m->aad_len, n->aad, n->aad_len));
        n->canon = eq ? m->canon : n->canon; /* the oldest equal one names it: canon is transitive */
    }
    n->next = vf_enc;
    vf_enc = n;
    wickr_buffer_t *ct = vf_ct_for(n->canon, pt->length);
    wickr_buffer_t *tag = key->cipher.is_authenticated ? vf_out(0x7A, n->canon, key->cipher.auth_tag_len) : NULL;
    wickr_cipher_result_t *r = calloc(1, sizeof(*r));
    r->cipher = key->cipher;
    r->iv = civ;
    r->cipher_text = ct;
    r->auth_tag = tag;
    return r;
}

static wickr_buffer_t *e_decrypt(const wickr_cipher_result_t *cr, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, bool only_auth)
{
    if (!cr || !key || !key->key_data || !cr->iv || !cr->cipher_text) return NULL;
    if (only_auth && !cr->cipher.is_authenticated) return NULL;
    if (aad && !cr->cipher.is_authenticated) return NULL;
    if (cr->cipher.is_authenticated && !cr->auth_tag) return NULL;
    if (key->cipher.cipher_id != cr->cipher.cipher_id) return NULL;
    if (vf_fault()) return NULL;
    vf_n_decrypt++;
    /* at most one distinct plaintext can match; select it without branching so that success is one decision */
    {
        wickr_buffer_t *out = NULL;
        bool any = false;
        for (vf_enc_rec *m = vf_enc; m; m = m->next) {
            if (m->cipher_id != (uint8_t)cr->cipher.cipher_id || m->pt_len != cr->cipher_text->length || m->iv_len != cr->iv->length) continue;
            if (cr->cipher.is_authenticated && m->aad_len != (aad ? aad->length : 0)) continue;
            bool hit = vf_beq(m->iv, m->iv_len, cr->iv->bytes, cr->iv->length);
            VF_AND(hit, vf_beq(m->key, m->key_len, key->key_data->bytes, key->key_data->length));
            for (size_t j = 0; j < m->pt_len; j++) hit = hit && cr->cipher_text->bytes[j] == (uint8_t)(0xC0 + m->canon);
            if (cr->cipher.is_authenticated) {
                wickr_buffer_t *tag = vf_out(0x7A, m->canon, cr->cipher.auth_tag_len);
                VF_AND(hit, vf_buf_eq(tag, cr->auth_tag));
                VF_AND(hit, vf_beq(m->aad, m->aad_len, aad ? aad->bytes : NULL, aad ? aad->length : 0));
                wickr_buffer_destroy(&tag);
            }
            if (!out) out = vf_buf(m->pt, m->pt_len);
            for (size_t j = 0; j < m->pt_len; j++) out->bytes[j] = hit ? m->pt[j] : out->bytes[j];
            any = any || hit;
        }
        if (any) return out;
        wickr_buffer_destroy(&out);
    }
    if (cr->cipher.is_authenticated) return NULL;
    /* unauthenticated: garbage of the right length, never by luck one of the honest plaintexts */
    wickr_buffer_t *g = vf_buf_nd(cr->cipher_text->length);
    for (vf_enc_rec *m = vf_enc; m; m = m->next)
        if (m->pt_len == g->length) vf_assume(!vf_beq(m->pt, m->pt_len, g->bytes, g->length));
    return g;
}

/* ---------- elliptic curve keys ---------- */
static unsigned vf_key_ctr;
static wickr_buffer_t *vf_pub_of_pri(const wickr_buffer_t *pri)
{
    wickr_buffer_t *p = malloc(sizeof(*p));
    p->length = VF_PUB_LEN;
    p->bytes = malloc(VF_PUB_LEN);
    p->bytes[0] = 0x04;
    for (unsigned i = 1; i < VF_PUB_LEN; i++) p->bytes[i] = i < pri->length ? pri->bytes[i] : 0x11;
    return p;
}
static wickr_ec_key_t *vf_mk_key(wickr_buffer_t *pub, wickr_buffer_t *pri)
{
    wickr_ec_key_t *k = calloc(1, sizeof(*k));
    k->curve = EC_CURVE_NIST_P521;
    k->pub_data = pub;
    k->pri_data = pri;
    return k;
}
wickr_ec_key_t *vf_key_new(bool with_private)
{
    uint8_t b[VF_PRI_LEN];
    vf_key_ctr++;
    b[0] = 0xA0;
    for (unsigned i = 1; i < VF_PRI_LEN; i++) b[i] = i == 1 ? (uint8_t)vf_key_ctr : 0x33;
    wickr_buffer_t *pri = vf_buf(b, VF_PRI_LEN);
    wickr_buffer_t *pub = vf_pub_of_pri(pri);
    if (!with_private) wickr_buffer_destroy(&pri);
    return vf_mk_key(pub, pri);
}
wickr_ec_key_t *vf_pub_nd(void)
{
    wickr_buffer_t *pub = vf_buf_nd(VF_PUB_LEN);
    pub->bytes[0] = 0x04;
    return vf_mk_key(pub, NULL);
}
wickr_ecdsa_result_t *vf_sig_nd(void)
{
    wickr_ecdsa_result_t *s = calloc(1, sizeof(*s));
    s->curve = EC_CURVE_NIST_P521;
    s->digest_mode = DIGEST_SHA_512;
    s->sig_data = vf_buf_nd(VF_SIG_LEN);
    return s;
}
static wickr_ec_key_t *e_rand_key(wickr_ec_curve_t curve)
{
    if (vf_fault()) return NULL;
    wickr_ec_key_t *k = vf_key_new(true);
    k->curve = curve;
    return k;
}
static wickr_ec_key_t *e_import(const wickr_buffer_t *buffer, bool is_private)
{
    if (!buffer || !buffer->bytes || vf_fault()) return NULL;
    if (vf_eng_import_oracle) {
            vf_memo *q = memo_query(is_private ? 0x41 : 0x40, buffer, NULL, NULL, NULL);
        uint8_t fresh = vf_nd_bool();
        q->verdict = q->found ? q->verdict : fresh;
        if (!q->verdict) return NULL;
    }
    if (is_private) {
        if (buffer->length != VF_PRI_LEN || buffer->bytes[0] != 0xA0) return NULL;
        wickr_buffer_t *pri = vf_buf(buffer->bytes, buffer->length);
        return vf_mk_key(vf_pub_of_pri(pri), pri);
    }
    if (buffer->length != VF_PUB_LEN || buffer->bytes[0] != 0x04) return NULL;
    return vf_mk_key(vf_buf(buffer->bytes, buffer->length), NULL);
}
static bool vf_lt(const uint8_t *a, const uint8_t *b, size_t n)
{
    bool lt = false, decided = false;
    for (size_t i = 0; i < n; i++) {
        lt = decided ? lt : a[i] < b[i];
        decided = decided || a[i] != b[i];
    }
    return lt;
}
static wickr_buffer_t *e_ecdh(const wickr_ec_key_t *local, const wickr_ec_key_t *peer)
{
    if (!local || !peer || !local->pri_data || !peer->pub_data || vf_fault()) return NULL;
    if (peer->pub_data->length != VF_PUB_LEN || local->pri_data->length != VF_PRI_LEN) return NULL;
    vf_n_ecdh++;
    wickr_buffer_t *lp = vf_pub_of_pri(local->pri_data);
    bool lt = vf_lt(lp->bytes, peer->pub_data->bytes, VF_PUB_LEN);
    wickr_buffer_t *r = malloc(sizeof(*r));
    r->length = 2 * VF_PUB_LEN + 1;
    r->bytes = malloc(r->length);
    r->bytes[0] = 0xEC;
    for (unsigned i = 0; i < VF_PUB_LEN; i++) {
        r->bytes[1 + i] = lt ? lp->bytes[i] : peer->pub_data->bytes[i];
        r->bytes[1 + VF_PUB_LEN + i] = lt ? peer->pub_data->bytes[i] : lp->bytes[i];
    }
    wickr_buffer_destroy(&lp);
    return r;
}

/* ---------- signatures ---------- */
static vf_memo *vf_sig_entry(const wickr_ecdsa_result_t *sig, const wickr_buffer_t *pub, const wickr_buffer_t *data)
{
    uint8_t m[2] = { (uint8_t)sig->digest_mode.digest_id, (uint8_t)sig->curve.identifier };
    wickr_buffer_t mode = { 2, m };
    return memo_query(0x50, sig->sig_data, pub, data, &mode);
}
static wickr_ecdsa_result_t *e_sign(const wickr_ec_key_t *key, const wickr_buffer_t *data, const wickr_digest_t mode)
{
    if (!key || !data || !key->pri_data || vf_fault()) return NULL;
    wickr_ecdsa_result_t *s = calloc(1, sizeof(*s));
    s->curve = key->curve;
    s->digest_mode = mode;
    s->sig_data = vf_out(0x51, (uint8_t)vf_n_sign++, VF_SIG_LEN);
    wickr_buffer_t *pub = vf_pub_of_pri(key->pri_data);
    vf_memo *q = vf_sig_entry(s, pub, data);
    q->verdict = 1;
    wickr_buffer_destroy(&pub);
    return s;
}
static bool vf_verify(const wickr_ecdsa_result_t *sig, const wickr_ec_key_t *pub, const wickr_buffer_t *data)
{
    vf_memo *q = vf_sig_entry(sig, pub->pub_data, data);
    uint8_t fresh = vf_eng_verify_oracle ? vf_nd_bool() : 0;
    q->verdict = q->found ? q->verdict : fresh;
    return q->verdict != 0;
}
static bool e_verify(const wickr_ecdsa_result_t *sig, const wickr_ec_key_t *pub, const wickr_buffer_t *data)
{
    if (!sig || !sig->sig_data || !pub || !pub->pub_data || !data || vf_fault()) return false;
    if (sig->curve.identifier != pub->curve.identifier) return false;
    vf_n_verify++;
    return vf_verify(sig, pub, data);
}
bool vf_is_signed(const wickr_ecdsa_result_t *sig, const wickr_ec_key_t *pub, const wickr_buffer_t *data)
{
    if (!sig || !sig->sig_data || !pub || !pub->pub_data || !data) return false;
    if (sig->curve.identifier != pub->curve.identifier) return false;
    return vf_verify(sig, pub, data);
}
/* ---------- leaf functions the real kdf.c calls directly (openssl_suite.c is checked separately) ---------- */
static const wickr_buffer_t *vf_nonempty(const wickr_buffer_t *b) { return b && b->length ? b : NULL; }
wickr_buffer_t *openssl_crypto_random(size_t len) { return e_random(len); }
wickr_buffer_t *openssl_hkdf(const wickr_buffer_t *ikm, const wickr_buffer_t *salt, const wickr_buffer_t *info, wickr_digest_t hash_mode)
{
    if (!ikm || vf_fault()) return NULL;
    vf_n_kdf++;
    vf_memo *q = memo_query(0x60 + (uint8_t)hash_mode.digest_id, ikm, vf_nonempty(salt), vf_nonempty(info), NULL);
    return vf_out(0xF0, q->canon, hash_mode.size);
}
wickr_buffer_t *openssl_hkdf_expand(const wickr_buffer_t *prk, const wickr_buffer_t *info, wickr_digest_t hash_mode, size_t output_size)
{
    if (!prk || vf_fault()) return NULL;
    vf_n_kdf++;
    vf_memo *q = memo_query(0x68 + (uint8_t)hash_mode.digest_id, prk, vf_nonempty(info), NULL, NULL);
    return vf_out(0xF1, q->canon, output_size);
}
/* libscrypt / crypt_blowfish: ideal functions of (password, salt, cost) */
int libscrypt_scrypt(const uint8_t *pw, size_t pwlen, const uint8_t *salt, size_t saltlen, uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen)
{
    if (vf_fault()) return -1;
    vf_n_kdf++;
    wickr_buffer_t a = { pwlen, (uint8_t *)pw }, b = { saltlen, (uint8_t *)salt };
    uint8_t par[16];
    for (unsigned i = 0; i < 8; i++) par[i] = (uint8_t)(N >> (8 * i));
    for (unsigned i = 0; i < 4; i++) { par[8 + i] = (uint8_t)(r >> (8 * i)); par[12 + i] = (uint8_t)(p >> (8 * i)); }
    wickr_buffer_t c = { 16, par };
    vf_memo *q = memo_query(0x70, &a, &b, &c, NULL);
    wickr_buffer_t *o = vf_out(0xF2, q->canon, buflen);
    memcpy(buf, o->bytes, buflen);
    wickr_buffer_destroy(&o);
    return 0;
}
static const char vf_b64[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
char *crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int output_size)
{
    if (vf_fault() || output_size < 30) return NULL;
    memcpy(output, "$2y$15$", 7);
    for (unsigned i = 0; i < 22; i++) output[7 + i] = vf_b64[((uint8_t)input[i % size] ^ i) & 63];
    output[29] = 0;
    return output;
}
size_t vf_bcrypt_len = 2; /* length of every passphrase the harness hands to bcrypt */
char *crypt_rn(const char *key, const char *setting, void *data, int size)
{
    if (vf_fault() || size < 61) return NULL;
    vf_n_kdf++;
#ifdef VF_GOTO
    size_t kl = vf_bcrypt_len;
    for (size_t i = 0; i < kl; i++) vf_internal(key[i] != 0, "bcrypt passphrase of the announced length");
    vf_assert(key[kl] == 0, "bcrypt gets the whole passphrase, terminated");
#else
    size_t kl = strlen(key);
#endif
    wickr_buffer_t a = { kl < 72 ? kl : 72, (uint8_t *)key }, b = { 29, (uint8_t *)setting };
    vf_memo *q = memo_query(0x71, vf_nonempty(&a), &b, NULL, NULL);
    uint8_t canon = q->canon;
    for (vf_memo *m = memo; m; m = m->next) if (m->kind == 0x71 && m != q && canon == m->canon) { canon = m->canon; break; }
    if (canon == memo_n - 1) canon = memo_n - 1; /* the text is scanned for its end: it has to be concrete */
    memcpy(data, setting, 29);
    for (unsigned i = 29; i < 60; i++) ((char *)data)[i] = vf_b64[i == 30 ? canon & 63 : i == 31 ? canon >> 6 : 7];
    ((char *)data)[60] = 0;
    return data;
}

static wickr_buffer_t *e_to_raw(const wickr_ecdsa_result_t *s) { return s && s->sig_data ? vf_buf(s->sig_data->bytes, s->sig_data->length) : NULL; }
static wickr_ecdsa_result_t *e_from_raw(const wickr_ec_curve_t c, const wickr_digest_t d, const wickr_buffer_t *b)
{
    if (!b) return NULL;
    wickr_ecdsa_result_t *s = calloc(1, sizeof(*s));
    s->curve = c; s->digest_mode = d; s->sig_data = vf_buf(b->bytes, b->length);
    return s;
}
static bool e_file(const wickr_cipher_key_t *k, const char *a, const char *b) { return false; }
static bool e_file_d(const wickr_cipher_key_t *k, const char *a, const char *b, bool c) { return false; }
static bool e_ofile(FILE *a, const wickr_cipher_key_t *k, FILE *b) { return false; }
static bool e_ofile_d(FILE *a, const wickr_cipher_key_t *k, FILE *b, bool c) { return false; }
static wickr_buffer_t *e_digest_file(FILE *f, const wickr_digest_t m) { return NULL; }

wickr_crypto_engine_t vf_engine(void)
{
    wickr_crypto_engine_t e;
    e.default_curve = EC_CURVE_NIST_P521;
    e.default_cipher = CIPHER_AES256_GCM;
    e.wickr_crypto_engine_crypto_random = e_random;
    e.wickr_crypto_engine_cipher_key_random = e_cipher_key_random;
    e.wickr_crypto_engine_cipher_encrypt = e_encrypt;
    e.wickr_crypto_engine_cipher_decrypt = e_decrypt;
    e.wickr_crypto_engine_encrypt_file = e_file;
    e.wickr_crypto_engine_decrypt_file = e_file_d;
    e.wickr_crypto_engine_encrypt_ofile = e_ofile;
    e.wickr_crypto_engine_decrypt_ofile = e_ofile_d;
    e.wickr_crypto_engine_digest = e_digest;
    e.wickr_crypto_engine_digest_file = e_digest_file;
    e.wickr_crypto_engine_ec_rand_key = e_rand_key;
    e.wickr_crypto_engine_ec_key_import = e_import;
    e.wickr_crypto_engine_ec_sign = e_sign;
    e.wickr_crypto_engine_ec_verify = e_verify;
    e.wickr_crypto_engine_ecdsa_to_raw = e_to_raw;
    e.wickr_crypto_engine_ecdsa_from_raw = e_from_raw;
    e.wickr_crypto_engine_gen_shared_secret = e_ecdh;
    e.wickr_crypto_engine_hmac_create = e_hmac;
    e.wickr_crypto_engine_hmac_verify = e_hmac_verify;
    e.wickr_crypto_kdf_gen = wickr_perform_kdf;
    e.wickr_crypto_kdf_meta = wickr_perform_kdf_meta;
    return e;
}

