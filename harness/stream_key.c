/* Stream keys: parameters within limits, lossless serialization and copying, malformed serializations refused. */
#include "vf_engine.h"
#include "vf_pb.h"
#include "stream_key.h"
#include "memory.h"
#include "stream.pb-c.h"
#ifndef CK
#define CK 33
#endif
#ifndef EK
#define EK 3
#endif
#ifndef UD
#define UD 2
#endif
void vf_pb_any_bytes(const char *field, ProtobufCBinaryData *out)
{
    /* stream_key.cipher_key / .evolution_key / .user_data */
    size_t n = field[11] == 'c' ? CK : field[11] == 'e' ? EK : UD;
    vf_pb_nd_len(out, n);
}
static bool valid(const wickr_stream_key_t *k)
{
    return k->cipher_key && k->cipher_key->key_data && k->cipher_key->key_data->length == k->cipher_key->cipher.key_len && k->evolution_key && k->evolution_key->length > 0 &&
           k->packets_per_evolution >= PACKET_PER_EVO_MIN && k->packets_per_evolution <= PACKET_PER_EVO_MAX;
}
static void same(const wickr_stream_key_t *a, const wickr_stream_key_t *b)
{
    vf_assert(a->cipher_key != b->cipher_key && a->cipher_key->key_data != b->cipher_key->key_data && a->cipher_key->key_data->bytes != b->cipher_key->key_data->bytes && a->evolution_key != b->evolution_key && a->evolution_key->bytes != b->evolution_key->bytes, "nothing is shared");
    vf_assert(a->cipher_key->cipher.cipher_id == b->cipher_key->cipher.cipher_id && vf_buf_eq(a->cipher_key->key_data, b->cipher_key->key_data), "cipher key");
    vf_assert(vf_buf_eq(a->evolution_key, b->evolution_key), "evolution key");
    vf_assert(a->packets_per_evolution == b->packets_per_evolution, "evolution rate");
    vf_assert(vf_buf_eq(a->user_data, b->user_data), "user data");
    vf_assert(!a->user_data || a->user_data != b->user_data, "user data not shared");
}
int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
#if CASE == 1
    bool gcm = vf_nd_fork(0, 1), ud = vf_nd_fork(0, 1);
    uint32_t ppe = vf_nd_u32();
    wickr_cipher_key_t *ck = wickr_cipher_key_create(gcm ? CIPHER_AES256_GCM : CIPHER_AES256_CTR, vf_buf_nd(32));
    wickr_buffer_t *ek = vf_buf_nd(EK), *u = ud ? vf_buf_nd(UD) : NULL;
    wickr_stream_key_t *k = wickr_stream_key_create_user_data(ck, ek, ppe, u);
    vf_assert((k != NULL) == (ppe >= 1 && ppe <= 32768), "a stream key exists exactly with an evolution rate within the limits");
    vf_assert(!wickr_stream_key_create(NULL, ek, 512) && !wickr_stream_key_create(ck, NULL, 512), "both keys are required");
    if (k) {
        vf_assert(k->cipher_key == ck && k->evolution_key == ek && k->packets_per_evolution == ppe && k->user_data == u, "parts as given");
        wickr_stream_key_t *c = wickr_stream_key_copy(k);
        vf_assert(c, "copy"); same(k, c);
        wickr_buffer_t *b = wickr_stream_key_serialize(k);
        vf_assert(b, "serializes");
        wickr_stream_key_t *r = wickr_stream_key_create_from_buffer(b);
        vf_assert(r, "parses"); same(k, r);
        wickr_stream_key_destroy(&k);
        vf_assert(!k && valid(c) && valid(r), "copies outlive the source");
        wickr_stream_key_destroy(&c); wickr_stream_key_destroy(&r); wickr_buffer_destroy(&b);
    } else { wickr_cipher_key_destroy(&ck); wickr_buffer_destroy(&ek); wickr_buffer_destroy(&u); }
    wickr_stream_key_destroy(&k); wickr_stream_key_destroy(NULL);
    vf_assert(!wickr_stream_key_copy(NULL) && !wickr_stream_key_serialize(NULL) && !wickr_stream_key_create_from_buffer(NULL), "nothing in, nothing out");
    wickr_stream_key_t *rk = wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, ppe);
    vf_assert((rk != NULL) == (ppe >= 1 && ppe <= 32768), "random keys obey the limits");
    vf_assert(!rk || (valid(rk) && !vf_buf_eq(rk->cipher_key->key_data, rk->evolution_key) && rk->packets_per_evolution == ppe), "random keys are complete");
    wickr_stream_key_destroy(&rk);
#elif CASE == 3
    /* a stored message with any rate and any keys: it is taken over as it is, or refused */
    Wickr__Proto__StreamKey m;
    wickr__proto__stream_key__init(&m);
    wickr_buffer_t *cb = vf_buf_nd(CK), *eb = vf_buf_nd(EK), *ub = vf_buf_nd(UD);
    m.has_cipher_key = m.has_evolution_key = m.has_packets_per_evo = true;
    m.has_user_data = vf_nd_bool();
    m.cipher_key.data = cb->bytes; m.cipher_key.len = cb->length;
    m.evolution_key.data = eb->bytes; m.evolution_key.len = eb->length;
    if (m.has_user_data) { m.user_data.data = ub->bytes; m.user_data.len = ub->length; }
    m.packets_per_evo = vf_nd_u32();
    wickr_buffer_t *b = vf_buf_nd(wickr__proto__stream_key__get_packed_size(&m));
    wickr__proto__stream_key__pack(&m, b->bytes);
    wickr_stream_key_t *k = wickr_stream_key_create_from_buffer(b);
    bool good = m.packets_per_evo >= PACKET_PER_EVO_MIN && m.packets_per_evo <= PACKET_PER_EVO_MAX;
    if (!good) vf_assert(!k, "a rate outside the limits is refused");
    if (k) {
        vf_assert(valid(k), "whatever parses is a complete key within the limits");
        vf_assert(k->packets_per_evolution == m.packets_per_evo, "the stored rate");
        vf_assert(vf_buf_eq(k->evolution_key, eb), "the stored evolution key");
        vf_assert(vf_beq(k->cipher_key->key_data->bytes, k->cipher_key->key_data->length, cb->bytes + 1, CK - 1) && k->cipher_key->cipher.cipher_id == cb->bytes[0], "the stored cipher key");
        vf_assert(m.has_user_data ? vf_buf_eq(k->user_data, ub) : !k->user_data, "the stored user data");
        VF_REACH("taken");
    } else VF_REACH("refused");
    wickr_stream_key_destroy(&k);
    wickr_buffer_destroy(&b); wickr_buffer_destroy(&cb); wickr_buffer_destroy(&eb); wickr_buffer_destroy(&ub);
#else
    vf_pb_attack = true;
    wickr_buffer_t *b = vf_buf_nd(2);
    wickr_stream_key_t *k = wickr_stream_key_create_from_buffer(b);
    if (k) {
        vf_assert(valid(k), "whatever parses is a complete key within the limits");
        wickr_stream_key_t *c = wickr_stream_key_copy(k);
        vf_assert(c, "usable"); same(k, c);
        wickr_stream_key_destroy(&c);
        wickr_buffer_t *s = wickr_stream_key_serialize(k);
        vf_assert(s, "usable");
        wickr_buffer_destroy(&s);
    }
    wickr_stream_key_destroy(&k);
    wickr_buffer_destroy(&b);
#endif
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
