/* Text codecs. CASE 1: lossless; CASE 2: any text is handled inside its bounds. L bytes of arbitrary content. */
#include "vf_engine.h"
#include "util.h"
#include "b32.h"

static wickr_buffer_t *exact(size_t n)
{   /* an allocation of exactly n bytes: reading past it is detected */
    wickr_buffer_t *b = malloc(sizeof(*b));
    b->length = n;
    b->bytes = n ? malloc(n) : NULL;
    for (size_t i = 0; i < n; i++) b->bytes[i] = vf_nd_u8();
    return b;
}
static void done(wickr_buffer_t *b) { if (b) { free(b->bytes); free(b); } }
static bool in(const char *set, uint8_t c) { bool r = false; for (; *set; set++) r = r || (uint8_t)*set == c; return r; }

int main(void)
{
    wickr_buffer_t *x = exact(L);
    uint8_t orig[L + 1];
    for (unsigned i = 0; i < L; i++) orig[i] = x->bytes[i];
#if CASE == 1
    wickr_buffer_t *t, *back;
#if L > 0
#if KIND == 1
    t = getHexStringFromData(x);
    vf_assert(t && t->length == 2 * L, "hex text has two characters per byte");
    for (unsigned i = 0; i < 2 * L; i++) vf_assert(in("0123456789abcdef", t->bytes[i]), "hex alphabet");
    vf_assert(t->bytes[2 * L] == 0, "hex text is terminated");
    back = getDataFromHexString(t);
    vf_assert(back && back->length == L && vf_beq(back->bytes, L, orig, L), "hex round trip");
    for (unsigned i = 0; i < L; i++) vf_assert(t->bytes[2 * i] == (uint8_t)"0123456789abcdef"[orig[i] >> 4] && t->bytes[2 * i + 1] == (uint8_t)"0123456789abcdef"[orig[i] & 15], "hex digits in order");
    wickr_buffer_destroy(&t); wickr_buffer_destroy(&back);
#elif KIND == 2
    t = getBase64FromData(x);
    vf_assert(t && t->length == (L + 2) / 3 * 4, "base64 text length");
    for (unsigned i = 0; i < t->length; i++) {
        bool pad = i >= t->length - (3 - L % 3) % 3;
        vf_assert(pad ? t->bytes[i] == '=' : in("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", t->bytes[i]), "base64 alphabet and padding");
    }
    vf_assert(t->bytes[t->length] == 0, "base64 text is terminated");
    back = getDataFromBase64(t);
    vf_assert(back && back->length == L && vf_beq(back->bytes, L, orig, L), "base64 round trip");
    wickr_buffer_destroy(&t); wickr_buffer_destroy(&back);
#else
    t = base32_encode(x);
    vf_assert(t && t->length == (L * 8 + 4) / 5, "base32 text length");
    for (unsigned i = 0; i < t->length; i++) vf_assert(in("0123456789ABCDEFGHJKMNPQRSTVWXYZ", t->bytes[i]), "base32 alphabet");
    vf_assert(t->bytes[t->length] == 0, "base32 text is terminated as documented");
    for (unsigned i = 0; i < t->length; i++) {
        unsigned v = 0;
        for (unsigned k = 0; k < 5; k++) { unsigned bit = i * 5 + k; v = v << 1 | (bit < 8 * L ? orig[bit / 8] >> (7 - bit % 8) & 1 : 0); }
        vf_assert(t->bytes[i] == (uint8_t)"0123456789ABCDEFGHJKMNPQRSTVWXYZ"[v], "base32 digits are the bits in order");
    }
    back = base32_decode(t);
    vf_assert(back && back->length == L && vf_beq(back->bytes, L, orig, L), "base32 round trip");
    wickr_buffer_destroy(&t); wickr_buffer_destroy(&back);
#endif
#endif
#else
    wickr_buffer_t *r;
#if KIND == 1
    r = getDataFromHexString(x);
    if (r) vf_assert(r->length <= L / 2, "decoded hex is at most half as long");
    wickr_buffer_destroy(&r);
#elif KIND == 2
    r = getDataFromBase64(x);
    if (r) vf_assert(r->length <= (L * 3) / 4, "decoded base64 is at most three quarters as long");
    wickr_buffer_destroy(&r);
#else
    r = base32_decode(x);
    bool ok = L > 1;
    for (unsigned i = 0; i < L; i++) VF_AND(ok, in("0123456789ABCDEFGHJKMNPQRSTVWXYZ", orig[i]));
    vf_assert((r != NULL) == ok, "base32 decodes exactly texts over its alphabet");
    if (r) vf_assert(r->length == L * 5 / 8, "decoded base32 length");
    wickr_buffer_destroy(&r);
#endif
    vf_assert(!getDataFromHexString(NULL) && !getDataFromBase64(NULL) && !base32_decode(NULL) && !base32_encode(NULL) && !getHexStringFromData(NULL) && !getBase64FromData(NULL), "nothing in, nothing out");
#endif
    vf_assert(vf_beq(x->bytes, L, orig, L), "input untouched");
    done(x);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
