/* Device identifiers: deterministic, derived exactly as documented; failures return and leak nothing. */
#include "vf_engine.h"
#include "devinfo.h"
#include "memory.h"
#ifndef LEN
#define LEN 2
#endif
int main(void)
{
    wickr_crypto_engine_t e = vf_engine();
#ifdef FAULTS
    vf_eng_faults = true;
    wickr_buffer_t *sys = vf_buf_nd(LEN);
    wickr_dev_info_t *a = wickr_dev_info_create_new(&e, sys);
    if (a) vf_assert(a->dev_salt && a->system_salt && a->msg_proto_id && a->srv_comm_id, "complete or nothing");
    wickr_buffer_t *salt = vf_buf_nd(64);
    wickr_dev_info_t *b = wickr_dev_info_derive(&e, salt, sys);
    if (!b) wickr_buffer_destroy(&salt); /* a failed derivation leaves the salt with the caller */
    else vf_assert(b->dev_salt == salt, "a derivation owns the salt");
#else
    wickr_buffer_t *sys = vf_buf_nd(LEN);
    wickr_dev_info_t *a = wickr_dev_info_create_new(&e, sys);
    vf_assert(a, "created");
    vf_assert(a->dev_salt && a->dev_salt->length == 64, "a fresh salt of the digest size");
    wickr_buffer_t *h = e.wickr_crypto_engine_digest(sys, NULL, DIGEST_SHA_256);
    vf_assert(vf_buf_eq(a->system_salt, h), "system salt is SHA256 of the system id");
    wickr_buffer_destroy(&h);
    h = e.wickr_crypto_engine_digest(sys, a->dev_salt, DIGEST_SHA_512);
    vf_assert(a->msg_proto_id && vf_beq(a->msg_proto_id->bytes, a->msg_proto_id->length, h->bytes, 32), "messaging id is the first half of SHA512 of the salted system id");
    vf_assert(a->srv_comm_id && vf_beq(a->srv_comm_id->bytes, a->srv_comm_id->length, h->bytes + 32, 32), "server id is the second half");
    wickr_buffer_destroy(&h);
    wickr_dev_info_t *b = wickr_dev_info_derive(&e, wickr_buffer_copy(a->dev_salt), sys);
    vf_assert(b && b->dev_salt != a->dev_salt && vf_buf_eq(a->dev_salt, b->dev_salt) && vf_buf_eq(a->system_salt, b->system_salt) && vf_buf_eq(a->msg_proto_id, b->msg_proto_id) && vf_buf_eq(a->srv_comm_id, b->srv_comm_id), "re-deriving with the stored salt gives the same values");
    wickr_dev_info_t *n = wickr_dev_info_create_new(&e, sys);
    vf_assert(n && !vf_buf_eq(n->dev_salt, a->dev_salt) && !vf_buf_eq(n->msg_proto_id, a->msg_proto_id) && !vf_buf_eq(n->srv_comm_id, a->srv_comm_id) && vf_buf_eq(n->system_salt, a->system_salt), "each new derivation uses a fresh salt");
    wickr_buffer_t *other = vf_buf_nd(LEN);
    bool same = vf_buf_eq(sys, other);
    wickr_dev_info_t *o = wickr_dev_info_derive(&e, wickr_buffer_copy(a->dev_salt), other);
    vf_assert(o && vf_buf_eq(o->system_salt, a->system_salt) == same, "another system id gives another system salt");
    wickr_dev_info_t *c = wickr_dev_info_copy(a);
    vf_assert(c && c->dev_salt != a->dev_salt && c->system_salt != a->system_salt && c->msg_proto_id != a->msg_proto_id && c->srv_comm_id != a->srv_comm_id, "a copy shares nothing");
    vf_assert(vf_buf_eq(a->dev_salt, c->dev_salt) && vf_buf_eq(a->system_salt, c->system_salt) && vf_buf_eq(a->msg_proto_id, c->msg_proto_id) && vf_buf_eq(a->srv_comm_id, c->srv_comm_id), "a copy is equal");
    vf_assert(!wickr_dev_info_create_new(NULL, sys) && !wickr_dev_info_create_new(&e, NULL) && !wickr_dev_info_derive(&e, NULL, sys) && !wickr_dev_info_derive(&e, sys, NULL) && !wickr_dev_info_copy(NULL), "nothing in, nothing out");
    vf_assert(!wickr_dev_info_create(NULL, sys, sys, sys) && !wickr_dev_info_create(sys, sys, NULL, sys) && !wickr_dev_info_create(sys, sys, sys, NULL), "identifiers are required");
    wickr_dev_info_destroy(&c); wickr_dev_info_destroy(&n); wickr_dev_info_destroy(&o);
    wickr_buffer_destroy(&other);
#endif
    wickr_dev_info_destroy(&a); wickr_dev_info_destroy(&b);
    vf_assert(!a && !b, "handles cleared");
    wickr_buffer_destroy(&sys);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
