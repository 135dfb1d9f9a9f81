/* Two transport contexts talking through a network the harness controls. */
#include "vf_engine.h"
#include "vf_lite.h"
#include "transport_ctx.h"
#include "transport_packet.h"
#include "transport_error.h"
#include "identity.h"
#ifndef PIN_A
#define PIN_A 0
#endif
#ifndef PIN_B
#define PIN_B 0
#endif
#ifndef SYNC
#define SYNC 0     /* the verdict is given inside the callback */
#endif
#ifndef SCEN
#define SCEN 0
#endif
#ifndef POS
#define POS 0
#endif
static wickr_crypto_engine_t e;
typedef struct { wickr_transport_ctx_t *t; wickr_buffer_t *out[6], *in[6]; unsigned n_out, n_in, n_state, n_ask; wickr_transport_status last; wickr_identity_chain_t *peer; wickr_transport_validate_identity_callback verdict; } side;
static side A, B;
static side *of(const wickr_transport_ctx_t *t) { return (side *)wickr_transport_ctx_get_user_ctx(t); }
static void on_tx(const wickr_transport_ctx_t *t, wickr_buffer_t *d) { side *s = of(t); vf_internal(s->n_out < 6, "out"); s->out[s->n_out++] = d; }
static void on_rx(const wickr_transport_ctx_t *t, wickr_buffer_t *d)
{
    side *s = of(t);
    vf_assert(wickr_transport_ctx_get_status(t) == TRANSPORT_STATUS_ACTIVE, "data is delivered only while active");
    vf_internal(s->n_in < 6, "in"); s->in[s->n_in++] = d;
}
static void on_state(const wickr_transport_ctx_t *t, wickr_transport_status st)
{
    side *s = of(t);
    vf_assert(s->last != TRANSPORT_STATUS_ERROR, "nothing follows the error state");
    vf_assert(st == wickr_transport_ctx_get_status(t), "the state reported is the state");
    vf_assert(st != s->last, "only changes are reported");
    s->last = st; s->n_state++;
}
static void on_identity(const wickr_transport_ctx_t *t, wickr_identity_chain_t *id, wickr_transport_validate_identity_callback done)
{
    side *s = of(t);
    s->n_ask++;
    wickr_identity_chain_destroy(&s->peer);
    s->peer = id;
    s->verdict = done;
    if (SYNC) done(t, true);
}
static wickr_identity_chain_t *party(uint8_t n)
{
    uint8_t id[2] = { 0x70, n };
    wickr_ec_key_t *rk = vf_key_new(true), *nk = vf_key_new(true);
    wickr_identity_t *root = wickr_identity_create(IDENTITY_TYPE_ROOT, L_buf(id, 2), rk, NULL);
    wickr_ecdsa_result_t *s = e.wickr_crypto_engine_ec_sign(rk, nk->pub_data, DIGEST_SHA_512);
    return wickr_identity_chain_create(root, wickr_identity_create(IDENTITY_TYPE_NODE, L_buf(id, 2), nk, s));
}
static wickr_transport_status st(side *s) { return wickr_transport_ctx_get_status(s->t); }
static void make(side *s, wickr_identity_chain_t *me, wickr_identity_chain_t *peer, uint32_t ppe)
{
    wickr_transport_callbacks_t cb = { .tx = on_tx, .rx = on_rx, .on_state = on_state, .on_identity_verify = on_identity };
    s->t = wickr_transport_ctx_create(e, wickr_identity_chain_copy(me), peer ? wickr_identity_chain_copy(peer) : NULL, ppe, cb, s);
    vf_assert(s->t, "created");
    vf_assert(st(s) == TRANSPORT_STATUS_NONE, "nothing has happened");
}
static void drop(side *s)
{
    wickr_transport_ctx_destroy(&s->t);
    wickr_identity_chain_destroy(&s->peer);
    for (unsigned k = 0; k < s->n_out; k++) wickr_buffer_destroy(&s->out[k]);
    for (unsigned k = 0; k < s->n_in; k++) wickr_buffer_destroy(&s->in[k]);
}
static bool same_chain(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b)
{
    return vf_buf_eq(a->root->sig_key->pub_data, b->root->sig_key->pub_data) & vf_buf_eq(a->node->sig_key->pub_data, b->node->sig_key->pub_data);
}
static void rx(side *s, const wickr_buffer_t *b) { wickr_transport_ctx_process_rx_buffer(s->t, b); }
static wickr_buffer_t *pkt(side *s, const wickr_buffer_t *d)
{
    unsigned n = s->n_out;
    wickr_transport_ctx_process_tx_buffer(s->t, d);
    vf_assert(st(s) == TRANSPORT_STATUS_ACTIVE, "sending keeps the session active");
    vf_assert(s->n_out == n + 1, "one packet per message");
    return s->out[n];
}
/* the session is over for good: no packet, no data, whatever arrives */
static void dead(side *s, const wickr_buffer_t *more)
{
    unsigned i = s->n_in, o = s->n_out, n = s->n_state;
    uint8_t b[2] = { 1, 2 };
    wickr_buffer_t *d = L_buf(b, 2);
    vf_assert(st(s) == TRANSPORT_STATUS_ERROR, "the session is in error");
    vf_assert(wickr_transport_ctx_get_last_error(s->t) != TRANSPORT_ERROR_NONE, "and says why");
    if (more) rx(s, more);
    wickr_transport_ctx_process_tx_buffer(s->t, d);
    wickr_transport_ctx_start(s->t);
    if (s->verdict) s->verdict(s->t, true);
    vf_assert(st(s) == TRANSPORT_STATUS_ERROR, "the error is final");
    vf_assert(s->n_in == i, "nothing is delivered any more"); vf_assert(s->n_out == o, "nothing is sent any more"); vf_assert(s->n_state == n, "nothing is reported any more");
    L_free(d);
}
static void handshake(void)
{
    wickr_transport_ctx_start(A.t);
    vf_assert(st(&A) == TRANSPORT_STATUS_INITIAL_HANDSHAKE, "started"); vf_assert(A.n_out == 1, "one message out"); vf_assert(A.n_in == 0, "nothing in");
    rx(&B, A.out[0]);
    if (!PIN_B) { vf_assert(B.n_ask == 1, "asked once"); }
    else vf_assert(B.n_ask == 0, "not asked about a known peer");
    if (!PIN_B && !SYNC) {
        vf_assert(st(&B) == TRANSPORT_STATUS_NONE, "not active before the verdict"); vf_assert(B.n_out == 0, "no answer before the verdict");
        B.verdict(B.t, true);
    }
    vf_assert(st(&B) == TRANSPORT_STATUS_ACTIVE, "responder active"); vf_assert(B.n_out == 1, "one answer");
    rx(&A, B.out[0]);
    if (!PIN_A) vf_assert(A.n_ask == 1, "asked once");
    else vf_assert(A.n_ask == 0, "not asked about a known peer");
    if (!PIN_A && !SYNC) { vf_assert(st(&A) == TRANSPORT_STATUS_INITIAL_HANDSHAKE, "not active before the verdict"); A.verdict(A.t, true); }
    vf_assert(st(&A) == TRANSPORT_STATUS_ACTIVE, "initiator active"); vf_assert(A.n_out == 1, "nothing more to say"); vf_assert(B.n_out == 1, "nothing more to say");
    vf_assert(A.n_in == 0, "handshake messages are not data"); vf_assert(B.n_in == 0, "handshake messages are not data");
    vf_assert(A.n_state == 2, "two state changes"); vf_assert(B.n_state == 1, "one state change");
}
int main(void)
{
    e = vf_engine();
    wickr_identity_chain_t *ia = party(1), *ib = party(2);
    make(&A, ia, PIN_A ? ib : NULL, 5); make(&B, ib, PIN_B ? ia : NULL, 3);
    uint8_t m[4] = { vf_nd_u8(), vf_nd_u8(), vf_nd_u8(), vf_nd_u8() };
    wickr_buffer_t *d1 = L_buf(m, 1), *d2 = L_buf(m + 1, 3), *w, *w2;
#if SCEN == 0 || SCEN == 1
    handshake();
    if (!PIN_A) vf_assert(same_chain(A.peer, ib), "the responder was presented");
    if (!PIN_B) vf_assert(same_chain(B.peer, ia), "the initiator was presented");
    vf_assert(wickr_transport_ctx_get_last_error(A.t) == TRANSPORT_ERROR_NONE, "no error");
#if SCEN == 1
    { wickr_transport_ctx_t *c = wickr_transport_ctx_copy(A.t); vf_assert(c, "an active session can be copied"); wickr_transport_ctx_destroy(&A.t); A.t = c; vf_assert(st(&A) == TRANSPORT_STATUS_ACTIVE, "the copy is active"); }
    { wickr_transport_ctx_t *c = wickr_transport_ctx_copy(B.t); vf_assert(c, "an active session can be copied"); wickr_transport_ctx_destroy(&B.t); B.t = c; vf_assert(st(&B) == TRANSPORT_STATUS_ACTIVE, "the copy is active"); }
#endif
    rx(&B, pkt(&A, d1));
    vf_assert(B.n_in == 1, "delivered"); vf_assert(vf_buf_eq(B.in[0], d1), "exactly what was sent");
    rx(&B, pkt(&A, d2));
    vf_assert(B.n_in == 2, "delivered"); vf_assert(vf_buf_eq(B.in[1], d2), "exactly what was sent");
    rx(&A, pkt(&B, d1));
    vf_assert(A.n_in == 1, "delivered"); vf_assert(vf_buf_eq(A.in[0], d1), "exactly what was sent");
    rx(&A, pkt(&B, d1));
    vf_assert(A.n_in == 2, "delivered"); vf_assert(vf_buf_eq(A.in[1], d1), "exactly what was sent");
    vf_assert(st(&A) == TRANSPORT_STATUS_ACTIVE, "still active"); vf_assert(st(&B) == TRANSPORT_STATUS_ACTIVE, "still active");
#elif SCEN == 2
    /* one byte of a data packet changed */
    handshake();
    w = pkt(&A, d1); w2 = pkt(&A, d2);
    { uint8_t x = vf_nd_u8(); vf_assume(x != 0);
      wickr_buffer_t *c = L_buf(w->bytes, w->length);
      c->bytes[POS < 0 ? (int)c->length + POS : POS] ^= x;
      rx(&B, c);
      L_free(c); }
    vf_assert(B.n_in == 0, "changed data is not delivered");
    dead(&B, w2);
#elif SCEN == 3
    /* a packet delivered twice */
    handshake();
    w = pkt(&A, d1); w2 = pkt(&A, d2);
    rx(&B, w); vf_assert(B.n_in == 1, "delivered once");
    rx(&B, w); vf_assert(B.n_in == 1, "not delivered twice");
    dead(&B, w2);
#elif SCEN == 4
    /* a lost packet, then the packets in the wrong order */
    handshake();
    w = pkt(&A, d1); w2 = pkt(&A, d2);
    rx(&B, w2); vf_assert(B.n_in == 1, "a later packet is delivered"); vf_assert(vf_buf_eq(B.in[0], d2), "exactly what was sent");
    rx(&B, w); vf_assert(B.n_in == 1, "an earlier one no more");
    dead(&B, w2);
#elif SCEN == 5
    /* a packet sent back to its sender */
    handshake();
    w = pkt(&A, d1);
    rx(&A, w); vf_assert(A.n_in == 0, "own data is not delivered");
    dead(&A, w);
#elif SCEN == 6
    /* data of another session between the same parties */
    { side a1 = A, b1 = B;
      handshake(); w = pkt(&A, d1);
      a1 = A; b1 = B; memset(&A, 0, sizeof(A)); memset(&B, 0, sizeof(B));
      make(&A, ia, PIN_A ? ib : NULL, 5); make(&B, ib, PIN_B ? ia : NULL, 3);
      handshake();
      rx(&B, w); vf_assert(B.n_in == 0, "data of another session is not delivered");
      dead(&B, NULL);
      drop(&a1); drop(&b1); }
#elif SCEN == 7
    /* data before any handshake */
    { wickr_transport_packet_meta_t pm; memset(&pm, 0, sizeof(pm)); wickr_transport_packet_meta_initialize_data(&pm, 1, TRANSPORT_MAC_TYPE_AUTH_CIPHER);
      wickr_transport_packet_t *p = wickr_transport_packet_create(pm, L_fill(30, 3));
      w = wickr_transport_packet_serialize(p);
      if (POS == 1) wickr_transport_ctx_start(A.t);
      rx(&A, w); vf_assert(A.n_in == 0, "nothing is delivered before the handshake");
      dead(&A, w);
      wickr_transport_packet_destroy(&p); wickr_buffer_destroy(&w); }
#elif SCEN == 8
    /* sending before the handshake */
    if (POS == 1) wickr_transport_ctx_start(A.t);
    { unsigned n = A.n_out; wickr_transport_ctx_process_tx_buffer(A.t, d1); vf_assert(A.n_out == n, "nothing is sent before the handshake"); }
    dead(&A, NULL);
#elif SCEN == 9
    /* the identity is refused */
    wickr_transport_ctx_start(A.t);
    rx(&B, A.out[0]);
    vf_assert(B.n_ask == 1, "asked");
    B.verdict(B.t, false);
    vf_assert(B.n_out == 0, "a refused peer gets no answer");
    dead(&B, A.out[0]);
#elif SCEN == 10
    /* something else goes wrong while the verdict is awaited; the verdict comes afterwards */
    wickr_transport_ctx_start(A.t);
    rx(&B, A.out[0]);
    vf_assert(B.n_ask == 1, "asked");
    { uint8_t bad[3] = { vf_nd_u8(), vf_nd_u8(), vf_nd_u8() };
      w = L_buf(bad, 3);
      if (POS == 0) rx(&B, w);
      else if (POS == 1) wickr_transport_ctx_process_tx_buffer(B.t, d1);
      else if (POS == 2) rx(&B, A.out[0]);
      else if (POS == 3) wickr_transport_ctx_start(B.t);
      L_free(w); }
    vf_assert(B.n_out == 0, "no answer");
    dead(&B, A.out[0]);
#elif SCEN == 11
    /* the same for the initiator */
    wickr_transport_ctx_start(A.t);
    rx(&B, A.out[0]); B.verdict(B.t, true); rx(&A, B.out[0]);
    vf_assert(A.n_ask == 1, "asked");
    if (POS == 0) rx(&A, d1);
    else if (POS == 1) wickr_transport_ctx_process_tx_buffer(A.t, d1);
    else if (POS == 2) rx(&A, B.out[0]);
    else if (POS == 3) wickr_transport_ctx_start(A.t);
    else if (POS == 4) A.verdict(A.t, false);
    vf_assert(A.n_out == 1, "nothing more is sent");
    dead(&A, B.out[0]);
#elif SCEN == 12
    /* handshake messages, garbage or nothing once the session is active */
    handshake();
    w = pkt(&A, d1);
    if (POS == 0) rx(&B, A.out[0]);
    else if (POS == 1) rx(&B, B.out[0]);
    else if (POS == 2) rx(&B, d2);
    else if (POS == 3) rx(&B, NULL);
    else if (POS == 4) wickr_transport_ctx_start(B.t);
    vf_assert(B.n_in == 0, "nothing is delivered"); vf_assert(B.n_out == 1, "nothing is sent");
    dead(&B, w);
#elif SCEN == 13
    /* an active session hears the verdict again */
    handshake();
    B.verdict(B.t, POS); A.verdict(A.t, POS);
    vf_assert(B.n_out == 1, "no second answer"); vf_assert(st(&B) != TRANSPORT_STATUS_NONE, "the session does not start over");
    rx(&B, pkt(&A, d1)); vf_assert(B.n_in == 1, "still works"); vf_assert(vf_buf_eq(B.in[0], d1), "exactly what was sent");
#elif SCEN == 14
    /* the engine may fail in step POS */
    bool ok = false;
#define STEP(k, call) do { if (POS == (k)) vf_eng_faults = true; call; vf_eng_faults = false; } while (0)
    STEP(0, wickr_transport_ctx_start(A.t));
    if (st(&A) != TRANSPORT_STATUS_INITIAL_HANDSHAKE) { vf_assert(A.n_out == 0, "nothing was sent"); dead(&A, NULL); goto done; }
    if (POS == 0) { ok = true; goto done; }
    STEP(1, rx(&B, A.out[0]));
    if (!PIN_B) { if (B.n_ask == 0) { dead(&B, NULL); goto done; } if (POS == 1) { ok = true; goto done; }  STEP(2, B.verdict(B.t, true)); }
    if (st(&B) != TRANSPORT_STATUS_ACTIVE) { vf_assert(B.n_out == 0, "a session that did not come up is not announced to the peer"); dead(&B, NULL); goto done; }
    if (POS <= 2) { ok = true; goto done; }
    STEP(3, rx(&A, B.out[0]));
    if (!PIN_A) { if (A.n_ask == 0) { dead(&A, NULL); goto done; } if (POS == 3) { ok = true; goto done; } STEP(4, A.verdict(A.t, true)); }
    if (st(&A) != TRANSPORT_STATUS_ACTIVE) { dead(&A, NULL); goto done; }
    if (POS <= 4) { ok = true; goto done; }
    STEP(5, wickr_transport_ctx_process_tx_buffer(A.t, d1));
    if (A.n_out == 1) { dead(&A, NULL); goto done; }
    if (POS <= 5) { ok = true; goto done; }
    STEP(6, rx(&B, A.out[1]));
    if (B.n_in == 0) { dead(&B, NULL); goto done; }
    vf_assert(vf_buf_eq(B.in[0], d1), "exactly what was sent");
    ok = true;
done:
    if (ok) VF_REACH("no failure");
#endif
    vf_eng_faults = false;
    L_free(d1); L_free(d2);
    drop(&A); drop(&B);
    wickr_identity_chain_destroy(&ia); wickr_identity_chain_destroy(&ib);
    vf_check_no_leak();
    VF_REACH("end");
    return 0;
}
