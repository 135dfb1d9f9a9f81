#ifndef VF_PB_H
#define VF_PB_H
#include "vf.h"
#include <protobuf-c/protobuf-c.h>
#ifndef VF_PB_HLEN
#define VF_PB_HLEN 4
#endif
#ifndef VF_PB_MAXREP
#define VF_PB_MAXREP 2
#endif
/* bytes that were never packed by us parse to an arbitrary well-formed message (or fail) */
extern bool vf_pb_attack;
unsigned vf_pb_count(void);
const void *vf_pb_latest(const void *desc);                       /* latest message of that type given to pack */
void vf_pb_each(void (*f)(const void *desc, const void *msg));     /* every message given to pack */
/* chooses the contents of an arbitrary bytes field; supplied by vf_pb_bytes.c or by the harness */
void vf_pb_any_bytes(const char *field, ProtobufCBinaryData *out);
/* helper: a present field of exactly len arbitrary bytes (len 0: data == NULL, as the real runtime does) */
static inline void vf_pb_nd_len(ProtobufCBinaryData *out, size_t len)
{
    out->len = len; out->data = NULL;
    if (len) { out->data = malloc(len); vf_nd_bytes(out->data, len); }
}
#endif
