#include "vf_pb.h"
#include "vf_nocheck.h"
#ifndef VF_PB_L1
#define VF_PB_L1 3
#endif
void vf_pb_any_bytes(const char *field, ProtobufCBinaryData *out)
{
    if (vf_nd_bool()) vf_pb_nd_len(out, VF_PB_L1); else vf_pb_nd_len(out, 0);
}
