"""Generates the typed model of the protobuf-c runtime from /repo's *generated* protobuf sources.

A small native program is linked against the generated descriptors of the current tree and dumps them; from that we emit
vf_pb.c: deep copy / compare / release / 'arbitrary message' per message type, and the protobuf_c_message_* entry points
on top of them.  Pack stores a deep copy of the message in a registry and writes a handle; unpack of a handle returns a
deep copy; unpack of any other bytes yields NULL or (when the harness asks for it) an arbitrary well-formed message."""
import os, re, subprocess, json, glob, sys

DUMP = r'''
#include <stdio.h>
#include <protobuf-c/protobuf-c.h>
%(includes)s
static const ProtobufCMessageDescriptor *D[] = { %(descs)s };
static const char *N[] = { %(names)s };
int main(void) {
  printf("[");
  for (unsigned i = 0; i < sizeof(D)/sizeof(*D); i++) {
    printf("%%s{\"var\":\"%%s\",\"type\":\"%%s\",\"fields\":[", i ? "," : "", N[i], D[i]->c_name);
    for (unsigned f = 0; f < D[i]->n_fields; f++) {
      const ProtobufCFieldDescriptor *d = &D[i]->fields[f];
      const char *sub = "";
      if (d->type == PROTOBUF_C_TYPE_MESSAGE) for (unsigned k = 0; k < sizeof(D)/sizeof(*D); k++) if (D[k] == d->descriptor) sub = N[k];
      printf("%%s{\"name\":\"%%s\",\"id\":%%u,\"label\":%%d,\"type\":%%d,\"oneof\":%%d,\"quant\":%%u,\"sub\":\"%%s\"}", f ? "," : "", d->name, d->id, d->label, d->type, (d->flags & PROTOBUF_C_FIELD_FLAG_ONEOF) != 0, d->quantifier_offset, sub);
    }
    printf("]}");
  }
  printf("]\n"); return 0; }
'''
T_BOOL, T_ENUM, T_STRING, T_BYTES, T_MESSAGE = 12, 13, 14, 15, 16
T_64 = {3, 4, 5, 8, 9} # int64 sint64 sfixed64 uint64 fixed64 (see protobuf-c.h order)
REQ, OPT, REP, NONE = 0, 1, 2, 3

def dump(gen_dir, tmp):
    headers = sorted(glob.glob(gen_dir + '/*.pb-c.h'))
    descs, oneof = [], {}
    for h in headers:
        txt = open(h).read()
        descs += re.findall(r'extern const ProtobufCMessageDescriptor (\w+);', txt)
        for m in re.finditer(r'struct\s+_?(\w+)\s*\{(.*?)\n\};', txt, re.S):
            c = re.search(r'(\w+Case)\s+(\w+_case);', m.group(2))
            if c: oneof[m.group(1)] = c.group(2)
    src = DUMP % dict(includes='\n'.join('#include "%s"' % os.path.basename(h) for h in headers),
                      descs=', '.join('&' + d for d in descs), names=', '.join('"%s"' % d for d in descs))
    c = os.path.join(tmp, 'pbdump.c'); open(c, 'w').write(src)
    exe = os.path.join(tmp, 'pbdump')
    subprocess.run(['gcc', '-w', '-I' + gen_dir, c] + sorted(glob.glob(gen_dir + '/*.c')) + ['-lprotobuf-c', '-o', exe], check=True)
    return json.loads(subprocess.run([exe], check=True, capture_output=True, text=True).stdout), headers, oneof

def alias(m, n):
    # every member of the oneof names the same memory (see driver.py: in the goto build the union is a struct)
    return ''.join(' d->%s = (void *)d->%s;' % (f['name'], n) for f in m['fields'] if f['oneof'] and f['name'] != n)

def short(var): return var.replace('wickr__proto__', '').replace('__descriptor', '')

def generate(gen_dir, tmp):
    msgs, headers, oneof = dump(gen_dir, tmp)
    o = ['/* generated by vf/pbgen.py from %s */' % gen_dir, '#include "vf.h"', '#include "vf_pb.h"', '#include <protobuf-c/protobuf-c.h>']
    o += ['#include "%s"' % os.path.basename(h) for h in headers]
    o.append('#include "vf_nocheck.h"')
    for m in msgs:
        s, T = short(m['var']), m['type']
        o.append('static %s *pb_dup_%s(const %s *s); static bool pb_eq_%s(const %s *a, const %s *b); static void pb_free_%s(%s *m); static %s *pb_any_%s(void);' % (T, s, T, s, T, T, s, T, T, s))
    o.append(r'''
static bool pb_private; /* registry copies live outside the leak accounting */
#define pb_alloc(n) (pb_private ? vf_alloc(n) : malloc(n))
static void pb_bytes_dup(ProtobufCBinaryData *d, const ProtobufCBinaryData *s) {
  d->len = s->len; d->data = NULL;
  if (s->len) { d->data = pb_alloc(s->len); memcpy(d->data, s->data, s->len); }
}''')
    for m in msgs:
        s, T = short(m['var']), m['type']
        case = oneof.get(T)
        D, E, F, A = [], [], [], []
        for f in m['fields']:
            n, ty, lb = f['name'], f['type'], f['label']
            sub = short(f['sub']) if f['sub'] else None
            if f['oneof']:
                assert ty == T_MESSAGE, 'only message oneofs are modelled'
                D.append('  if (s->%s == %d) { d->%s = pb_dup_%s(s->%s);%s }' % (case, f['id'], n, sub, n, alias(m, n)))
                E.append('  if (a->%s == %d) VF_AND(eq, pb_eq_%s(a->%s, b->%s));' % (case, f['id'], sub, n, n))
                F.append('  if (m->%s == %d) pb_free_%s(m->%s);' % (case, f['id'], sub, n))
                A.append('  if (m->%s == %d) { m->%s = pb_any_%s();%s }' % (case, f['id'], n, sub, alias(m, n).replace('d->', 'm->')))
                continue
            scalar = ty not in (T_STRING, T_BYTES, T_MESSAGE)
            assert ty != T_STRING, 'string fields are not modelled'
            if lb == REP:
                assert ty == T_MESSAGE, 'only repeated messages are modelled'
                D.append('  d->%s = NULL; if (s->n_%s) { d->%s = pb_alloc(sizeof(*d->%s) * s->n_%s); for (size_t i = 0; i < s->n_%s; i++) d->%s[i] = pb_dup_%s(s->%s[i]); }' % (n, n, n, n, n, n, n, sub, n))
                E.append('  if (a->n_%s != b->n_%s) return false; for (size_t i = 0; i < a->n_%s; i++) VF_AND(eq, pb_eq_%s(a->%s[i], b->%s[i]));' % (n, n, n, sub, n, n))
                F.append('  for (size_t i = 0; i < m->n_%s; i++) pb_free_%s(m->%s[i]); free(m->%s);' % (n, sub, n, n))
                A.append('  { uint32_t c = vf_nd_range(0, VF_PB_MAXREP); m->%s = NULL; m->n_%s = 0; for (uint32_t t = 1; t <= VF_PB_MAXREP; t++) if (c == t) { m->n_%s = t; m->%s = malloc(sizeof(*m->%s) * t); for (uint32_t i = 0; i < t; i++) m->%s[i] = pb_any_%s(); } }' % (n, n, n, n, n, n, sub))
            elif ty == T_MESSAGE:
                D.append('  if (s->%s) d->%s = pb_dup_%s(s->%s);' % (n, n, sub, n))
                E.append('  if ((a->%s != NULL) != (b->%s != NULL)) return false; if (a->%s) VF_AND(eq, pb_eq_%s(a->%s, b->%s));' % (n, n, n, sub, n, n))
                F.append('  if (m->%s) pb_free_%s(m->%s);' % (n, sub, n))
                if lb == REQ: A.append('  m->%s = pb_any_%s();' % (n, sub))
                else: A.append('  m->%s = NULL; if (vf_nd_bool()) m->%s = pb_any_%s();' % (n, n, sub))
            elif ty == T_BYTES:
                if lb == REQ:
                    D.append('  pb_bytes_dup(&d->%s, &s->%s);' % (n, n))
                    E.append('  VF_AND(eq, vf_beq(a->%s.data, a->%s.len, b->%s.data, b->%s.len));' % (n, n, n, n))
                    A.append('  vf_pb_any_bytes("%s.%s", &m->%s);' % (s, n, n))
                    F.append('  free(m->%s.data);' % n)
                else:
                    D.append('  d->%s.len = 0; d->%s.data = NULL; if (s->has_%s) pb_bytes_dup(&d->%s, &s->%s);' % (n, n, n, n, n))
                    E.append('  if (a->has_%s != b->has_%s) return false; if (a->has_%s) VF_AND(eq, vf_beq(a->%s.data, a->%s.len, b->%s.data, b->%s.len));' % (n, n, n, n, n, n, n))
                    A.append('  m->%s.len = 0; m->%s.data = NULL; m->has_%s = vf_nd_bool(); if (m->has_%s) vf_pb_any_bytes("%s.%s", &m->%s);' % (n, n, n, n, s, n, n))
                    F.append('  if (m->has_%s) free(m->%s.data);' % (n, n))
            else:
                nd = 'vf_nd_bool()' if ty == T_BOOL else ('vf_nd_u64()' if ty in (3, 4, 5, 8, 9, 6) else 'vf_nd_u32()')
                has = lb != REQ
                if has:
                    E.append('  if (a->has_%s != b->has_%s) return false; if (a->has_%s) eq = eq && a->%s == b->%s;' % (n, n, n, n, n))
                    A.append('  m->has_%s = vf_nd_bool(); if (m->has_%s) m->%s = %s;' % (n, n, n, nd))
                else:
                    E.append('  eq = eq && a->%s == b->%s;' % (n, n))
                    A.append('  m->%s = %s;' % (n, nd))
        initfn = None
        lower = m['var'].replace('__descriptor', '__init')
        o.append('static %s *pb_dup_%s(const %s *s) {\n  %s *d = pb_alloc(sizeof(*d));\n  *d = *s;\n%s\n  return d; }' % (T, s, T, T, '\n'.join(D)))
        casecmp = ('  if (a->%s != b->%s) return false;\n' % (case, case)) if case else ''
        o.append('static bool pb_eq_%s(const %s *a, const %s *b) {\n  bool eq = true;\n%s%s\n  return eq; }' % (s, T, T, casecmp, '\n'.join(E)))
        o.append('static void pb_free_%s(%s *m) {\n%s\n  free(m); }' % (s, T, '\n'.join(F)))
        pre = ''
        if case:
            ids = [f['id'] for f in m['fields'] if f['oneof']]
            pre = '  { uint32_t c = vf_nd_u32(); vf_assume(c == 0 %s); m->%s = c; }\n' % (' '.join('|| c == %d' % i for i in ids), case)
        o.append('static %s *pb_any_%s(void) {\n  %s *m = malloc(sizeof(*m));\n  %s(m);\n%s%s\n  return m; }' % (T, s, T, lower, pre, '\n'.join(A)))
    def sw(fmt): return '\n'.join('  if (d == &%s) ' % m['var'] + fmt.replace('S_', short(m['var'])) + ';' for m in msgs)
    o.append(r'''
typedef struct pb_row { struct pb_row *next; const ProtobufCMessageDescriptor *d; void *m; uint8_t canon; } pb_row;
static pb_row *pb_reg; /* newest first */
static uint8_t pb_n;
bool vf_pb_attack;
unsigned vf_pb_count(void) { return pb_n; }
const void *vf_pb_latest(const void *desc) { for (pb_row *r = pb_reg; r; r = r->next) if (r->d == desc) return r->m; return NULL; }
void vf_pb_each(void (*f)(const void *desc, const void *msg)) { for (pb_row *r = pb_reg; r; r = r->next) f(r->d, r->m); }
size_t protobuf_c_message_get_packed_size(const ProtobufCMessage *m) { return VF_PB_HLEN; }
static bool pb_eq(const ProtobufCMessageDescriptor *d, const void *a, const void *b) {%%EQ%%
  return false; }
static void *pb_dup(const ProtobufCMessageDescriptor *d, const void *a) {%%DUP%%
  vf_internal(false, "unknown message descriptor"); return NULL; }
static void *pb_any(const ProtobufCMessageDescriptor *d) {%%ANY%%
  vf_internal(false, "unknown message descriptor"); return NULL; }
size_t protobuf_c_message_pack(const ProtobufCMessage *m, uint8_t *out) {
  vf_internal(pb_n < 255, "protobuf registry capacity");
  pb_row *n = vf_alloc(sizeof(pb_row));
  n->d = m->descriptor; n->canon = pb_n++;
  pb_private = true; n->m = pb_dup(m->descriptor, m); pb_private = false;
  for (pb_row *r = pb_reg; r; r = r->next) if (r->d == n->d) { bool eq = pb_eq(n->d, r->m, n->m); n->canon = eq ? r->canon : n->canon; }
  n->next = pb_reg; pb_reg = n;
  out[0] = 0x7B; out[1] = n->canon; out[2] = 0xB7; out[3] = 0x01;
  for (size_t i = 4; i < VF_PB_HLEN; i++) out[i] = 0x66;
  return VF_PB_HLEN; }
size_t protobuf_c_message_pack_to_buffer(const ProtobufCMessage *m, ProtobufCBuffer *b) { return 0; }
ProtobufCMessage *protobuf_c_message_unpack(const ProtobufCMessageDescriptor *desc, ProtobufCAllocator *al, size_t len, const uint8_t *data) {
  vf_readable(data, len);
  if (len == VF_PB_HLEN) {
    bool handle = data[0] == 0x7B && data[2] == 0xB7 && data[3] == 0x01;
    for (size_t i = 4; i < VF_PB_HLEN; i++) handle = handle && data[i] == 0x66;
    if (handle) {
      for (pb_row *r = pb_reg; r; r = r->next)
        if (r->d == desc && r->canon == data[1]) return pb_dup(desc, r->m);
    }
  }
  if (!vf_pb_attack) return NULL;
  if (vf_nd_bool()) return NULL;
  return pb_any(desc); }
void protobuf_c_message_free_unpacked(ProtobufCMessage *m, ProtobufCAllocator *al) {
  if (!m) return;'''.replace('%%EQ%%', '\n' + sw('return pb_eq_S_(a, b)')).replace('%%DUP%%', '\n' + sw('return pb_dup_S_(a)')).replace('%%ANY%%', '\n' + sw('return pb_any_S_()')))
    for m in msgs:
        o.append('  if (m->descriptor == &%s) { pb_free_%s((%s *)m); return; }' % (m['var'], short(m['var']), m['type']))
    o.append(r'''  vf_internal(false, "unknown message descriptor"); }
protobuf_c_boolean protobuf_c_message_check(const ProtobufCMessage *m) { return 1; }''')
    return '\n'.join(o) + '\n'

if __name__ == '__main__':
    print(generate(sys.argv[1], sys.argv[2]))
