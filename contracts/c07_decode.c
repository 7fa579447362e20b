/* C07 - decoding any bytes is memory safe and reports truncation.
 * A message of any size and content, read at any position. */
#include "vm_state.h"
//@ assume messages are shorter than 2^26 bytes; memory allocation succeeds
//@ assume appending to an array follows the array contract proved in C01
static buzzdarray_t B; static uint32_t M;
static void none(uint32_t p, void* d, void* x) {}
static void any_msg(void) {
   B = malloc(sizeof(struct buzzdarray_s));
   M = vf_u32("msize"); vf_assume(M < (1u << 26));
   if(vf_bounded()) vf_assume(M <= 12);
   B->elem_size = 1; B->size = M; B->capacity = M + 1; B->elem_destroy = none;
   B->data = vf_buf("msg", M);     /* nothing behind the last byte is accessible */
}
static uint8_t mb(uint32_t i) { return ((uint8_t*)B->data)[i]; }
/* result of reading n bytes at pos */
static int room(uint32_t pos, uint32_t n) { return (uint64_t)pos + n <= M; }
#define PRIM(T, W)                                                            \
   any_msg(); uint32_t pos = vf_u32("pos"); T##_t y = vf_##W("old"), y0 = y;  \
   int64_t p = buzzmsg_deserialize_##W(&y, B, pos);                           \
   ENSURES((p < 0) == !room(pos, sizeof(T##_t)), "reading fails exactly when too few bytes are left"); \
   ENSURES(IMPLIES(p >= 0, p == (int64_t)pos + (int64_t)sizeof(T##_t)), "reading advances by the length of the item"); \
   ENSURES(IMPLIES(p < 0, y == y0), "a failed read stores nothing");          \
   ENSURES(B->size == M, "reading changes nothing");                          \
   vf_cover("end");
//@ unit u8 fn=buzzmsg_deserialize_u8
UNIT(u8) { PRIM(uint8, u8) }
//@ unit u16 fn=buzzmsg_deserialize_u16
UNIT(u16) { PRIM(uint16, u16) }
//@ unit u32 fn=buzzmsg_deserialize_u32
UNIT(u32) { PRIM(uint32, u32) }
//@ unit flt fn=buzzmsg_deserialize_float
UNIT(flt) {
   any_msg(); uint32_t pos = vf_u32("pos"); float y = 3;
   int64_t p = buzzmsg_deserialize_float(&y, B, pos);
   ENSURES((p < 0) == !room(pos, 8), "reading fails exactly when too few bytes are left");
   ENSURES(IMPLIES(p >= 0, p == (int64_t)pos + 8), "reading advances by the length of the item");
   ENSURES(IMPLIES(p < 0, y == 3), "a failed read stores nothing");
   vf_cover("end");
}
//@ unit str fn=buzzmsg_deserialize_string
UNIT(str) {
   any_msg(); uint32_t pos = vf_u32("pos"); char* s = NULL;
   uint32_t len = room(pos, 2) ? 256u * mb(pos) + mb(pos + 1) : 0;
   int64_t p = buzzmsg_deserialize_string(&s, B, pos);
   ENSURES((p < 0) == !(room(pos, 2) && room(pos + 2, len)), "reading fails exactly when too few bytes are left");
   if(p < 0) { ENSURES(s == NULL, "a failed read stores nothing"); vf_cover("end"); return; }
   ENSURES(p == (int64_t)pos + 2 + len, "reading advances by the length of the item");
   ENSURES(s[len] == 0, "a string read from a message is terminated");
   free(s);
   vf_cover("end");
}
/* contract of reading one value, used for the nested reads: fails, or advances
 * inside the message and yields a well-formed value of any type */
int64_t vf_stub__buzzobj_deserialize(buzzobj_t* data, buzzdarray_t buf, uint32_t pos, struct buzzvm_s* v) {
   vf_assert(v == vm && buf == B, "pre: nested values come from the same message");
   if(vf_bool("sub.fail")) return -1;
   int64_t p = vf_u32("sub.end");
   vf_assume(p > pos && p <= buf->size);
   uint32_t t = vf_choose("sub.type", 6);
   buzzobj_t o = raw_obj(t);
   if(t == BUZZTYPE_INT) o->i.value = vf_i32("sub.i");
   if(t == BUZZTYPE_FLOAT) o->f.value = vf_f32("sub.f");
   if(t == BUZZTYPE_STRING) { o->s.value.sid = vf_u16("sub.sid"); o->s.value.str = vf_opaque("sub.str"); }
   if(t == BUZZTYPE_TABLE) o->t.value = vf_opaque("sub.tab");
   if(t == BUZZTYPE_CLOSURE) { o->c.value.isnative = vf_u8("sub.nat"); o->c.value.ref = vf_i32("sub.ref"); o->c.value.actrec = vf_opaque("sub.act"); }
   *data = o;
   return p;
}
/* contract of the dictionary (C02); keys must be hashable */
static buzzdict_t g_tab;
void vf_stub__buzzdict_set(buzzdict_t dt, const void* key, const void* data) {
   if(dt != g_tab || !g_tab) { buzzdict_set(dt, key, data); return; }
   buzzobj_t k = *(buzzobj_t*)key, d = *(buzzobj_t*)data;
   vf_assert(k->o.type == BUZZTYPE_INT || k->o.type == BUZZTYPE_FLOAT || k->o.type == BUZZTYPE_STRING, "pre: a table key is a number or a string");
   vf_assert(d->o.type <= BUZZTYPE_CLOSURE, "pre: a table value is well formed");
}
/* the dictionary of the value being read: newest object of the heap */
buzzobj_t vf_stub__buzzheap_newobj(buzzvm_t v, uint16_t type) {
   vf_assert(type <= BUZZTYPE_USERDATA, "pre: the type of a new value is a known one");
   buzzobj_t o = buzzobj_new(type);
   o->o.marker = v->heap->marker;
   if(type == BUZZTYPE_TABLE) g_tab = o->t.value;
   return o;
}
/* interning (C05) of a terminated string */
uint16_t vf_stub__buzzstrman_register(buzzstrman_t sm, const char* str, int protect) {
   if(!vf_bounded() && sm == vm->strings) return vf_u16("sid");
   return buzzstrman_register(sm, str, protect);
}
const char* vf_stub__buzzstrman_get(buzzstrman_t sm, uint16_t sid) { return vf_opaque("txt"); }
static int64_t g_pos;
int vf_inv__buzzobj_deserialize__0(uint16_t* i, uint8_t* size, int64_t* p) { return *i <= *size && *p > g_pos && *p <= M; }
//@ unit value fn=buzzobj_deserialize split=kind:8 companion=bytes
UNIT(value) {
   any_vm(); any_msg();
   uint32_t pos = vf_u32("pos"), kind = vf_choose("kind", 8);
   buzzobj_t o = NULL; g_pos = pos;
   if(pos < M) {
      if(kind < 7) ((uint8_t*)B->data)[pos] = kind; else vf_assume(mb(pos) >= 7);
   }
   uint32_t len = kind == 3 && pos < M && room(pos + 1, 2) ? 256u * mb(pos + 1) + mb(pos + 2) : 0;
   int64_t p = buzzobj_deserialize(&o, B, pos, vm);
   if(p < 0) ENSURES(p == -1, "a failed read is reported as such");
   else {
      ENSURES(pos < M && p > pos && p <= M, "reading advances inside the message");
      ENSURES(kind < BUZZTYPE_USERDATA && o != NULL && o->o.type == kind, "a value read from a message has the type announced");
   }
   if(pos >= M || kind >= BUZZTYPE_USERDATA) ENSURES(p < 0, "an unknown or missing type is refused");
   else if(kind != BUZZTYPE_TABLE) {
      uint32_t need = kind == BUZZTYPE_NIL ? 1 : kind == BUZZTYPE_INT ? 5 : kind == BUZZTYPE_FLOAT ? 9 : kind == BUZZTYPE_STRING ? 3 + len : 6;
      ENSURES((p >= 0) == (need == 3 + len && kind == 3 ? room(pos, 3) && room(pos, need) : room(pos, need)), "reading fails exactly when too few bytes are left");
      ENSURES(IMPLIES(p >= 0, p == (int64_t)pos + need), "reading advances by the length of the item");
   }
   vf_cover("end");
}
//@ unit bytes fn=buzzobj_deserialize mode=bounded split=n:9 note="messages of up to 8 arbitrary bytes, real nested reads"
UNIT(bytes) {
   vm = buzzvm_new(1);
   M = vf_choose("n", 9);
   B = buzzdarray_frombuffer(vf_buf("msg", M), M, 1, NULL);
   if(M >= 2 && mb(0) == BUZZTYPE_TABLE) vf_assume(mb(1) <= 2);
   /* one level of nesting is enough here */
   buzzobj_t o = NULL;
   int64_t p = buzzobj_deserialize(&o, B, 0, vm);
   ENSURES(p == -1 || (p > 0 && p <= M), "reading fails or advances inside the message");
   ENSURES(IMPLIES(p > 0, o != NULL && o->o.type == mb(0) && o->o.type < BUZZTYPE_USERDATA), "a value read from a message has the type announced");
   vf_cover("end");
}

/* ---- messages received from other robots: any bytes, the real dispatcher ---- */
static int g_calls; static uint32_t g_argc;
static int on_msg(buzzvm_t v) { ++g_calls; g_argc = buzzvm_lnum(v); return buzzvm_ret0(v); }
static uint16_t topic;
static void receiver(void) {
   vm = buzzvm_new(7);
   vm->state = BUZZVM_STATE_READY;
   uint8_t* c = calloc(1, 1); vm->bcode = c; vm->bcode_size = 1;
   /* a listener for topic "t" and a tuple space 1 with one tuple */
   topic = buzzvm_string_register(vm, "t", 1);
   buzzvm_pushcc(vm, buzzvm_function_register(vm, on_msg));
   buzzobj_t l = buzzvm_stack_at(vm, 1); buzzvm_pop(vm);
   buzzdict_set(vm->listeners, &topic, &l);
   uint16_t id = 1; buzzvstig_t vs = buzzvstig_new(); buzzdict_set(vm->vstigs, &id, &vs);
   buzzobj_t k = buzzheap_newobj(vm, BUZZTYPE_INT); k->i.value = 5;
   buzzvstig_elem_t e = malloc(sizeof(struct buzzvstig_elem_s)); e->data = buzzheap_newobj(vm, BUZZTYPE_INT); e->data->i.value = 1;
   e->timestamp = 3; e->robot = 7;
   buzzvstig_store(vs, &k, &e);
}
static void receive(uint32_t n) {
   buzzmsg_payload_t m = buzzmsg_payload_frombuffer(B->data, n);
   uint16_t from = 3;
   buzzinmsg_queue_append(vm, from, m);
   buzzvm_process_inmsgs(vm);
   ENSURES(vm->state == BUZZVM_STATE_READY, "a message never stops the machine");
   ENSURES(buzzinmsg_queue_isempty(vm->inmsgs), "a message is consumed");
   ENSURES(buzzvm_stack_top(vm) == 0, "a message leaves the stack as it was");
   ENSURES(g_calls <= 1 && IMPLIES(g_calls, g_argc == 3), "a listener gets topic, value and sender");
}
#define MSGS(name, kind, nmax)                                                \
UNIT(name) {                                                                  \
   receiver(); g_calls = 0;                                                   \
   M = vf_choose("n", nmax + 1);                                              \
   B = malloc(sizeof *B); B->data = vf_buf("msg", M);                         \
   if(M > 0) { if(kind == 0xff) vf_assume(mb(0) > BUZZMSG_SWARM_LEAVE); else ((uint8_t*)B->data)[0] = kind; } \
   receive(M);                                                                \
   vf_cover("end");                                                           \
}
//@ unit in_broadcast fn=buzzvm_process_inmsgs mode=bounded split=n:10 note="broadcasts of up to 9 arbitrary bytes"
MSGS(in_broadcast, BUZZMSG_BROADCAST, 9)
//@ unit in_put fn=buzzvm_process_inmsgs,buzzvstig_elem_deserialize mode=bounded split=n:12 note="tuple updates of up to 11 arbitrary bytes"
MSGS(in_put, BUZZMSG_VSTIG_PUT, 11)
//@ unit in_query fn=buzzvm_process_inmsgs,buzzvstig_elem_deserialize mode=bounded split=n:12 note="tuple queries of up to 11 arbitrary bytes"
MSGS(in_query, BUZZMSG_VSTIG_QUERY, 11)
//@ unit in_list fn=buzzvm_process_inmsgs mode=bounded split=n:10 note="swarm lists of up to 9 arbitrary bytes"
MSGS(in_list, BUZZMSG_SWARM_LIST, 9)
//@ unit in_join fn=buzzvm_process_inmsgs mode=bounded split=n:5 note="join announcements of up to 4 arbitrary bytes"
MSGS(in_join, BUZZMSG_SWARM_JOIN, 4)
//@ unit in_leave fn=buzzvm_process_inmsgs mode=bounded split=n:5 note="leave announcements of up to 4 arbitrary bytes"
MSGS(in_leave, BUZZMSG_SWARM_LEAVE, 4)
//@ unit in_other fn=buzzvm_process_inmsgs mode=bounded split=n:5 note="other messages of up to 4 arbitrary bytes"
MSGS(in_other, 0xff, 4)
//@ search history
#ifdef VF_NATIVE
static void rnd_bytes(uint8_t* b, uint32_t n) {     /* bytes that look like messages */
   uint32_t i; for(i = 0; i < n; ++i) { uint32_t k = vf_rand(6); b[i] = k < 3 ? vf_rand(7) : k == 3 ? 0 : k == 4 ? 0xff - vf_rand(2) : vf_rand(256); }
}
SEARCH(history) {
   receiver(); uint32_t i, j, steps = 1 + vf_rand(30);
   for(i = 0; i < steps; ++i) {
      M = vf_rand(vf_rand(3) ? 24 : 400); uint8_t* b = malloc(M ? M : 1); rnd_bytes(b, M);
      if(vf_rand(2) && M > 8) { /* a well formed start */
         uint32_t p = 1; b[0] = vf_rand(2) ? BUZZMSG_BROADCAST : BUZZMSG_VSTIG_PUT + vf_rand(2); if(b[0] != BUZZMSG_BROADCAST) { b[p++] = 0; b[p++] = 1; b[p++] = 1; b[p++] = 0; b[p++] = 0; b[p++] = 0; b[p] = 5; } else { b[p++] = 3; b[p++] = 0; b[p++] = 1; b[p] = 't'; } }
      B = malloc(sizeof *B); B->data = b; g_calls = 0; receive(M);
      uint32_t n = M; M = n; uint8_t* c = malloc(n ? n : 1); memcpy(c, b, n); for(j = 0; j < n && vf_rand(4); ++j) c[j] = vf_rand(256);
      buzzdarray_t D = buzzdarray_frombuffer(c, n, 1, NULL); uint32_t pos = n ? vf_rand(n + 2) : 0; buzzobj_t o = NULL; int64_t q = buzzobj_deserialize(&o, D, pos, vm);
      vf_assert(q == -1 || (q > pos && q <= n && pos < n && o && o->o.type == c[pos]), "search: reading fails or advances inside the message");
      free(b); free(B); free(c);
   }
}
#endif
