/* C06 - what is written to a message reads back equal.
 * The message already holds any number of arbitrary bytes (the prefix). */
#include "vm_state.h"
//@ assume messages are shorter than 2^26 bytes; memory allocation succeeds
//@ assume appending to a message follows the array contract proved in C01
//@ assume floats are finite (infinities and not-a-number have no encoding) and -0 may read back as 0
//@ assume strings have at most 65535 bytes and tables at most 255 fields (see known_findings.txt)

static buzzdarray_t B; static uint32_t P0; static uint32_t wk; static uint8_t wb;
static void none(uint32_t p, void* d, void* x) {}
/* a message with any prefix and room for `room` more bytes */
static void any_msg(uint32_t room) {
   B = malloc(sizeof(struct buzzdarray_s));
   P0 = vf_u32("prefix"); vf_assume(P0 < (1u << 26));
   if(vf_bounded()) vf_assume(P0 <= 3);
   B->elem_size = 1; B->size = P0; B->capacity = P0 + room; B->elem_destroy = none;
   B->data = vf_buf("msg", B->capacity);
   wk = vf_u32("k"); vf_assume(wk < P0 || P0 == 0);
   if(P0) wb = ((uint8_t*)B->data)[wk];
}
static uint8_t byte(uint32_t i) { return ((uint8_t*)B->data)[P0 + i]; }
static void written(uint64_t n) {
   ENSURES(B->size == (int64_t)(P0 + n), "an item takes exactly its documented number of bytes");
   if(P0) ENSURES(((uint8_t*)B->data)[wk] == wb, "writing keeps the bytes already in the message");
}
#define PRIM(T, W)                                                            \
   any_msg(16); T##_t x = vf_##W("x"), y = 0, z = 0;                          \
   buzzmsg_serialize_##W(B, x); written(sizeof(T##_t));                       \
   for(uint32_t i = 0; i < sizeof(T##_t); ++i)                                \
      ENSURES(byte(i) == (uint8_t)(x >> (8 * (sizeof(T##_t) - 1 - i))), "integers travel most significant byte first"); \
   uint8_t tail = vf_u8("tail"); buzzmsg_serialize_u8(B, tail);               \
   int64_t p = buzzmsg_deserialize_##W(&y, B, P0);                            \
   ENSURES(y == x, "an integer reads back equal");                            \
   ENSURES(p == (int64_t)P0 + (int64_t)sizeof(T##_t), "reading ends where writing ended"); \
   uint8_t t = 0; ENSURES(buzzmsg_deserialize_u8(&t, B, p) == p + 1 && t == tail, "the next item reads back"); \
   ENSURES(B->size == P0 + sizeof(T##_t) + 1, "reading changes nothing"); (void)z; \
   vf_cover("end");
//@ unit u8 fn=buzzmsg_serialize_u8,buzzmsg_deserialize_u8
UNIT(u8) { PRIM(uint8, u8) }
//@ unit u16 fn=buzzmsg_serialize_u16,buzzmsg_deserialize_u16
UNIT(u16) { PRIM(uint16, u16) }
//@ unit u32 fn=buzzmsg_serialize_u32,buzzmsg_deserialize_u32
UNIT(u32) { PRIM(uint32, u32) }
static int finite32(float f) { return f - f == 0.0f; }
//@ unit flt fn=buzzmsg_serialize_float,buzzmsg_deserialize_float
UNIT(flt) {
   any_msg(16); float x = vf_f32("x"), y = 7;
   vf_assume(finite32(x));
   buzzmsg_serialize_float(B, x); written(8);
   int64_t p = buzzmsg_deserialize_float(&y, B, P0);
   ENSURES(p == (int64_t)P0 + 8, "reading ends where writing ended");
   ENSURES(y == x, "a float reads back equal");
   vf_cover("end");
}
/* the string: any text of L bytes (no zero byte before its end) */
static char* T; static uint32_t L, wc;
size_t vf_stub__strlen(const char* s) { vf_assert(s == T, "pre: strlen of the string being written"); return L; }
int vf_inv__buzzmsg_serialize_string__0(const char** c, const char** data, buzzdarray_t* buf) {
   uint64_t i = *c - T;
   if(!(i <= L)) return 0;
   /* the text has no zero byte before its end, instantiated here */
   vf_assume(IMPLIES(i < L, T[i] != 0));
   if(!((*buf)->size == (int64_t)(P0 + 2 + i))) return 0;
   if(!(byte(0) == (uint8_t)(L >> 8) && byte(1) == (uint8_t)L)) return 0;
   if(P0 && ((uint8_t*)B->data)[wk] != wb) return 0;
   return IMPLIES(wc < i, byte(2 + wc) == (uint8_t)T[wc]);
}
void vf_mod__buzzmsg_serialize_string__0(const char** c, const char** data, buzzdarray_t* buf) {
   *c = T + vf_u32("l.i"); (*buf)->size = vf_u32("l.size"); vf_havoc((*buf)->data, (*buf)->capacity);
}
//@ unit str fn=buzzmsg_serialize_string,buzzmsg_deserialize_string companion=str_b
UNIT(str) {
   L = vf_u32("len"); vf_assume(L <= 65535);
   if(vf_bounded()) vf_assume(L <= 5);
   T = vf_buf("text", (uint64_t)L + 1); T[L] = 0;
   if(vf_bounded()) for(uint32_t i = 0; i < L; ++i) vf_assume(T[i] != 0);
   wc = vf_u32("wc"); vf_assume(wc < L || L == 0);
   any_msg(L + 16);
   buzzmsg_serialize_string(B, T); written(2 + (uint64_t)L);
   ENSURES(byte(0) == (uint8_t)(L >> 8) && byte(1) == (uint8_t)L, "a string starts with its length");
   char* r = NULL;
   int64_t p = buzzmsg_deserialize_string(&r, B, P0);
   ENSURES(p == (int64_t)P0 + 2 + L, "reading ends where writing ended");
   ENSURES(r != NULL && r[L] == 0, "a string reads back with its length");
   if(L) ENSURES(r[wc] == T[wc], "a string reads back equal");
   free(r);
   vf_cover("end");
}
//@ unit str_b fn=buzzmsg_serialize_string,buzzmsg_deserialize_string mode=bounded split=n:6 note="strings of up to 5 bytes, prefixes of up to 3"
UNIT(str_b) {
   B = buzzdarray_new(1, 1, NULL);
   uint32_t n = vf_choose("n", 6), m = vf_choose("m", 3), i;
   for(i = 0; i < m; ++i) { uint8_t b = vf_u8("pre"); buzzdarray_push(B, &b); }
   char* s = vf_buf("text", n + 1); s[n] = 0;
   for(i = 0; i < n; ++i) vf_assume(s[i] != 0);
   buzzmsg_serialize_string(B, s); buzzmsg_serialize_string(B, "x");
   ENSURES(B->size == m + 2 + n + 3, "an item takes exactly its documented number of bytes");
   char *r = NULL, *q = NULL;
   int64_t p = buzzmsg_deserialize_string(&r, B, m);
   ENSURES(p == m + 2 + n, "reading ends where writing ended");
   for(i = 0; i < n; ++i) ENSURES(r[i] == s[i], "a string reads back equal");
   ENSURES(r[n] == 0, "a string reads back with its length");
   ENSURES(buzzmsg_deserialize_string(&q, B, p) == B->size && q[0] == 'x' && q[1] == 0, "the next item reads back");
   vf_cover("end");
}
/* callee contract of the float encoding (proved in flt), for whole values */
static float gf[4]; static uint32_t gp[4], gn;
void vf_stub__buzzmsg_serialize_float(buzzdarray_t buf, float data) {
   vf_assert(finite32(data), "pre: floats are finite"); vf_assert(gn < 4, "pre: few floats");
   gf[gn] = data; gp[gn++] = buf->size;
   for(int i = 0; i < 8; ++i) { uint8_t b = vf_u8("enc"); buzzdarray_push(buf, &b); }
}
int64_t vf_stub__buzzmsg_deserialize_float(float* data, buzzdarray_t buf, uint32_t pos) {
   if((uint64_t)pos + 8 > buf->size) return -1;
   *data = vf_f32("dec");
   for(uint32_t i = 0; i < gn; ++i) if(gp[i] == pos) *data = gf[i];
   return (int64_t)pos + 8;
}
/* whole values.  Other callees are the real ones; a scalar value with any content */
//@ unit scalar fn=buzzobj_serialize,buzzobj_deserialize split=type:3
UNIT(scalar) {
   any_vm(); any_msg(32);
   uint32_t t = vf_choose("type", 3);
   buzzobj_t o = raw_obj(t), r = NULL;      /* nil, integer, float */
   if(t == BUZZTYPE_INT) o->i.value = vf_i32("v");
   if(t == BUZZTYPE_FLOAT) { o->f.value = vf_f32("v"); vf_assume(finite32(o->f.value)); }
   buzzobj_serialize(B, o); written(t == BUZZTYPE_NIL ? 1 : t == BUZZTYPE_INT ? 5 : 9);
   ENSURES(o->o.type == t, "writing changes no value");
   uint32_t end = B->size;
   buzzobj_serialize(B, o);
   int64_t p = buzzobj_deserialize(&r, B, P0, vm);
   ENSURES(p == end, "reading ends where writing ended");
   ENSURES(r != NULL && r != o && r->o.type == t, "a value reads back with its type");
   if(t == BUZZTYPE_INT) ENSURES(r->i.value == o->i.value, "an integer reads back equal");
   if(t == BUZZTYPE_FLOAT) ENSURES(r->f.value == o->f.value, "a float reads back equal");
   ENSURES(buzzobj_deserialize(&r, B, p, vm) == B->size && r->o.type == t, "the next item reads back");
   vf_cover("end");
}
//@ unit func fn=buzzobj_serialize,buzzobj_deserialize
UNIT(func) {
   any_vm(); any_msg(32);
   buzzobj_t o = raw_obj(BUZZTYPE_CLOSURE), r = NULL, nil = raw_obj(BUZZTYPE_NIL);
   o->c.value.isnative = vf_u8("native"); o->c.value.ref = vf_i32("ref");
   o->c.value.actrec = buzzdarray_new(1, sizeof(buzzobj_t), NULL); buzzdarray_push(o->c.value.actrec, &nil);
   buzzobj_serialize(B, o); written(6);
   int64_t p = buzzobj_deserialize(&r, B, P0, vm);
   ENSURES(p == B->size && r->o.type == BUZZTYPE_CLOSURE, "a function reads back as a function");
   ENSURES(r->c.value.isnative == o->c.value.isnative && r->c.value.ref == o->c.value.ref, "a function reads back with its code");
   ENSURES(r->c.value.actrec != o->c.value.actrec && buzzdarray_size(r->c.value.actrec) == 1 &&
           buzzdarray_get(r->c.value.actrec, 0, buzzobj_t)->o.type == BUZZTYPE_NIL, "a function reads back without captured values");
   vf_cover("end");
}
static void put(buzzobj_t t, buzzobj_t k, buzzobj_t v) { buzzdict_set(t->t.value, &k, &v); }
static buzzobj_t str_obj(const char* s) {
   buzzobj_t o = raw_obj(BUZZTYPE_STRING);
   o->s.value.sid = buzzstrman_register(vm->strings, s, 0); o->s.value.str = buzzstrman_get(vm->strings, o->s.value.sid);
   return o;
}
static buzzobj_t field(buzzobj_t t, buzzobj_t k) {
   const buzzobj_t* r = buzzdict_get(t->t.value, &k, buzzobj_t);
   return r ? *r : NULL;
}
static buzzobj_t tab_obj(void) { return buzzheap_newobj(vm, BUZZTYPE_TABLE); }
//@ unit text fn=buzzobj_serialize,buzzobj_deserialize mode=bounded split=n:5 note="strings of up to 4 bytes"
UNIT(text) {
   vm = buzzvm_new(1); B = buzzdarray_new(1, 1, NULL);
   uint32_t n = vf_choose("n", 5), i;
   char* s = vf_buf("text", n + 1); s[n] = 0;
   for(i = 0; i < n; ++i) vf_assume(s[i] != 0);
   buzzobj_t o = raw_obj(BUZZTYPE_STRING), r = NULL;
   o->s.value.sid = 7; o->s.value.str = s;
   buzzobj_serialize(B, o);
   int64_t p = buzzobj_deserialize(&r, B, 0, vm);
   ENSURES(p == B->size && p == 3 + n, "reading ends where writing ended");
   ENSURES(r->o.type == BUZZTYPE_STRING, "a value reads back with its type");
   for(i = 0; i <= n; ++i) ENSURES(r->s.value.str[i] == s[i], "a string reads back equal");
   ENSURES(r->s.value.str == buzzstrman_get(vm->strings, r->s.value.sid), "a string reads back interned");
   vf_cover("end");
}
//@ unit table fn=buzzobj_serialize,buzzobj_deserialize mode=bounded split=shape:8 note="tables of up to 3 fields, nested twice; integer, float and string keys and values"
UNIT(table) {
   vm = buzzvm_new(1); B = buzzdarray_new(1, 1, NULL);
   uint32_t shape = vf_choose("shape", 8);
   buzzobj_t o = tab_obj(), in = tab_obj(), r = NULL;
   int32_t v1 = vf_i32("v1"), v2 = vf_i32("v2");
   buzzobj_t k1 = int_obj(3), k2 = str_obj("ab"), k3 = float_obj(1.5f);
   if(shape & 1) put(o, k1, int_obj(v1));
   if(shape & 2) put(o, k2, str_obj("text"));
   if(shape & 4) { put(in, k1, int_obj(v2)); put(in, k2, tab_obj()); put(o, k3, in); }
   buzzobj_serialize(B, o);
   uint32_t end = B->size;
   buzzobj_serialize(B, k2);
   int64_t p = buzzobj_deserialize(&r, B, 0, vm);
   ENSURES(p == end, "reading ends where writing ended");
   ENSURES(r != o && r->o.type == BUZZTYPE_TABLE && r->t.value != o->t.value, "a table reads back as its own table");
   ENSURES(buzzdict_size(r->t.value) == (shape & 1) + ((shape >> 1) & 1) + ((shape >> 2) & 1), "a table reads back with all its fields");
   buzzobj_t f;
   if(shape & 1) { f = field(r, k1); ENSURES(f && f->o.type == BUZZTYPE_INT && f->i.value == v1, "a field reads back equal"); }
   if(shape & 2) { f = field(r, k2); ENSURES(f && f->o.type == BUZZTYPE_STRING && !strcmp(f->s.value.str, "text"), "a field reads back equal"); }
   if(shape & 4) {
      f = field(r, k3);
      ENSURES(f && f->o.type == BUZZTYPE_TABLE && f != in && buzzdict_size(f->t.value) == 2, "a nested table reads back");
      buzzobj_t g = field(f, k1); ENSURES(g && g->o.type == BUZZTYPE_INT && g->i.value == v2, "a nested field reads back equal");
      g = field(f, k2); ENSURES(g && g->o.type == BUZZTYPE_TABLE && buzzdict_size(g->t.value) == 0, "a nested table reads back");
   }
   ENSURES(buzzobj_deserialize(&r, B, p, vm) == B->size && r->o.type == BUZZTYPE_STRING && !strcmp(r->s.value.str, "ab"), "the next item reads back");
   vf_cover("end");
}
//@ unit table_many fn=buzzobj_serialize,buzzobj_deserialize mode=bounded split=big:2 note="one table of 255 and one of 256 fields"
UNIT(table_many) {
   vm = buzzvm_new(1); B = buzzdarray_new(1, 1, NULL);
   uint32_t big = vf_choose("big", 2), n = 255 + big;
   buzzobj_t o = tab_obj(), r = NULL; buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
   for(uint32_t i = 0; i < n; ++i) put(o, int_obj(i), nil);
   buzzobj_serialize(B, o);
   int64_t p = buzzobj_deserialize(&r, B, 0, vm);
   if(big) ENSURES(p == B->size && buzzdict_size(r->t.value) == n, "a table of more than 255 fields reads back with all its fields");
   else ENSURES(p == B->size && buzzdict_size(r->t.value) == n, "a table of 255 fields reads back with all its fields");
   vf_cover("end");
}
//@ search history
#ifdef VF_NATIVE
static buzzobj_t rnd_key(int i) { char b[24]; snprintf(b, sizeof(b), "key%d", i); return i % 3 == 0 ? int_obj(i) : i % 3 == 1 ? float_obj(i * 0.5f) : str_obj(b); }
static buzzobj_t rnd_val(int depth) {
   uint32_t t = vf_rand(depth > 0 ? 7 : 5), i, n; 
   if(t == 0) return buzzheap_newobj(vm, BUZZTYPE_NIL);
   if(t == 1) return int_obj((int32_t)vf_rand(0xffffffffu));
   if(t == 2) { float f = ((int32_t)vf_rand(2000001) - 1000000) * (vf_rand(2) ? 0.001f : 1e20f); return float_obj(f); }
   if(t == 3 || t == 4) { static char s[70000]; n = vf_rand(vf_rand(8) ? 40 : vf_rand(4) ? 3000 : 65536); for(i = 0; i < n; ++i) s[i] = 1 + vf_rand(255); s[n] = 0; return str_obj(s); }
   buzzobj_t o = tab_obj(); n = vf_rand(vf_rand(4) ? 6 : 256); for(i = 0; i < n; ++i) put(o, rnd_key(i), rnd_val(n > 20 ? depth - 2 : depth - 1));
   return o;
}
static int eq_val(buzzobj_t a, buzzobj_t b);
static int eq_n;
static void eq_field(const void* k, void* d, void* p) { buzzobj_t f = field((buzzobj_t)p, *(buzzobj_t*)k); if(!f || !eq_val(*(buzzobj_t*)d, f)) eq_n = 1; }
static int eq_val(buzzobj_t a, buzzobj_t b) {
   if(a->o.type != b->o.type || a == b) return 0;
   switch(a->o.type) {
      case BUZZTYPE_INT: return a->i.value == b->i.value;
      case BUZZTYPE_FLOAT: return a->f.value == b->f.value;
      case BUZZTYPE_STRING: return !strcmp(a->s.value.str, b->s.value.str);
      case BUZZTYPE_TABLE: { if(buzzdict_size(a->t.value) != buzzdict_size(b->t.value)) return 0; int s = eq_n; eq_n = 0; buzzdict_foreach(a->t.value, eq_field, b); int bad = eq_n; eq_n = s; return !bad; }
      default: return 1;
   }
}
SEARCH(history) {
   vm = buzzvm_new(1); B = buzzdarray_new(1, 1, NULL); uint32_t n = 1 + vf_rand(5), i; buzzobj_t v[5], r; uint32_t end[5]; int64_t p = 0;
   for(i = 0; i < n; ++i) { v[i] = rnd_val(3); buzzobj_serialize(B, v[i]); end[i] = B->size; }
   for(i = 0; i < n; ++i) { r = NULL; p = buzzobj_deserialize(&r, B, p, vm); vf_assert(p == end[i], "search: reading ends where writing ended"); vf_assert(eq_val(v[i], r), "search: a value reads back equal"); }
}
#endif
