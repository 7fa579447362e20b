/* C01 - a dynamic array is a sequence.
 *
 * Universal statements ("every other element keeps its value") are proved for
 * one arbitrary witness: element k, byte b.  Capacities and sizes are
 * symbolic; the byte size of the buffer is below 2 GiB (the code computes
 * byte counts in 32 bits). */
#include "vf.h"
#include <buzz/buzzdarray.h>
#include <stdlib.h>
#include <string.h>
//@ assume element sizes are 1, 2, 4, 8 or 16 bytes; buffers stay below 2 GiB
//@ assume memory allocation succeeds; insert position is at most the current size

static const uint32_t ES[] = {1, 2, 4, 8, 16};

/* ghost: record of the element callback */
static uint32_t g_calls, g_pos, g_bad;
static uint8_t* g_data; static void* g_params;
static uint32_t g_wcalls, g_w;
static buzzdarray_t g_da;

static void on_elem(uint32_t pos, void* data, void* params) {
   if(pos != g_calls) g_bad = 1;                                /* in order, each once */
   if(data != (uint8_t*)g_da->data + (uint64_t)pos * g_da->elem_size) g_bad = 1;
   if(params != g_params) g_bad = 1;
   if(pos == g_w) ++g_wcalls;
   ++g_calls;
}

static buzzdarray_t any_darray(void) {
   buzzdarray_t da = (buzzdarray_t)malloc(sizeof(struct buzzdarray_s));
   uint32_t es = ES[vf_choose("es", 5)];
   da->elem_size = es;
   da->capacity = vf_u32("cap");
   da->size = vf_u32("size");
   REQUIRES(da->capacity > 0 && (uint64_t)da->capacity * es < (1u << 30));
   REQUIRES(da->size <= da->capacity);
   if(vf_bounded()) REQUIRES(da->capacity <= 4);
   da->data = vf_buf("data", (uint64_t)da->capacity * es);
   da->elem_destroy = on_elem;
   g_da = da; g_calls = 0; g_bad = 0; g_wcalls = 0; g_params = NULL; g_w = 0xffffffff;
   return da;
}
static int valid(buzzdarray_t da) {
   return da->capacity > 0 && da->size >= 0 && da->size <= da->capacity;
}
static uint8_t at(buzzdarray_t da, uint32_t k, uint32_t b) {
   return ((uint8_t*)da->data)[(uint64_t)k * da->elem_size + b];
}
/* the buffer really has room for capacity elements */
static void touch_all(buzzdarray_t da) {
   uint32_t i = vf_u32("slot"), b = vf_u32("slotbyte");
   vf_assume(i < da->capacity && b < da->elem_size);
   ((uint8_t*)da->data)[(uint64_t)i * da->elem_size + b] = 0;
}

//@ unit new fn=buzzdarray_new
UNIT(new) {
   uint32_t es = ES[vf_choose("es", 5)], cap = vf_u32("cap");
   REQUIRES(cap > 0 && (uint64_t)cap * es < (1u << 30));
   if(vf_bounded()) REQUIRES(cap <= 4);
   int d = vf_choose("destroy", 2);
   buzzdarray_t da = buzzdarray_new(cap, es, d ? on_elem : NULL);
   ENSURES(da != NULL && da->size == 0, "a new array is empty");
   ENSURES(da->capacity >= 1 && da->elem_size == es, "a new array has the requested element size and room");
   ENSURES(da->elem_destroy != NULL && IMPLIES(d, da->elem_destroy == on_elem), "the element destructor is the one given");
   touch_all(da);
   vf_cover("end");
}

static void insert_like(int which) {
   buzzdarray_t da = any_darray();
   uint32_t es = da->elem_size;
   uint8_t* v = vf_buf("v", es);
   uint32_t pos = vf_u32("pos"), k = vf_u32("k"), b = vf_u32("b");
   REQUIRES(pos <= da->size && b < es);
   uint32_t n = da->size;
   int havek = k < n;
   uint8_t old = havek ? at(da, k, b) : 0;
   if(which == 0) buzzdarray_insert(da, pos, v);
   else if(which == 1) { REQUIRES(pos == n); buzzdarray_push(da, v); }
   else {
      uint8_t* s = buzzdarray_makeslot(da, pos);
      ENSURES(s == (uint8_t*)da->data + (uint64_t)pos * es, "the new slot is the one at the requested position");
      memcpy(s, v, es);
   }
   ENSURES(da->size == (int64_t)n + 1, "inserting grows the array by one");
   ENSURES(valid(da) && da->elem_size == es && da->elem_destroy == on_elem, "inserting keeps the representation valid");
   ENSURES(at(da, pos, b) == v[b], "the inserted element is at its position");
   if(havek) ENSURES(at(da, k < pos ? k : k + 1, b) == old, "elements before the insertion point stay, later ones move up by one");
   ENSURES(g_calls == 0, "inserting destroys nothing");
   touch_all(da);
   vf_cover("end");
}
//@ unit insert fn=buzzdarray_insert,buzzdarray_makeslot,buzzdarray_set split=es:5
UNIT(insert) { insert_like(0); }
//@ unit push fn=buzzdarray_insert split=es:5
UNIT(push) { insert_like(1); }
//@ unit makeslot fn=buzzdarray_makeslot split=es:5
UNIT(makeslot) { insert_like(2); }

static uint8_t g_seen;
static uint32_t g_seenb;
static void on_remove(uint32_t pos, void* data, void* params) {
   ++g_calls; g_pos = pos; g_seen = ((uint8_t*)data)[g_seenb];
   if(data != (uint8_t*)g_da->data + (uint64_t)pos * g_da->elem_size) g_bad = 1;
}
//@ unit remove fn=buzzdarray_remove split=es:5
UNIT(remove) {
   buzzdarray_t da = any_darray();
   da->elem_destroy = on_remove;
   uint32_t es = da->elem_size, n = da->size;
   uint32_t pos = vf_u32("pos"), k = vf_u32("k"), b = vf_u32("b");
   REQUIRES(k < n && b < es);
   g_seenb = b;
   uint8_t old = at(da, k, b);
   buzzdarray_remove(da, pos);
   if(pos < n) {
      ENSURES(da->size == (int64_t)n - 1, "removing shrinks the array by one");
      ENSURES(g_calls == 1 && g_pos == pos && !g_bad, "the removed element is destroyed exactly once");
      ENSURES(IMPLIES(k == pos, g_seen == old), "the destructor sees the removed element");
      if(k != pos) ENSURES(at(da, k < pos ? k : k - 1, b) == old, "the remaining elements keep value and order");
   }
   else {
      ENSURES(da->size == (int64_t)n && g_calls == 0, "removing past the end does nothing");
      ENSURES(at(da, k, b) == old, "removing past the end changes no element");
   }
   ENSURES(valid(da) && da->elem_size == es, "removing keeps the representation valid");
   touch_all(da);
   vf_cover("end");
}
//@ unit remove_empty fn=buzzdarray_remove
UNIT(remove_empty) {
   buzzdarray_t da = any_darray();
   REQUIRES(da->size == 0);
   buzzdarray_remove(da, vf_u32("pos"));
   ENSURES(da->size == 0 && valid(da) && g_calls == 0, "removing from an empty array does nothing");
   buzzdarray_pop(da);
   ENSURES(da->size == 0 && valid(da) && g_calls == 0, "popping an empty array does nothing");
   vf_cover("end");
}
//@ unit set fn=buzzdarray_set
UNIT(set) {
   buzzdarray_t da = any_darray();
   uint32_t es = da->elem_size, n = da->size;
   uint32_t pos = vf_u32("pos"), k = vf_u32("k"), b = vf_u32("b");
   REQUIRES(k < n && b < es && pos < n);
   uint8_t* v = vf_buf("v", es);
   uint8_t old = at(da, k, b);
   buzzdarray_set(da, pos, v);
   ENSURES(da->size == (int64_t)n && valid(da), "setting keeps the size");
   ENSURES(at(da, pos, b) == v[b], "the element set is read back");
   if(k != pos) ENSURES(at(da, k, b) == old, "setting changes no other element");
   ENSURES(g_calls == 0, "setting destroys nothing");
   vf_cover("end");
}
//@ unit foreach fn=buzzdarray_foreach
int vf_inv__buzzdarray_foreach__0(uint32_t* i, buzzdarray_t* da) {
   return *i == g_calls && *i <= (*da)->size && !g_bad && g_wcalls == (g_w < *i ? 1 : 0);
}
void vf_mod__buzzdarray_foreach__0(uint32_t* i) {
   g_calls = vf_u32("loop.calls"); g_bad = vf_u32("loop.bad"); g_wcalls = vf_u32("loop.wcalls");
}
UNIT(foreach) {
   buzzdarray_t da = any_darray();
   uint32_t n = da->size;
   uint32_t w = vf_u32("w"); REQUIRES(w < n); g_w = w;
   void* par = vf_opaque("params"); g_params = par;
   buzzdarray_foreach(da, on_elem, par);
   ENSURES(g_calls == n && !g_bad, "foreach visits the elements in order, each exactly once, with their address");
   ENSURES(g_wcalls == 1, "foreach visits every element");
   ENSURES(da->size == n && valid(da), "foreach keeps the array");
   vf_cover("end");
}
//@ unit foreach_empty fn=buzzdarray_foreach
UNIT(foreach_empty) {
   buzzdarray_t da = any_darray();
   REQUIRES(da->size == 0);
   buzzdarray_foreach(da, on_elem, NULL);
   ENSURES(g_calls == 0, "foreach on an empty array visits nothing");
   vf_cover("end");
}
//@ unit clear fn=buzzdarray_clear,buzzdarray_foreach
UNIT(clear) {
   buzzdarray_t da = any_darray();
   uint32_t n = da->size, es = da->elem_size, cap = vf_u32("newcap");
   REQUIRES(cap > 0 && (uint64_t)cap * es < (1u << 30));
   buzzdarray_clear(da, cap);
   ENSURES(da->size == 0 && valid(da) && da->elem_size == es, "clearing empties the array");
   ENSURES(g_calls == n && !g_bad, "clearing destroys every element once");
   touch_all(da);
   vf_cover("end");
}
//@ unit destroy fn=buzzdarray_destroy,buzzdarray_foreach
UNIT(destroy) {
   buzzdarray_t da = any_darray();
   uint32_t n = da->size; void* d = da->data; buzzdarray_t p = da;
   buzzdarray_destroy(&p);
   ENSURES(p == NULL, "destroying clears the handle");
   ENSURES(g_calls == n && !g_bad, "destroying destroys every element once");
   ENSURES(!vf_live(d) && !vf_live(da), "destroying releases the memory");
   vf_cover("end");
}
//@ unit clone fn=buzzdarray_clone
UNIT(clone) {
   buzzdarray_t da = any_darray();
   uint32_t n = da->size, es = da->elem_size;
   uint32_t k = vf_u32("k"), b = vf_u32("b");
   REQUIRES(k < n && b < es);
   uint8_t old = at(da, k, b);
   buzzdarray_t c = buzzdarray_clone(da);
   ENSURES(c != da && c->data != da->data, "a clone is a separate array");
   ENSURES(c->size == n && c->elem_size == es && c->elem_destroy == da->elem_destroy && valid(c), "a clone has the same shape");
   ENSURES(at(c, k, b) == old && at(da, k, b) == old, "a clone has the same elements");
   touch_all(c);
   ENSURES(da->size == n && at(da, k, b) == old, "changing a clone leaves the original alone");
   vf_cover("end");
}
//@ unit clone_empty fn=buzzdarray_clone
UNIT(clone_empty) {
   buzzdarray_t da = any_darray();
   REQUIRES(da->size == 0);
   buzzdarray_t c = buzzdarray_clone(da);
   ENSURES(c->size == 0 && valid(c) && c->elem_size == da->elem_size, "the clone of an empty array is empty and usable");
   touch_all(c);
   vf_cover("end");
}
//@ unit frombuffer fn=buzzdarray_frombuffer
UNIT(frombuffer) {
   uint32_t es = ES[vf_choose("es", 5)], n = vf_u32("n");
   REQUIRES(n > 0 && (uint64_t)n * es < (1u << 30));
   if(vf_bounded()) REQUIRES(n <= 4);
   uint8_t* buf = vf_buf("buf", (uint64_t)n * es);
   uint32_t k = vf_u32("k"), b = vf_u32("b");
   REQUIRES(k < n && b < es);
   int d = vf_choose("destroy", 2);
   buzzdarray_t da = buzzdarray_frombuffer(buf, n * es, es, d ? on_elem : NULL);
   ENSURES(da->size == n && da->elem_size == es && valid(da), "an array made from a buffer has one element per record");
   ENSURES(at(da, k, b) == buf[(uint64_t)k * es + b], "an array made from a buffer holds its content");
   ENSURES(da->data != buf && da->elem_destroy != NULL && IMPLIES(d, da->elem_destroy == on_elem), "the buffer is copied");
   touch_all(da);
   vf_cover("end");
}
//@ unit find fn=buzzdarray_find
static uint32_t g_cmps; static int g_wres; static const void* g_key;
static int cmp_w(const void* a, const void* b) {
   /* arbitrary comparison; its verdict on the witness element is fixed */
   uint64_t off = (uint64_t)((uint8_t*)b - (uint8_t*)g_da->data);
   if(a != g_key) g_bad = 1;
   if(off == (uint64_t)g_w * g_da->elem_size) { ++g_wcalls; return g_wres; }
   return vf_i32("cmp");
}
int vf_inv__buzzdarray_find__0(uint32_t* i, buzzdarray_t* da) {
   return *i <= (*da)->size && !g_bad && IMPLIES(g_wres == 0, *i <= g_w) && g_wcalls == (g_w < *i ? 1 : 0);
}
void vf_mod__buzzdarray_find__0(uint32_t* i) { g_bad = vf_u32("loop.bad"); g_wcalls = vf_u32("loop.wcalls"); }
UNIT(find) {
   buzzdarray_t da = any_darray();
   uint32_t n = da->size, w = vf_u32("w");
   REQUIRES(w < n); g_w = w; g_wres = vf_i32("wres");
   void* key = vf_opaque("key"); g_key = key;
   uint32_t r = buzzdarray_find(da, cmp_w, key);
   ENSURES(r <= n && !g_bad, "find returns a position or the size");
   ENSURES(IMPLIES(g_wres == 0, r <= w), "find does not skip a matching element");
   ENSURES(IMPLIES(r == w, g_wres == 0), "find only reports a matching element");
   ENSURES(IMPLIES(g_wres != 0, r != w), "find never reports an element that differs");
   ENSURES(IMPLIES(r == n, g_wres != 0), "not found means no element matches");
   vf_cover("end");
}
#ifdef VF_NATIVE
/* random histories against a plain array */
static uint32_t s_des, s_last;
static void s_dst(uint32_t pos, void* data, void* params) { ++s_des; memcpy(&s_last, data, 1); }
static int s_cmp(const void* a, const void* b) { return *(uint8_t*)a != *(uint8_t*)b; }
//@ search history
SEARCH(history) {
   static uint8_t ref[600][24]; uint32_t n = 0, i, j, es = vf_rand(3) ? 1u << vf_rand(5) : 1 + vf_rand(24), steps = 20 + vf_rand(1500), grow = vf_rand(100); uint8_t v[24];
   buzzdarray_t d = buzzdarray_new(1 + vf_rand(40), es, s_dst);
   for(i = 0; i < steps; ++i) {
      uint32_t op = vf_rand(100), pos = vf_rand(n + 1); s_des = 0;
      if(i % 200 == 0) grow = vf_rand(100);
      for(j = 0; j < es; ++j) v[j] = vf_rand(256);
      if(op < 10 && n < 590) { void* s = buzzdarray_makeslot(d, pos); memcpy(s, v, es); memmove(ref + pos + 1, ref + pos, (n - pos) * 24); memcpy(ref[pos], v, es); ++n; vf_assert(!s_des, "search: inserting destroys nothing"); }
      else if(op < 20) {
         if(pos == n) { if(!n) continue; --pos; }
         buzzdarray_set(d, pos, v); vf_assert(!s_des, "search: setting destroys nothing"); memcpy(ref[pos], v, es); }
      else if(op < 24) {
         buzzdarray_t c = buzzdarray_clone(d); vf_assert(buzzdarray_size(c) == n && c->elem_size == es, "search: a copy is as long");
         for(j = 0; j < n; ++j) vf_assert(!memcmp(VF_AT(c, j), ref[j], es), "search: a copy has the same elements");
         buzzdarray_push(c, v); if(vf_rand(2)) { buzzdarray_t t = d; d = c; c = t; buzzdarray_remove(d, n); }
         s_des = 0; buzzdarray_destroy(&c); vf_assert(!c && (s_des == n || s_des == n + 1), "search: destroying destroys every element once"); }
      else if(op < 26 && vf_rand(10) == 0) { buzzdarray_clear(d, 1 + vf_rand(20)); vf_assert(s_des == n, "search: clearing destroys every element once"); n = 0; }
      else if(op < 28) {
         static uint8_t buf[600 * 24]; for(j = 0; j < n; ++j) memcpy(buf + j * es, ref[j], es);
         if(n) { buzzdarray_destroy(&d); d = buzzdarray_frombuffer(buf, n * es, es, s_dst); } }
      else if(op < 32) { uint32_t f = buzzdarray_find(d, s_cmp, v); for(j = 0; j < n && ref[j][0] != v[0]; ++j); vf_assert(f == j, "search: find gives the first equal element"); }
      else if(n < 590 && vf_rand(100) < grow) { if(vf_rand(2)) { pos = n; buzzdarray_push(d, v); } else buzzdarray_insert(d, pos, v); memmove(ref + pos + 1, ref + pos, (n - pos) * 24); memcpy(ref[pos], v, es); ++n; vf_assert(!s_des, "search: inserting destroys nothing"); }
      else if(n) {
         if(vf_rand(2)) { pos = n - 1; buzzdarray_pop(d); } else { pos = vf_rand(n); buzzdarray_remove(d, pos); }
         vf_assert(s_des == 1 && s_last == ref[pos][0], "search: the removed element is destroyed once");
         memmove(ref + pos, ref + pos + 1, (n - pos - 1) * 24); --n; }
      vf_assert(buzzdarray_size(d) == n && d->capacity >= d->size && d->elem_size == es, "search: the length is right");
      for(j = 0; j < n; ++j) vf_assert(!memcmp(VF_AT(d, j), ref[j], es), "search: every element is right");
   }
   s_des = 0; buzzdarray_destroy(&d); vf_assert(s_des == n && !d, "search: destroying destroys every element once");
}
#endif
