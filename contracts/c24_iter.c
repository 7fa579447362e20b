/* C24 - size, foreach, map, filter and reduce over a table */
#include "each.h"
#include <buzz/buzztype.h>
//@ assume the dictionary contract proved in C02 (every entry is visited once with its own value) and the call contract proved in C10, used by the proof units; real in the bounded ones
//@ assume the function does not add entries to the table it is applied to, and removes only the visited entry, when no other entry shares its bucket (otherwise only memory safety is checked); memory allocation succeeds
static buzzobj_t T;
static void setup(int plain) {
   vm_ready(1); buzzobj_register(vm); vf_assume(vm->state == BUZZVM_STATE_READY);
   T = newt(); PD = T->t.value; PD->size = 0;
   K = !plain && vf_choose("ks", 2) ? raw_obj(BUZZTYPE_STRING) : int_obj(vf_i32("key")); if(K->o.type == BUZZTYPE_STRING) { K->s.value.sid = vf_u16("sid"); K->s.value.str = vf_opaque("text"); }
   D = plain ? int_obj(0) : any_obj("d", "data");
}
int vf_stub__buzzdict_remove(buzzdict_t dt, const void* key) {
   if((void*)dt->hashf != (void*)buzzobj_table_hash || *(buzzobj_t*)key != K) return buzzdict_remove(dt, key);
   vf_assert(dt != PD, "the table itself is not changed");
   return 0;
}
static void iterate(const char* name, int kind) {   /* 0 foreach 1 map 2 filter 3 reduce */
   setup(0); each_setup();
   ARG[0] = T; CL = ARG[1] = newcc(buzzobj_size); g_red = kind == 3; INIT = FIN = ARG[2] = int_obj(vf_i32("init"));
   uint32_t d = depth();
   int st = call(global(name), g_red ? 3 : 2);
   ENSURES(g_iter == 1 && g_calls == g_some, "the function is called once for every entry");
   if(g_fail) { ENSURES(st == BUZZVM_STATE_ERROR && vm->state == BUZZVM_STATE_ERROR && g_set == 0, "an error in the function stops the iteration"); vf_cover("end"); return; }
   ENSURES(st == BUZZVM_STATE_READY && depth() == (int64_t)d + 1, "the call succeeds");
   int in = !g_some ? 0 : kind == 1 ? R->o.type != BUZZTYPE_NIL : kind == 2 ? vf_fork(truth(R)) : 0;
   if(kind == 0) ENSURES(top()->o.type == BUZZTYPE_NIL, "iterating returns nothing");
   if(kind == 1 || kind == 2) ENSURES(top()->o.type == BUZZTYPE_TABLE && top() != T && top()->t.value != PD, "the result is a new table");
   if(in) ENSURES(g_set == 1 && g_dict == top()->t.value && g_val == (kind == 1 ? R : D), kind == 1 ? "mapping gives the function's result for each key" : "filtering keeps the entries for which the function is true");
   else ENSURES(g_set == 0, "the result has no other entry");
   if(kind == 3) ENSURES(top() == FIN, "a reduction returns the last accumulator, or the initial value");
   vf_cover("end");
}
//@ unit foreach fn=buzzobj_foreach,buzzobj_foreach_entry split=some:2,fail:2,ks:2 soft=1 companion=hist
UNIT(foreach) { iterate("foreach", 0); }
//@ unit map fn=buzzobj_map,buzzobj_map_entry split=some:2,fail:2,ks:2 soft=1 companion=hist
UNIT(map) { iterate("map", 1); }
//@ unit filter fn=buzzobj_filter,buzzobj_filter_entry split=some:2,fail:2,ks:2 soft=1 companion=hist
UNIT(filter) { iterate("filter", 2); }
//@ unit reduce fn=buzzobj_reduce,buzzobj_reduce_entry split=some:2,fail:2,ks:2 soft=1 companion=hist
UNIT(reduce) { iterate("reduce", 3); }
static const char* NM[5] = { "foreach", "map", "filter", "reduce", "size" };
//@ unit size fn=buzzobj_size companion=hist
UNIT(size) {
   setup(1); PD->size = vf_u16("n"); uint32_t d = depth(); ARG[0] = T;
   int st = call(global("size"), 1);
   ENSURES(st == BUZZVM_STATE_READY && depth() == (int64_t)d + 1 && top()->o.type == BUZZTYPE_INT && top()->i.value == (int32_t)PD->size, "the size is the number of entries");
   vf_cover("end");
}
//@ unit types fn=buzzobj_foreach,buzzobj_map,buzzobj_filter,buzzobj_reduce,buzzobj_size split=fn:5,ta:7,tb:7 companion=hist
UNIT(types) {
   setup(1); each_setup(); vf_assume(!g_some); uint32_t f = vf_choose("fn", 5), a = vf_choose("ta", 7), b = vf_choose("tb", 7), n = f == 4 ? 1 : f == 3 ? 3 : 2, c = vf_choose("argc", 5);
   ARG[0] = a == BUZZTYPE_TABLE ? T : raw_obj(a); ARG[1] = b == BUZZTYPE_CLOSURE ? newcc(buzzobj_size) : raw_obj(b); ARG[3] = ARG[2] = INIT = FIN = newnil();
   g_red = f == 3;
   int st = call(global(NM[f]), c);
   if(c != n) ENSURES(st == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_LNUM, "a wrong number of arguments is reported");
   else if(a != BUZZTYPE_TABLE || (f != 4 && b != BUZZTYPE_CLOSURE)) ENSURES(st == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_TYPE, "an argument of a wrong type is reported");
   else ENSURES(st == BUZZVM_STATE_READY, "right arguments are accepted");
   vf_cover("end");
}
/* bounded: real tables of up to 4 entries with keys of several types, some in one bucket */
static buzzobj_t KEY[4], VALUE[4]; static int seen[4], res[4], order[4], nvis, rmv; static uint32_t mask;
static int same(buzzobj_t a, buzzobj_t b) { return buzzobj_cmp(a, b) == 0; }
static int which(buzzobj_t k) { int i; for(i = 0; i < 4; ++i) if(same(KEY[i], k)) return i; return -1; }
static int cb(buzzvm_t m) {
   buzzvm_lload(m, 1); int i = which(top()); buzzobj_t k = top();
   buzzvm_lload(m, 2);
   vf_assert(i >= 0, "the function gets a key of the table"); ++seen[i]; order[nvis++] = i;
   vf_assert(top()->o.type == BUZZTYPE_INT && top()->i.value == VALUE[i]->i.value, "the function gets the value of the key");
   if(rmv) { buzzvm_push(m, T); buzzvm_push(m, k); buzzvm_pushnil(m); buzzvm_tput(m); m->heap->max_objs = 0; buzzheap_gc(m); }
   if(buzzvm_lnum(m) > 2) { buzzvm_lload(m, 3); vf_assert(top()->o.type == BUZZTYPE_INT, "the function gets the accumulator"); int32_t a = top()->i.value; buzzvm_pushi(m, (int32_t)((uint32_t)a * 5u + i + 1)); }
   else if(res[i] == 2) buzzvm_pushnil(m);
   else if(res[i] == 3) buzzvm_pushf(m, 0.0f);
   else buzzvm_pushi(m, res[i]);
   return buzzvm_ret1(m);
}
static buzzobj_t read(buzzobj_t t, buzzobj_t k) { buzzvm_push(vm, t); buzzvm_push(vm, k); buzzvm_tget(vm); buzzobj_t o = top(); buzzvm_pop(vm); return o; }
static uint32_t count(uint32_t m) { return (m & 1) + (m >> 1 & 1) + (m >> 2 & 1) + (m >> 3 & 1); }
//@ unit hist fn=buzzobj_foreach,buzzobj_map,buzzobj_filter,buzzobj_reduce,buzzobj_size mode=bounded split=mask:16,op:5,rmv:2,rot:4 note="every subset of 4 keys of 3 types, 2 in one bucket, any integer values; a function returning 0, 1, nil and 0.0 in any rotation, that may remove the visited entry and collect garbage"
UNIT(hist) {
   vm_ready(1); buzzobj_register(vm); int i; buzzobj_t p;
   KEY[0] = newi(3); KEY[1] = newi(13); KEY[2] = news("k"); KEY[3] = newf(2.5f);
   T = newt(); mask = vf_choose("mask", 16); nvis = 0; uint32_t rot = vf_choose("rot", 4), o = vf_choose("op", 5);
   rmv = vf_choose("rmv", 2);
   for(i = 0; i < 4; ++i) {
      VALUE[i] = newi(vf_i32("v")); seen[i] = 0; res[i] = (i + rot) & 3;
      buzzvm_push(vm, KEY[i]); buzzvm_push(vm, VALUE[i]);
      if(mask >> i & 1) { buzzvm_push(vm, T); buzzvm_push(vm, KEY[i]); buzzvm_push(vm, VALUE[i]); buzzvm_tput(vm); }
   }
   buzzobj_t f = newcc(cb), g = global(NM[o]); int32_t init = vf_i32("init");
   ARG[0] = T; ARG[1] = f; ARG[2] = newi(init); uint32_t d = depth();
   buzzvm_push(vm, T); for(i = 0; i < 3; ++i) buzzvm_push(vm, ARG[i]);
   ENSURES(call(g, o == 4 ? 1 : o == 3 ? 3 : 2) == BUZZVM_STATE_READY && depth() == (int64_t)d + 5, "the call succeeds");
   p = top();
   if(rmv && (mask & 3) == 3) { vf_cover("end"); return; }   /* removing from the bucket being visited: memory safety only */
   for(i = 0; i < 4; ++i) ENSURES(seen[i] == (o == 4 ? 0 : (int)(mask >> i & 1)), "the function is called once for every entry");
   if(o == 0) ENSURES(p->o.type == BUZZTYPE_NIL, "iterating returns nothing");
   if(o == 1 || o == 2) {
      ENSURES(p->o.type == BUZZTYPE_TABLE && p != T, "the result is a new table"); uint32_t in = 0;
      for(i = 0; i < 4; ++i) {
         buzzobj_t e = read(p, KEY[i]);
         if((mask >> i & 1) && (o == 1 ? res[i] != 2 : res[i] == 1 || res[i] == 3)) {
            ++in;
            if(o == 2) ENSURES(e->o.type == BUZZTYPE_INT && e->i.value == VALUE[i]->i.value, "filtering keeps the entries for which the function is true");
            else ENSURES(res[i] == 3 ? e->o.type == BUZZTYPE_FLOAT && e->f.value == 0.0f : e->o.type == BUZZTYPE_INT && e->i.value == res[i], "mapping gives the function's result for each key");
         }
         else ENSURES(e->o.type == BUZZTYPE_NIL, "the result has no other entry");
      }
      ENSURES(buzzdict_size(p->t.value) == in, "the result has no other entry");
   }
   if(o == 3) { int32_t x = init; for(i = 0; i < nvis; ++i) x = (int32_t)((uint32_t)x * 5u + order[i] + 1); ENSURES(p->o.type == BUZZTYPE_INT && p->i.value == x, "a reduction passes each result on to the next entry"); }
   if(o == 4) ENSURES(p->o.type == BUZZTYPE_INT && p->i.value == (int32_t)count(mask), "the size is the number of entries");
   for(i = 0; i < 4; ++i) { buzzobj_t e = read(T, KEY[i]); if((mask >> i & 1) && (o == 4 || !rmv)) ENSURES(e->o.type == BUZZTYPE_INT && e->i.value == VALUE[i]->i.value, "the table itself is not changed"); else ENSURES(e->o.type == BUZZTYPE_NIL, "the table itself is not changed"); }
   vf_cover("end");
}
//@ search history
#ifdef VF_NATIVE
/* large tables with keys of three types; functions that return anything */
enum { SN = 300 }; static buzzobj_t SK[SN]; static int32_t SV[SN]; static int SS[SN], SR[SN], SO[SN], sn, sv;
static int scb(buzzvm_t m) {
   int i; buzzvm_lload(m, 1); buzzobj_t k = top(); for(i = 0; i < sn; ++i) if(same(SK[i], k)) break;
   vf_assert(i < sn, "search: the function gets a key of the table"); ++SS[i]; SO[sv++] = i;
   buzzvm_lload(m, 2); vf_assert(top()->o.type == BUZZTYPE_INT && top()->i.value == SV[i], "search: the function gets the value of the key");
   if(buzzvm_lnum(m) > 2) { buzzvm_lload(m, 3); vf_assert(top()->o.type == BUZZTYPE_INT, "search: the function gets the accumulator"); buzzvm_pushi(m, (int32_t)((uint32_t)top()->i.value * 5u + i + 1)); }
   else if(SR[i] == 2) buzzvm_pushnil(m); else if(SR[i] == 3) buzzvm_pushf(m, 0.0f); else buzzvm_pushi(m, SR[i]);
   return buzzvm_ret1(m);
}
SEARCH(history) {
   vm_ready(1); buzzobj_register(vm); int i, in = 0; sn = vf_rand(vf_rand(2) ? 20 : SN); sv = 0; uint32_t o = vf_rand(5); char b[20];
   T = newt();
   for(i = 0; i < sn; ++i) {
      uint32_t t = vf_rand(3); snprintf(b, sizeof(b), "k%d", i); SK[i] = t == 0 ? newi(i * (1 + vf_rand(2) * 9) - 40) : t == 1 ? newf(i + 0.25f) : news(b);
      int j; for(j = 0; j < i && !same(SK[j], SK[i]); ++j); if(j < i) SK[i] = news(b);
      SV[i] = vf_rand(1u << 31); SS[i] = 0; SR[i] = vf_rand(4);
      buzzvm_push(vm, T); buzzvm_push(vm, SK[i]); buzzvm_pushi(vm, SV[i]); buzzvm_tput(vm);
   }
   ARG[0] = T; ARG[1] = newcc(scb); int32_t init = vf_rand(1000); ARG[2] = newi(init);
   uint32_t d = depth(); vf_assert(call(global(NM[o]), o == 4 ? 1 : o == 3 ? 3 : 2) == BUZZVM_STATE_READY && depth() == d + 1, "search: the call succeeds");
   buzzobj_t p = top();
   for(i = 0; i < sn; ++i) vf_assert(SS[i] == (o != 4), "search: the function is called once for every entry");
   if(o == 1 || o == 2) {
      for(i = 0; i < sn; ++i) { buzzobj_t e = read(p, SK[i]);
         if(o == 1 ? SR[i] != 2 : SR[i] == 1 || SR[i] == 3) { ++in; if(o == 2) vf_assert(e->o.type == BUZZTYPE_INT && e->i.value == SV[i], "search: filtering keeps the entries for which the function is true"); else vf_assert(SR[i] == 3 ? e->o.type == BUZZTYPE_FLOAT : e->o.type == BUZZTYPE_INT && e->i.value == SR[i], "search: mapping gives the function's result for each key"); }
         else vf_assert(e->o.type == BUZZTYPE_NIL, "search: the result has no other entry"); }
      vf_assert((int)buzzdict_size(p->t.value) == in, "search: the result has no other entry"); }
   if(o == 3) { int32_t x = init; for(i = 0; i < sv; ++i) x = (int32_t)((uint32_t)x * 5u + SO[i] + 1); vf_assert(p->o.type == BUZZTYPE_INT && p->i.value == x, "search: a reduction passes each result on to the next entry"); }
   if(o == 4) vf_assert(p->o.type == BUZZTYPE_INT && p->i.value == sn, "search: the size is the number of entries");
   for(i = 0; i < sn; ++i) vf_assert(read(T, SK[i])->i.value == SV[i], "search: the table itself is not changed");
}
#endif
