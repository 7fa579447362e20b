/* C11 - tables and variables.
 * Proof units: any stack and operands; the dictionaries behind tables and
 * globals are used through the contract proved in C02 (the calls made on them
 * are recorded). */
#include "vm_call.h"
//@ assume the dictionary and array contracts proved in C02 and C01, key equality and hashing proved in C19 (proof units); memory allocation succeeds; NaN is not used as a key
static buzzdict_t D;                                   /* the dictionary of the operand */
static uint32_t g_set, g_rem, g_get; static const void* g_key; static buzzobj_t g_val, g_found; static int g_strkey;
static void note_key(const void* key) { g_key = g_strkey ? (const void*)(uintptr_t)*(const uint16_t*)key : *(void* const*)key; }
void vf_stub__buzzdict_set(buzzdict_t dt, const void* key, const void* data) {
   if(dt != D) { buzzdict_set(dt, key, data); return; }
   ++g_set; note_key(key); g_val = *(const buzzobj_t*)data;
}
int vf_stub__buzzdict_remove(buzzdict_t dt, const void* key) {
   if(dt != D) return buzzdict_remove(dt, key);
   ++g_rem; note_key(key); return 1;
}
const void* vf_stub__buzzdict_rawget(const buzzdict_t dt, const void* key) {
   if(dt != D) return buzzdict_rawget(dt, key);
   ++g_get; note_key(key); return g_found ? &g_found : NULL;
}
static void* mk_any(uint64_t i) { return vf_opaque("elem"); }
/* a stored function is copied, bound to its table */
static buzzdarray_t act; static uint32_t AN, aw; static buzzobj_t AW, T;
int vf_inv__buzzvm_tput__0(int* i, buzzobj_t* o) {
   buzzdarray_t s = (*o)->c.value.actrec;
   if(!(*i >= 1 && *i <= (int)AN && s->size == *i && s->capacity >= s->size && buzzdarray_get(s, 0, buzzobj_t) == T)) return 0;
   return IMPLIES(aw && (int)aw < *i, buzzdarray_get(s, aw, buzzobj_t) == AW);
}
void vf_mod__buzzvm_tput__0(int* i, buzzobj_t* o) {
   buzzdarray_t s = (*o)->c.value.actrec;
   uint32_t n = vf_u16("l.size"); vf_assume(n >= 1 && n <= AN); *i = n;
   s->size = n; s->capacity = n + 16;
   s->data = vf_lazyptrs("l.act", s->capacity, mk_any);
   vf_preset(s->data, 0, T);
   if(aw && vf_fork(aw < n)) vf_preset(s->data, aw, AW);
}
static buzzobj_t closure(void) {
   buzzobj_t c = raw_obj(BUZZTYPE_CLOSURE); c->c.value.isnative = vf_bool("native") != 0; c->c.value.ref = vf_i32("ref");
   act = buzzdarray_new(1, sizeof(buzzobj_t), NULL);
   free(act->data); AN = vf_u16("act.size"); vf_assume(AN >= 1); if(vf_bounded()) vf_assume(AN <= 3);
   act->size = AN; act->capacity = AN + 16; act->data = vf_lazyptrs("act", AN + 16, mk_stk);
   aw = vf_u16("aw"); vf_assume(aw < AN); AW = int_obj(9); vf_preset(act->data, aw, AW);
   c->c.value.actrec = act; return c;
}
static int keyable(buzzobj_t k) { return k->o.type == BUZZTYPE_INT || k->o.type == BUZZTYPE_FLOAT || k->o.type == BUZZTYPE_STRING; }
static buzzobj_t any_key(void) { return any_obj("kt", "kv"); }
static buzzobj_t table(void) { buzzobj_t t = buzzobj_new(BUZZTYPE_TABLE); D = t->t.value; g_set = g_rem = g_get = 0; g_strkey = 0; return t; }
//@ unit tput fn=buzzvm_tput companion=hist split=kt:7,vt:7
UNIT(tput) {
   any_vm(); T = table();
   buzzobj_t K = any_key(), V = any_obj("vt", "vv");
   if(V->o.type == BUZZTYPE_CLOSURE) V = closure();
   if(!vf_fork(N >= 3)) { ENSURES(buzzvm_tput(vm) == BUZZVM_STATE_ERROR && vm->stack->size == N && !g_set && !g_rem, "storing a field needs three operands"); vf_cover("end"); return; }
   operand(3, T); operand(2, K); operand(1, V); witness(3);
   int ty = V->o.type, kt = K->o.type; int32_t kv = K->i.value;
   buzzvm_tput(vm);
   if(!keyable(K)) { is_error(BUZZVM_ERROR_TYPE); ENSURES(!g_set && !g_rem, "a refused key changes nothing"); witness_kept(); vf_cover("end"); return; }
   ENSURES(vm->state == BUZZVM_STATE_READY && vm->stack->size == (int64_t)N - 3, "storing a field consumes table, key and value");
   ENSURES(g_key == K && K->o.type == kt && K->i.value == kv, "the field stored is the one asked for");
   ENSURES(V->o.type == ty && T->t.value == D, "storing changes neither the value nor which table it is");
   if(ty == BUZZTYPE_NIL) ENSURES(g_rem == 1 && g_set == 0, "assigning nil removes the field");
   else {
      ENSURES(g_set == 1 && g_rem == 0, "assigning stores the field once");
      if(ty != BUZZTYPE_CLOSURE) ENSURES(g_val == V, "the field holds the value assigned");
      else {
         buzzdarray_t s = g_val->c.value.actrec;
         ENSURES(g_val != V && g_val->o.type == BUZZTYPE_CLOSURE && g_val->c.value.ref == V->c.value.ref && g_val->c.value.isnative == V->c.value.isnative, "a stored function runs the same code");
         ENSURES(s != act && s->size == AN && buzzdarray_get(s, 0, buzzobj_t) == T, "a stored function has the table as self");
         if(aw) ENSURES(buzzdarray_get(s, aw, buzzobj_t) == AW, "a stored function keeps what it captured");
         ENSURES(V->c.value.actrec == act && act->size == AN && buzzdarray_get(act, aw, buzzobj_t) == AW, "the original function is unchanged");
      }
   }
   witness_kept();
   vf_cover("end");
}
//@ unit tput_notable fn=buzzvm_tput,buzzvm_tget companion=hist
UNIT(tput_notable) {
   any_vm(); vf_assume(N >= 3); int put = vf_choose("put", 2);
   buzzobj_t O = any_obj("ot", "ov"); vf_assume(O->o.type != BUZZTYPE_TABLE);
   D = NULL;
   if(put) { operand(3, O); operand(2, int_obj(1)); operand(1, int_obj(2)); witness(3); buzzvm_tput(vm); }
   else { operand(2, O); operand(1, int_obj(1)); witness(2); buzzvm_tget(vm); }
   is_error(BUZZVM_ERROR_TYPE); witness_kept();
   vf_cover("end");
}
//@ unit tget fn=buzzvm_tget companion=hist split=kt:7
UNIT(tget) {
   any_vm(); T = table();
   buzzobj_t K = any_key();
   g_found = vf_choose("found", 2) ? any_obj("ft", "fv") : NULL;
   if(!vf_fork(N >= 2)) { ENSURES(buzzvm_tget(vm) == BUZZVM_STATE_ERROR && vm->stack->size == N, "reading a field needs two operands"); vf_cover("end"); return; }
   operand(2, T); operand(1, K); witness(2);
   buzzvm_tget(vm);
   if(!keyable(K)) { is_error(BUZZVM_ERROR_TYPE); witness_kept(); vf_cover("end"); return; }
   ENSURES(vm->state == BUZZVM_STATE_READY && vm->stack->size == (int64_t)N - 1, "reading a field replaces table and key by a value");
   ENSURES(g_get >= 1 && g_key == K && !g_set && !g_rem, "reading asks for the field and changes nothing");
   if(g_found) ENSURES(buzzvm_stack_at(vm, 1) == g_found, "reading a field gives its value");
   else ENSURES(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_NIL, "reading a missing field gives nil");
   witness_kept();
   vf_cover("end");
}
static buzzobj_t strkey(void) { buzzobj_t k = raw_obj(BUZZTYPE_STRING); k->s.value.sid = vf_u16("sid"); k->s.value.str = vf_opaque("str"); return k; }
//@ unit gload fn=buzzvm_gload companion=ghist
UNIT(gload) {
   any_vm(); D = vm->gsyms; g_set = g_rem = g_get = 0; g_strkey = 1;
   g_found = vf_choose("found", 2) ? any_obj("ft", "fv") : NULL;
   if(!vf_fork(N >= 1)) { ENSURES(buzzvm_gload(vm) == BUZZVM_STATE_ERROR && vm->stack->size == N, "reading a global needs its name"); vf_cover("end"); return; }
   buzzobj_t K = vf_choose("name", 2) ? strkey() : any_key(); operand(1, K); witness(1);
   buzzvm_gload(vm);
   if(K->o.type != BUZZTYPE_STRING) { is_error(BUZZVM_ERROR_TYPE); witness_kept(); vf_cover("end"); return; }
   ENSURES(vm->state == BUZZVM_STATE_READY && vm->stack->size == N, "reading a global replaces its name by a value");
   ENSURES(g_key == (void*)(uintptr_t)K->s.value.sid && !g_set && !g_rem, "reading asks for the global and changes nothing");
   if(g_found) ENSURES(buzzvm_stack_at(vm, 1) == g_found, "reading a global gives its value");
   else ENSURES(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_NIL, "reading an undefined global gives nil");
   witness_kept();
   vf_cover("end");
}
//@ unit gstore fn=buzzvm_gstore companion=ghist split=vt:7
UNIT(gstore) {
   any_vm(); D = vm->gsyms; g_set = g_rem = g_get = 0; g_strkey = 1;
   if(!vf_fork(N >= 2)) { ENSURES(buzzvm_gstore(vm) == BUZZVM_STATE_ERROR && vm->stack->size == N, "storing a global needs name and value"); vf_cover("end"); return; }
   buzzobj_t K = vf_choose("name", 2) ? strkey() : any_key(), V = any_obj("vt", "vv"); operand(2, K); operand(1, V); witness(2);
   buzzvm_gstore(vm);
   if(K->o.type != BUZZTYPE_STRING) { is_error(BUZZVM_ERROR_TYPE); ENSURES(!g_set && !g_rem, "a refused name changes nothing"); witness_kept(); vf_cover("end"); return; }
   ENSURES(vm->state == BUZZVM_STATE_READY && vm->stack->size == (int64_t)N - 2, "storing a global consumes name and value");
   ENSURES(g_set + g_rem == 1 && g_key == (void*)(uintptr_t)K->s.value.sid && (g_set ? g_val == V : V->o.type == BUZZTYPE_NIL), "the global asked for holds the value assigned");
   witness_kept();
   vf_cover("end");
}
//@ unit local fn=buzzvm_lload,buzzvm_lstore companion=lhist split=store:2
UNIT(local) {
   any_vm(); D = NULL;
   buzzdarray_t s = buzzdarray_new(1, sizeof(buzzobj_t), NULL); any_size(s, "ls.size", "ls.cap", "ls", mk_stk);
   uint32_t LN = s->size; vf_assume(LN >= 1);
   uint32_t p = vf_u32("lpos"), q = vf_u32("lother"); vf_assume(p < LN && q < LN && p != q);
   buzzobj_t P = int_obj(1), Q = int_obj(2), V = any_obj("vt", "vv");
   vf_preset(s->data, p, P); vf_preset(s->data, q, Q);
   vm->lsyms = buzzvm_lsyms_new(0, s);
   if(vf_choose("store", 2)) {
      vf_assume(N >= 1); operand(1, V); witness(1);
      buzzvm_lstore(vm, p);
      ENSURES(vm->state == BUZZVM_STATE_READY && vm->stack->size == (int64_t)N - 1 && s->size == LN, "storing a local consumes the value");
      ENSURES(buzzdarray_get(s, p, buzzobj_t) == V, "a local holds the value last stored");
   }
   else {
      witness(0);
      buzzvm_lload(vm, p);
      ENSURES(vm->state == BUZZVM_STATE_READY && vm->stack->size == (int64_t)N + 1 && s->size == LN, "reading a local pushes a value");
      ENSURES(buzzvm_stack_at(vm, 1) == P && buzzdarray_get(s, p, buzzobj_t) == P, "reading a local gives its value");
   }
   ENSURES(buzzdarray_get(s, q, buzzobj_t) == Q, "other locals keep their value");
   witness_kept();
   vf_cover("end");
}
/* ---- bounded: real dictionaries ---- */
#define NK 8
static buzzobj_t key(uint32_t k) {
   switch(k) { case 0: return newi(5); case 1: return newi(25); case 2: return newf(5.0f); case 3: return newf(-20.0f);
      case 4: return newi(-20); case 5: return newf(5.5f); case 6: return news("x"); default: return news("5"); }
}
static const uint8_t CLS[NK] = { 0, 1, 0, 3, 3, 5, 6, 7 };      /* equal keys */
static void tstore(buzzobj_t t, buzzobj_t k, buzzobj_t v) { buzzvm_push(vm, t); buzzvm_push(vm, k); buzzvm_push(vm, v); buzzvm_tput(vm); }
static buzzobj_t tread(buzzobj_t t, buzzobj_t k) { buzzvm_push(vm, t); buzzvm_push(vm, k); buzzvm_tget(vm); buzzobj_t o = top(); buzzvm_pop(vm); return o; }
//@ unit hist fn=buzzvm_tput,buzzvm_tget,buzzobj_table_hash,buzzobj_table_keycmp mode=bounded split=op:16,op#1:16 note="2 or 3 assignments or removals of 8 keys of all types, some equal, some in the same bucket; every field read at the end"
UNIT(hist) {
   vm_ready(1); 
   /* strings whose identifiers fall in the buckets of the number keys */
   char b[3] = "a0"; int i; for(i = 0; i < 12; ++i) { b[1] = 'a' + i; buzzvm_string_register(vm, b, 1); }
   buzzvm_string_register(vm, "5", 1); buzzvm_string_register(vm, "x", 1);
   buzzobj_t t = newt(), t2 = newt(); int32_t val[NK]; uint8_t has[NK] = { 0 }; uint32_t n, k;
   tstore(t2, key(0), newi(77));
   for(n = 0; n < 3; ++n) {
      static const uint8_t LAST[3] = { 0, 5, 15 };
      uint32_t o = n < 2 ? vf_choose("op", 16) : vf_choose("last", 4);
      if(n == 2) { if(!o) break; o = LAST[o - 1]; }
      k = o / 2; uint32_t c = CLS[k];
      if(o & 1) { tstore(t, key(k), newnil()); has[c] = 0; }
      else { val[c] = vf_i32("v"); has[c] = 1; tstore(t, key(k), newi(val[c])); }
      ENSURES(vm->state == BUZZVM_STATE_READY, "assigning a field succeeds (history)");
   }
   uint32_t j, cnt = 0;
   for(j = 0; j < NK; ++j) {
      buzzobj_t r = tread(t, key(j)); uint32_t cj = CLS[j]; cnt += CLS[j] == j && has[j];
      if(has[cj]) ENSURES(r->o.type == BUZZTYPE_INT && r->i.value == val[cj], "every field reads the value last assigned to it (history)");
      else ENSURES(r->o.type == BUZZTYPE_NIL, "a field never assigned or removed reads nil (history)");
   }
   ENSURES(buzzdict_size(t->t.value) == cnt, "a table has as many fields as were assigned and not removed (history)");
   ENSURES(tread(t2, key(0))->i.value == 77, "tables are independent (history)");
   vf_cover("end");
}
static buzzobj_t seen_self; static uint32_t runs;
static int who(buzzvm_t m) { ++runs; buzzvm_lload(m, 0); seen_self = buzzvm_stack_at(m, 1); return buzzvm_ret0(m); }
//@ unit self fn=buzzvm_tput,buzzvm_tget,buzzvm_call mode=bounded note="a function stored in two tables and a global, called through each"
UNIT(self) {
   vm_ready(1);
   buzzobj_t f = newcc(who), a = newt(), b = newt(); runs = 0; uint32_t order = vf_choose("order", 2);
   tstore(order ? b : a, news("f"), f); tstore(order ? a : b, news("f"), order ? f : tread(a, news("f")));
   call(tread(a, news("f")), 0); ENSURES(seen_self == a, "a function called through a table has that table as self");
   call(tread(b, news("f")), 0); ENSURES(seen_self == b, "a function called through another table has that one as self");
   call(f, 0); ENSURES(seen_self->o.type == BUZZTYPE_NIL, "the original function has no self");
   ENSURES(runs == 3, "each call runs the function once");
   vf_cover("end");
}
//@ unit ghist fn=buzzvm_gstore,buzzvm_gload mode=bounded note="3 assignments to 3 globals, all read after each" split=g:3,g#1:3
UNIT(ghist) {
   vm_ready(1); uint16_t sid[3]; int32_t val[3]; int has[3] = { 0, 0, 0 }; uint32_t n, j;
   static const char* NM[3] = { "aa", "bb", "cc" };
   for(j = 0; j < 3; ++j) sid[j] = buzzvm_string_register(vm, NM[j], 1);
   for(n = 0; n < 3; ++n) {
      uint32_t g = vf_choose("g", 3), nil = vf_choose("nil", 2);
      buzzvm_pushs(vm, sid[g]);
      if(nil) { buzzvm_pushnil(vm); has[g] = 0; } else { val[g] = vf_i32("v"); has[g] = 1; buzzvm_pushi(vm, val[g]); }
      buzzvm_gstore(vm);
      for(j = 0; j < 3; ++j) {
         buzzvm_pushs(vm, sid[j]); buzzvm_gload(vm);
         if(has[j]) ENSURES(top()->o.type == BUZZTYPE_INT && top()->i.value == val[j], "every global reads the value last assigned to it (history)");
         else ENSURES(top()->o.type == BUZZTYPE_NIL, "an undefined global reads nil (history)");
      }
   }
   vf_cover("end");
}
static int l_bad;
static int locs(buzzvm_t m) {
   int32_t v = vf_i32("lv"); uint32_t p = 1 + vf_choose("which", 2);
   buzzvm_pushi(m, v); buzzvm_lstore(m, p);
   buzzvm_lload(m, p); if(buzzvm_stack_at(m, 1)->i.value != v) l_bad = 1;
   buzzvm_lload(m, 3 - p); if(buzzvm_stack_at(m, 1)->i.value != 10 * (int32_t)(3 - p)) l_bad = 1;
   return buzzvm_ret0(m);
}
//@ unit lhist fn=buzzvm_lstore,buzzvm_lload mode=bounded note="a function that assigns one of its two arguments, called twice"
UNIT(lhist) {
   vm_ready(1); l_bad = 0; buzzobj_t f = newcc(locs); int i;
   for(i = 0; i < 2; ++i) { ARG[0] = newi(10); ARG[1] = newi(20); ENSURES(call(f, 2) == BUZZVM_STATE_READY && !l_bad, "locals read back what was stored in this activation (history)"); }
   vf_cover("end");
}
#ifdef VF_NATIVE
/* random assignments to fields of all key types, globals, and locals of a script-sized activation */
static buzzobj_t s_key(uint32_t i) { char b[32]; switch(i % 4) { case 0: return newi((int32_t)i * 7 - 300); case 1: return newf(i * 0.25f - 8.1f); case 2: sprintf(b, "k%u", i); return news(b); default: return newf((float)((int32_t)(i - 3) * 7 - 300)); } }
static int s_bad; static uint32_t s_n;
static int s_locs(buzzvm_t m) {
   int32_t ref[80]; uint32_t i, n = s_n; for(i = 0; i < n; ++i) ref[i] = i;
   for(i = 0; i < 60; ++i) { uint32_t p = vf_rand(n); if(vf_rand(2)) { ref[p] = vf_rand(1000); buzzvm_pushi(m, ref[p]); buzzvm_lstore(m, p + 1); } else { buzzvm_lload(m, p + 1); if(buzzvm_stack_at(m, 1)->i.value != ref[p]) s_bad = 1; buzzvm_pop(m); } }
   return buzzvm_ret0(m);
}
//@ search history
SEARCH(history) {
   enum { NX = 160 }; static int32_t val[NX]; static uint8_t has[NX]; static uint8_t ghas[NX]; static int32_t gval[NX]; uint32_t i, j, nk = 4 + vf_rand(NX - 4), steps = 10 + vf_rand(600), cnt = 0, rm = 30; char b[32];
   memset(has, 0, sizeof(has)); memset(ghas, 0, sizeof(ghas));
   vm_ready(1); buzzobj_t t = newt(), t2 = newt(); tstore(t2, newi(1), newi(77));
   for(i = 0; i < steps; ++i) {
      uint32_t k = vf_rand(nk), c = k % 4 == 3 ? k - 3 : k;      /* an integral float is the field of the integer */
      if(i % 100 == 0) rm = vf_rand(90);
      if(vf_rand(100) < rm) { tstore(t, s_key(k), newnil()); cnt -= has[c]; has[c] = 0; }
      else { val[c] = vf_rand(1u << 31); cnt += !has[c]; has[c] = 1; tstore(t, s_key(k), newi(val[c])); }
      sprintf(b, "g%u", k); buzzvm_pushs(vm, buzzvm_string_register(vm, b, 1)); gval[k] = vf_rand(1u << 31); ghas[k] = vf_rand(5) != 0; if(ghas[k]) buzzvm_pushi(vm, gval[k]); else buzzvm_pushnil(vm); buzzvm_gstore(vm);
      vf_assert(vm->state == BUZZVM_STATE_READY && depth() == 0, "search: assigning succeeds");
      vf_assert(buzzdict_size(t->t.value) == cnt, "search: a table has as many fields as were assigned and not removed");
      if(i % 10 == 0 || i + 1 == steps) for(j = 0; j < nk; ++j) {
         uint32_t cj = j % 4 == 3 ? j - 3 : j; buzzobj_t r = tread(t, s_key(j));
         vf_assert(has[cj] ? r->o.type == BUZZTYPE_INT && r->i.value == val[cj] : r->o.type == BUZZTYPE_NIL, "search: every field reads the value last assigned to it");
         sprintf(b, "g%u", j); buzzobj_t g = global(b); vf_assert(ghas[j] ? g->o.type == BUZZTYPE_INT && g->i.value == gval[j] : g->o.type == BUZZTYPE_NIL, "search: every global reads the value last assigned to it"); }
   }
   vf_assert(tread(t2, newi(1))->i.value == 77 && buzzdict_size(t2->t.value) == 1, "search: tables are independent");
   s_n = 1 + vf_rand(70); s_bad = 0; buzzvm_push(vm, newcc(s_locs)); for(i = 0; i < s_n; ++i) buzzvm_pushi(vm, i);
   vf_assert(buzzvm_closure_call(vm, s_n) == BUZZVM_STATE_READY && !s_bad, "search: locals read back what was stored");
   /* methods */
   buzzobj_t f = newcc(who), h[8]; uint32_t nh = 1 + vf_rand(8);
   for(i = 0; i < nh; ++i) { h[i] = newt(); tstore(h[i], news("f"), i && vf_rand(2) ? tread(h[i - 1], news("f")) : f); }
   for(i = 0; i < nh; ++i) { call(tread(h[i], news("f")), 0); vf_assert(seen_self == h[i], "search: a function called through a table has that table as self"); }
   call(f, 0); vf_assert(seen_self->o.type == BUZZTYPE_NIL, "search: the original function has no self");
}
#endif
