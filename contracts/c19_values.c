/* C19: comparison, hashing, conversion and copying of values */
#define VM_OWN_STUBS
#include "vm_call.h"
#include <buzz/buzztype.h>
//@ assume strings are compared through strcmp (unit cmp_str); its result is the text order
//@ assume copied values contain no cycles of tables
//@ assume callers are checked against the array and dictionary contracts (C01, C02): iteration visits every element, one arbitrary element stands for all; a copied array is a new array with the same elements
extern uint32_t buzzobj_table_hash(const void* key) __attribute__((weak));
extern int buzzobj_table_keycmp(const void* a, const void* b) __attribute__((weak));
static buzzobj_t a, b;
static int u_str; static const char *s1, *s2; static int scmp;
int vf_stub__strcmp(const char* x, const char* y) {
   vf_assert((x == s1 && y == s2) || (x == s2 && y == s1), "pre: the two texts are compared");
   return x == s1 ? scmp : (scmp < 0 ? 1 : scmp > 0 ? -1 : 0);
}
static buzzobj_t val(uint32_t t, const char* lv) {
   buzzobj_t o = raw_obj(t);
   switch(t) {
      case BUZZTYPE_INT: o->i.value = vf_i32(lv); break;
      case BUZZTYPE_FLOAT: o->f.value = vf_f32(lv); break;
      case BUZZTYPE_TABLE: o->t.value = (buzzdict_t)(uintptr_t)vf_u64(lv); break;
      case BUZZTYPE_USERDATA: o->u.value = (void*)(uintptr_t)vf_u64(lv); break;
      case BUZZTYPE_CLOSURE: o->c.value.isnative = vf_bool(lv); o->c.value.ref = vf_i32(lv); o->c.value.actrec = vf_opaque(lv); break;
      case BUZZTYPE_STRING: o->s.value.sid = vf_u16(lv); o->s.value.str = vf_opaque(lv); break;
   }
   return o;
}
static int isnum(buzzobj_t o) { return o->o.type == BUZZTYPE_INT || o->o.type == BUZZTYPE_FLOAT; }
static double num(buzzobj_t o) { return o->o.type == BUZZTYPE_INT ? (double)o->i.value : (double)o->f.value; }
/* what cmp must give; 9: anything */
static int expect(void) {
   int x = a->o.type, y = b->o.type;
   if(x == BUZZTYPE_NIL || y == BUZZTYPE_NIL) return x == y ? 0 : 2;
   if(isnum(a) && isnum(b)) { double p = num(a), q = num(b); return p < q ? -1 : p > q ? 1 : p == q ? 0 : 2; }
   if(x == BUZZTYPE_STRING && y == BUZZTYPE_STRING) return scmp < 0 ? -1 : scmp > 0;
   if(x == BUZZTYPE_TABLE && y == BUZZTYPE_TABLE) return a->t.value == b->t.value ? 0 : 9;
   if(x == BUZZTYPE_USERDATA && y == BUZZTYPE_USERDATA) return a->u.value == b->u.value ? 0 : 9;
   return 9;
}
//@ unit cmp fn=buzzobj_cmp,buzzobj_eq split=ta:7,tb:7 companion=cmp_b
UNIT(cmp) {
   uint32_t x = vf_choose("ta", 7), y = vf_choose("tb", 7);
   if((x == BUZZTYPE_STRING) + (y == BUZZTYPE_STRING) == 1 && (x == BUZZTYPE_INT || x == BUZZTYPE_FLOAT || y == BUZZTYPE_INT || y == BUZZTYPE_FLOAT)) { vf_cover("end"); return; }  /* unit mixed */
   a = val(x, "a"); b = val(y, "b"); s1 = a->s.value.str; s2 = b->s.value.str; scmp = vf_i32("strcmp");
   vf_assume((s1 != s2) | (scmp == 0) | (x != BUZZTYPE_STRING) | (y != BUZZTYPE_STRING));
   int c = buzzobj_cmp(a, b), d = buzzobj_cmp(b, a), e = expect();
   ENSURES((c == -1) | (c == 0) | (c == 1) | (c == 2), "a comparison says less, equal, greater or incomparable");
   if(e != 9) ENSURES(c == e, "values compare as their numbers, texts or references do");
   else ENSURES(c != 0, "different values are not equal");
   ENSURES(c == 2 ? d == 2 : d == -c, "swapping the operands swaps the order");
   int q = buzzobj_eq(a, b) != 0;
   ENSURES(q == (buzzobj_eq(b, a) != 0), "equality is symmetric");
   if(x == y && x != BUZZTYPE_CLOSURE) ENSURES(q == (c == 0), "objects of one type are equal exactly if they compare equal");
   if(x != y) ENSURES(!q, "objects of different types are not equal");
   vf_cover("end");
}
//@ unit self fn=buzzobj_cmp,buzzobj_eq split=ta:7 companion=cmp_b
UNIT(self) {
   a = val(vf_choose("ta", 7), "a"); s1 = s2 = a->s.value.str; scmp = 0;
   int nan = a->o.type == BUZZTYPE_FLOAT && a->f.value != a->f.value;
   if(a->o.type != BUZZTYPE_CLOSURE && !nan) ENSURES(buzzobj_cmp(a, a) == 0, "a value compares equal to itself");
   if(nan) ENSURES(buzzobj_cmp(a, a) == 2, "NaN is not comparable");
   else ENSURES(buzzobj_eq(a, a), "an object equals itself");
   vf_cover("end");
}
//@ unit hash fn=buzzobj_hash split=ta:2,tb:2
UNIT(hash) {
   a = val(BUZZTYPE_INT + vf_choose("ta", 2), "a"); b = val(BUZZTYPE_INT + vf_choose("tb", 2), "b");
   vf_assume(num(a) == num(b));
   ENSURES(buzzobj_hash(a) == buzzobj_hash(b), "equal numbers hash equally");
   vf_cover("end");
}
//@ unit keyhash fn=buzzobj_table_hash,buzzobj_table_keycmp split=ta:2,tb:2 companion=keys_b
UNIT(keyhash) {
   a = val(BUZZTYPE_INT + vf_choose("ta", 2), "a"); b = val(BUZZTYPE_INT + vf_choose("tb", 2), "b");
   vf_assume(num(a) == num(b));
   ENSURES(buzzobj_table_hash(&a) == buzzobj_table_hash(&b), "equal keys hash equally");
   ENSURES(buzzobj_table_keycmp(&a, &b) == 0, "equal numbers are equal keys");
   vf_cover("end");
}
/* ---- text, for real ---- */
static int refcmp(const char* x, const char* y) {
   int i;
   for(i = 0; ; ++i) {
      if((uint8_t)x[i] != (uint8_t)y[i]) return (uint8_t)x[i] < (uint8_t)y[i] ? -1 : 1;
      if(!x[i]) return 0;
   }
}
//@ unit cmp_b fn=buzzobj_cmp,buzzobj_eq,buzzobj_hash mode=bounded split=k:2,n:4 note="strings of up to 3 bytes; tables and userdata; real strcmp"
UNIT(cmp_b) {
   vm_ready(1);
   if(vf_choose("k", 2)) {
      uint32_t n = vf_choose("n", 4);
      char* x = vf_buf("x", 4); char* y = vf_buf("y", 4); x[n] = 0; y[3] = 0;
      a = raw_obj(BUZZTYPE_STRING); a->s.value.str = x; b = raw_obj(BUZZTYPE_STRING); b->s.value.str = y;
      a->s.value.sid = 1; int r = refcmp(x, y); b->s.value.sid = r == 0 ? 1 : 2;
      ENSURES(buzzobj_cmp(a, b) == r, "strings compare by their text");
      ENSURES((buzzobj_eq(a, b) != 0) == (r == 0), "strings are equal exactly if their texts are");
      if(r == 0) ENSURES(buzzobj_hash(a) == buzzobj_hash(b), "equal texts hash equally");
   }
   else {
      a = newt(); b = newt(); buzzobj_t c = raw_obj(BUZZTYPE_TABLE); c->t.value = a->t.value; buzzobj_t n = newnil(), i = newi(vf_i32("i")), s = news("text"), f = newcc(NULL);
      int o = buzzobj_cmp(a, b);
      ENSURES((o == 1 || o == -1) && buzzobj_cmp(b, a) == -o && buzzobj_cmp(a, c) == 0 && buzzobj_cmp(c, b) == o, "tables are equal exactly if they are the same table");
      ENSURES(!buzzobj_eq(a, b) && buzzobj_eq(a, c) && !buzzobj_eq(a, n) && !buzzobj_eq(i, a), "table equality is identity");
      ENSURES(buzzobj_hash(a) == buzzobj_hash(c), "references to one table hash equally");
      ENSURES(buzzobj_cmp(a, n) == 2 && buzzobj_cmp(n, a) == 2 && buzzobj_cmp(n, n) == 0 && buzzobj_cmp(n, i) == 2 && buzzobj_cmp(s, n) == 2, "nil is comparable only with nil");
      ENSURES(buzzobj_cmp(f, i) == 2 && buzzobj_cmp(i, f) == 2, "a function and a number are not comparable");
   }
   vf_cover("end");
}
static const int32_t NUMS[] = { 0, 7, -3, 42, 2147483647, (-2147483647-1) };
static const char* TXT[] = { "0", "7", "-3", "42", "2147483647", "-2147483648", "", "abc", "-", "41", "420" };
static const float FLT[] = { 0.f, 0.5f, -2.f, 1000000.f, -3.4e38f };
static const char* FTX[] = { "0.000000", "0.500000", "-2.000000", "1000000.000000", "-339999995214436424907732413799364296704.000000", "", "x", "0.5", "-" };
//@ unit mixed fn=buzzobj_cmp mode=bounded split=i:6,s:11 note="6 integers against 11 texts, 5 floats against 9 texts"
UNIT(mixed) {
   uint32_t i = vf_choose("i", 6), s = vf_choose("s", 11);
   a = raw_obj(BUZZTYPE_INT); a->i.value = NUMS[i]; b = raw_obj(BUZZTYPE_STRING); b->s.value.str = TXT[s];
   int r = refcmp(TXT[i], TXT[s]);
   ENSURES(buzzobj_cmp(a, b) == r && buzzobj_cmp(b, a) == -r, "an integer compares with a string as its text");
   if(i < 5 && s < 9) {
      a->o.type = BUZZTYPE_FLOAT; a->f.value = FLT[i]; b->s.value.str = FTX[s];
      int r = refcmp(FTX[i], FTX[s]);
      ENSURES(buzzobj_cmp(a, b) == r && buzzobj_cmp(b, a) == -r, "a float compares with a string as its text");
   }
   vf_cover("end");
}
/* ---- copies ---- */
static buzzobj_t cK, cD, kK, kD; static buzzdict_t odict; static uint32_t sets, okset, ncl, clones; static buzzdarray_t oact, nact; static buzzdict_t setd;
static int g_clone;
void vf_stub__buzzdict_foreach(buzzdict_t dt, buzzdict_elem_funp fun, void* params) {
   vf_assert(dt == odict, "pre: the fields of the value are visited");
   fun(&cK, &cD, params);
}
buzzobj_t vf_rec__buzzheap_clone(buzzvm_t m, buzzobj_t o) {
   vf_assert(m == vm && (o == cK || o == cD), "pre: keys and values are copied");
   ++clones;
   return o == cK ? kK : kD;
}
int vf_stub__buzzdict_set(buzzdict_t dt, const void* k, const void* d) {
   ++sets; setd = dt; okset = *(buzzobj_t*)k == kK && *(buzzobj_t*)d == kD;
   return 1;
}
buzzdarray_t vf_stub__buzzdarray_clone(const buzzdarray_t da) { vf_assert(da == oact, "pre: what the function captured is copied"); ++ncl; return nact; }
//@ unit clone fn=buzzheap_clone,buzzheap_clone_tableelem split=ta:7 companion=clone_b
UNIT(clone) {
   vm = buzzvm_new(1); uint32_t t = vf_choose("ta", 7);
   a = val(t, "a"); uint16_t m = a->o.marker; uint32_t n = vm->heap->objs->size;
   cK = raw_obj(BUZZTYPE_INT); cD = raw_obj(BUZZTYPE_TABLE); kK = raw_obj(BUZZTYPE_INT); kD = raw_obj(BUZZTYPE_TABLE); sets = ncl = clones = 0;
   if(t == BUZZTYPE_TABLE) odict = a->t.value = buzzdict_new(1 + vf_u16("buckets"), 8, 8, NULL, NULL, NULL);
   if(t == BUZZTYPE_CLOSURE) { oact = vf_opaque("act"); nact = vf_opaque("act2"); a->c.value.actrec = oact; }
   int32_t iv = a->i.value; float fv = a->f.value;
   buzzobj_t c = buzzheap_clone(vm, a);
   ENSURES(c != a && !vf_sameobj(c, a) && c->o.type == t && a->o.type == t && a->o.marker == m, "a copy is a new object of the same type");
   ENSURES(vm->heap->objs->size == n + 1 && buzzdarray_get(vm->heap->objs, n, buzzobj_t) == c, "a copy is known to the collector");
   switch(t) {
      case BUZZTYPE_INT: ENSURES(c->i.value == iv && a->i.value == iv, "an integer is copied"); break;
      case BUZZTYPE_FLOAT: ENSURES(vf_feq(c->f.value, fv) && vf_feq(a->f.value, fv), "a float is copied"); break;
      case BUZZTYPE_STRING: ENSURES(c->s.value.sid == a->s.value.sid && c->s.value.str == a->s.value.str, "a string is copied"); break;
      case BUZZTYPE_USERDATA: ENSURES(c->u.value == a->u.value, "userdata is copied"); break;
      case BUZZTYPE_CLOSURE: ENSURES(c->c.value.ref == a->c.value.ref && c->c.value.isnative == a->c.value.isnative && c->c.value.actrec == nact && ncl == 1 && a->c.value.actrec == oact, "a copied function has the same code and its own copy of what it captured"); break;
      case BUZZTYPE_TABLE: ENSURES(c->t.value != odict && !vf_sameobj(c->t.value, odict) && a->t.value == odict, "a copied table has its own fields");
         ENSURES(sets == 1 && okset && setd == c->t.value && clones == 2, "every field of a table is copied, once"); 
         ENSURES(c->t.value->hashf == odict->hashf && c->t.value->keycmpf == odict->keycmpf && c->t.value->key_size == 8 && c->t.value->data_size == 8, "a copied table finds its fields as the original"); break;
   }
   vf_cover("end");
}
static void tset(buzzobj_t t, buzzobj_t k, buzzobj_t v) { buzzvm_push(vm, t); buzzvm_push(vm, k); buzzvm_push(vm, v); buzzvm_tput(vm); }
static buzzobj_t tat(buzzobj_t t, buzzobj_t k) { buzzvm_push(vm, t); buzzvm_push(vm, k); buzzvm_tget(vm); buzzobj_t o = top(); buzzvm_pop(vm); return o; }
static int nop(buzzvm_t m) { return buzzvm_ret0(m); }
//@ unit clone_b fn=buzzheap_clone,buzzobj_clone mode=bounded split=api:2,n:4 note="tables of up to 3 fields and one nested table, any integers; changes to either copy"
UNIT(clone_b) {
   vm_ready(1); buzzobj_register(vm); uint32_t api = vf_choose("api", 2), n = vf_choose("n", 4), i;
   int32_t v[3]; buzzobj_t t = newt(), in = newt(), f = newcc(nop), c;
   for(i = 0; i < n; ++i) { v[i] = vf_i32("v"); tset(t, newi(i * 10), newi(v[i])); }       /* all in one bucket */
   tset(in, newf(0.5f), news("deep")); tset(t, news("inner"), in); tset(t, news("fun"), f);
   uint32_t d0 = depth();
   if(api) { ARG[0] = t; ENSURES(call(global("clone"), 1) == BUZZVM_STATE_READY && depth() == d0 + 1, "clone gives one value"); c = top(); buzzvm_pop(vm); }
   else c = buzzheap_clone(vm, t);
   ENSURES(c != t && c->o.type == BUZZTYPE_TABLE && c->t.value != t->t.value && buzzdict_size(c->t.value) == n + 2, "a copied table has as many fields");
   for(i = 0; i < n; ++i) { buzzobj_t o = tat(c, newi(i * 10)); ENSURES(o->o.type == BUZZTYPE_INT && o->i.value == v[i] && o != tat(t, newi(i * 10)), "a field is copied"); }
   buzzobj_t ci = tat(c, news("inner"));
   ENSURES(ci->o.type == BUZZTYPE_TABLE && ci->t.value != in->t.value && buzzdict_size(ci->t.value) == 1 && !strcmp(tat(ci, newf(0.5f))->s.value.str, "deep"), "a nested table is copied");
   buzzobj_t cf = tat(c, news("fun")), tf = tat(t, news("fun"));
   ENSURES(cf->o.type == BUZZTYPE_CLOSURE && cf->c.value.ref == tf->c.value.ref && cf->c.value.isnative == tf->c.value.isnative && cf->c.value.actrec != tf->c.value.actrec && buzzdarray_size(cf->c.value.actrec) == buzzdarray_size(tf->c.value.actrec), "a function in a table is copied");
   tset(ci, newi(1), newi(2)); tset(c, newi(99), newi(1)); tset(c, newi(0), newnil());
   ENSURES(buzzdict_size(in->t.value) == 1 && buzzdict_size(t->t.value) == n + 2, "changing the copy leaves the original");
   for(i = 0; i < n; ++i) ENSURES(tat(t, newi(i * 10))->i.value == v[i], "changing the copy leaves the original's fields");
   tset(in, newf(0.5f), newnil()); tset(t, news("inner"), newnil());
   ENSURES(tat(c, news("inner")) == ci && tat(ci, newf(0.5f))->o.type == BUZZTYPE_STRING, "changing the original leaves the copy");
   vf_cover("end");
}
static const int32_t KI[] = { 0, 3, -7, 19, -10, 16777216, (-2147483647-1), 1234570 };
//@ unit keys_b fn=buzzobj_table_hash,buzzobj_table_keycmp mode=bounded split=k:8 note="8 numbers as integer and as float key"
UNIT(keys_b) {
   vm_ready(1); buzzobj_t t = newt(); int32_t k = KI[vf_choose("k", 8)];
   tset(t, newi(k), newi(1)); ENSURES(tat(t, newf((float)k))->i.value == 1, "a float key finds the equal integer key");
   tset(t, newf((float)k), newi(2)); ENSURES(buzzdict_size(t->t.value) == 1 && tat(t, newi(k))->i.value == 2, "an integer key finds the equal float key");
   tset(t, newf(k + 0.5f), newi(3)); tset(t, newf(0.5f - 0.25f), newi(4)); tset(t, newf(-0.0f), newi(5));
   ENSURES(tat(t, newi(0))->i.value == 5, "the two zeros are one key");
   vf_cover("end");
}
/* ---- conversions ---- */
static void run1(const char* name, buzzobj_t o) { ARG[0] = o; call(global(name), 1); }
//@ unit convert fn=buzzobj_int,buzzobj_float,buzzobj_type mode=bounded split=ta:7,fn:3 note="the conversion functions on every type, any number; strings, tables, functions and userdata one each"
UNIT(convert) {
   vm_ready(1); buzzobj_register(vm); uint32_t t = vf_choose("ta", 7), k = vf_choose("fn", 3); a = buzzheap_newobj(vm, t);
   if(t == BUZZTYPE_STRING) a = news("s");
   if(t == BUZZTYPE_INT) a->i.value = vf_i32("a");
   if(t == BUZZTYPE_FLOAT) { a->f.value = vf_f32("a"); if(k == 0) vf_assume(a->f.value > -2147483648.0f && a->f.value < 2147483648.0f); }
   int32_t iv = a->i.value; float fv = a->f.value; uint32_t d0 = depth();
   run1(k == 0 ? "int" : k == 1 ? "float" : "type", a);
   int good = k == 2 || (k == 0 && t == BUZZTYPE_FLOAT) || (k == 1 && t == BUZZTYPE_INT);
   int same = (k == 0 && t == BUZZTYPE_INT) || (k == 1 && t == BUZZTYPE_FLOAT);
   if(!good) {
      if(!same) ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_TYPE, "a conversion of a wrong type is an error");
      vf_cover("end"); return;
   }
   ENSURES(vm->state == BUZZVM_STATE_READY && depth() == d0 + 1, "a conversion gives one value");
   buzzobj_t r = top();
   if(k == 0) { float g = (float)r->i.value; ENSURES(r->o.type == BUZZTYPE_INT && (fv >= 0 ? (double)r->i.value <= fv && (double)r->i.value > (double)fv - 1 : (double)r->i.value >= fv && (double)r->i.value < (double)fv + 1), "int() truncates"); (void)g; }
   else if(k == 1) ENSURES(r->o.type == BUZZTYPE_FLOAT && r->f.value == (float)iv, "float() gives the same number");
   else { static const char* D[] = { "nil", "int", "float", "string", "table", "closure", "userdata" }; ENSURES(r->o.type == BUZZTYPE_STRING && !strncmp(r->s.value.str, D[t], 3), "type() names the type"); }
   vf_cover("end");
}
/* ---- truth ---- */
static buzzobj_t ret_o;
static int retf(buzzvm_t m) { buzzvm_push(m, ret_o); return buzzvm_ret1(m); }
//@ unit truth fn=buzzvm_lnot,buzzvm_land,buzzvm_lor,buzzvm_execute_instruction,buzzobj_filter,buzzneighbors_filter mode=bounded split=ta:7,w:7 note="one value of every type, any number, in every place where truth is decided"
UNIT(truth) {
   vm_ready(1); buzzobj_register(vm); buzzneighbors_new(vm); uint32_t t = vf_choose("ta", 7), w = vf_choose("w", 7); a = buzzheap_newobj(vm, t);
   if(t == BUZZTYPE_STRING) a = news("");
   if(t == BUZZTYPE_INT) a->i.value = vf_i32("a");
   if(t == BUZZTYPE_FLOAT) a->f.value = vf_f32("a");
   int truth = !(t == BUZZTYPE_NIL || (t == BUZZTYPE_INT && a->i.value == 0)), r = -1;
   PN = 0; op(BUZZVM_INSTR_NOP);
   switch(w) {
      case 0: buzzvm_push(vm, a); buzzvm_lnot(vm); r = !top()->i.value; break;
      case 1: buzzvm_push(vm, a); buzzvm_pushi(vm, 1); buzzvm_land(vm); r = top()->i.value; break;
      case 2: buzzvm_pushi(vm, 0); buzzvm_push(vm, a); buzzvm_lor(vm); r = top()->i.value; break;
      case 3: case 4: opi(w == 3 ? BUZZVM_INSTR_JUMPZ : BUZZVM_INSTR_JUMPNZ, 8); op(BUZZVM_INSTR_NOP); op(BUZZVM_INSTR_NOP); op(BUZZVM_INSTR_NOP); op(BUZZVM_INSTR_NOP);
         program(); vm->pc = 1; buzzvm_push(vm, a); buzzvm_step(vm); ENSURES(vm->pc == 8 || vm->pc == 6, "a jump goes to its target or on"); r = (vm->pc == 8) == (w == 4); break;
      case 5: { buzzobj_t tb = newt(); tset(tb, newi(1), newi(2)); ret_o = a; ARG[0] = tb; ARG[1] = newcc(retf); call(global("filter"), 2); r = buzzdict_size(top()->t.value); break; }
      default: { buzzneighbors_add(vm, 3, 1, 2, 3); buzzobj_t nb = global("neighbors"); ret_o = a; ARG[0] = newcc(retf); method(nb, "filter", 1); r = buzzdict_size(field(top(), "poses")->t.value); break; }
   }
   ENSURES(vm->state == BUZZVM_STATE_READY && (r != 0) == truth, "exactly nil and the integer zero are false");
   vf_cover("end");
}
