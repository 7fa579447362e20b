/* C15 - swarm operations of a script on this robot's membership.
 * The proof units take any identifiers and memberships; the membership
 * dictionary and the outgoing queue are used through their contracts. */
#include "vm_call.h"
#include <buzz/buzzswarm.h>
//@ assume the dictionary contract proved in C02 and the queue contract proved in C16 (the proof units record the announcements appended); memory allocation succeeds
/* ghost: memberships of three swarms of any, possibly equal, identifiers */
static struct { uint16_t id; uint8_t known; uint8_t val; } G[3];
static uint32_t g_sets;                       /* writes to swarms not looked at */
static uint32_t g_ann; static int g_kind; static uint16_t g_annid;
static int slot(uint16_t id) { int i; for(i = 0; i < 3; ++i) if(vf_fork(G[i].id == id)) return i; return -1; }
const void* vf_stub__buzzdict_rawget(const buzzdict_t dt, const void* key) {
   if(dt != vm->swarms) return buzzdict_rawget(dt, key);
   int i = slot(*(const uint16_t*)key);
   return i >= 0 && G[i].known ? &G[i].val : NULL;
}
void vf_stub__buzzdict_set(buzzdict_t dt, const void* key, const void* data) {
   if(dt != vm->swarms) { buzzdict_set(dt, key, data); return; }
   int i = slot(*(const uint16_t*)key);
   if(i < 0) ++g_sets; else { G[i].known = 1; G[i].val = *(const uint8_t*)data; }
}
void vf_stub__buzzoutmsg_queue_append_swarm_joinleave(buzzvm_t m, int type, uint16_t id) { ++g_ann; g_kind = type; g_annid = id; }
static int isin(uint16_t id) { int i = slot(id); return i >= 0 && G[i].known && G[i].val; }
static int known(uint16_t id) { int i = slot(id); return i >= 0 && G[i].known; }
static buzzobj_t SW;                          /* the 'swarm' table */
static void setup(void) {
   vm_ready(1);
   buzzswarm_register(vm); vf_assume(vm->state == BUZZVM_STATE_READY);
   SW = global("swarm");
   int i;
   for(i = 0; i < 3; ++i) { G[i].id = vf_u16("id"); G[i].known = vf_choose("known", 2); G[i].val = G[i].known ? vf_choose("member", 2) : 0; }
   g_sets = g_ann = 0;
}
static buzzobj_t handle(uint16_t id) { buzzobj_t t = newt(); 
   buzzvm_push(vm, t); buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1)); buzzvm_pushi(vm, id); buzzvm_tput(vm); return t; }
static void is_handle(buzzobj_t o, uint16_t id) {
   ENSURES(o->o.type == BUZZTYPE_TABLE, "a swarm operation returns a swarm");
   buzzobj_t i = field(o, "id");
   ENSURES(i->o.type == BUZZTYPE_INT && i->i.value == id, "the returned swarm has the requested identifier");
   ENSURES(field(o, "join")->o.type == BUZZTYPE_CLOSURE && field(o, "leave")->o.type == BUZZTYPE_CLOSURE && field(o, "in")->o.type == BUZZTYPE_CLOSURE &&
           field(o, "select")->o.type == BUZZTYPE_CLOSURE && field(o, "exec")->o.type == BUZZTYPE_CLOSURE && field(o, "others")->o.type == BUZZTYPE_CLOSURE, "the returned swarm has the swarm methods");
}
static int nosets(void) { return g_sets == 0; }
//@ unit create fn=buzzswarm_create companion=hist
UNIT(create) {
   setup(); uint16_t id = G[0].id; int k = known(id), m = isin(id);
   ARG[0] = newi(id);
   ENSURES(method(SW, "create", 1) == BUZZVM_STATE_READY, "creating a swarm succeeds");
   is_handle(top(), id);
   ENSURES(known(id) && isin(id) == (k ? m : 0), "creating makes a swarm known and keeps a membership it has");
   ENSURES(nosets() && g_ann == 0, "creating changes no other swarm and announces nothing");
   vf_cover("end");
}
static buzzobj_t get_handle(uint16_t id) {        /* a swarm the script holds, with its methods */
   ARG[0] = newi(id);
   uint8_t k[3], v[3]; int i;
   for(i = 0; i < 3; ++i) { k[i] = G[i].known; v[i] = G[i].val; }
   vf_assume(method(SW, "create", 1) == BUZZVM_STATE_READY);
   for(i = 0; i < 3; ++i) { G[i].known = k[i]; G[i].val = v[i]; }
   buzzobj_t t = top(); g_ann = 0; return t;
}
static void one(const char* name, int leave, int select) {
   setup(); uint16_t id = G[0].id; int k = known(id), m1 = isin(G[1].id);
   buzzobj_t t = get_handle(id); int32_t c = 0;
   if(select) { c = vf_i32("cond"); ARG[0] = newi(c); leave = vf_fork(c == 0); }
   uint32_t d = depth();
   int st = method(t, name, select);
   if(!k) { ENSURES(st == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_SWARM, "an unknown swarm is reported"); ENSURES(g_ann == 0 && !known(id), "an unknown swarm is not joined"); }
   else {
      ENSURES(st == BUZZVM_STATE_READY && depth() == (int64_t)d + 1, "the call succeeds");
      ENSURES(isin(id) == !leave, "joining, leaving and selecting set the membership");
      ENSURES(g_ann == 1 && g_annid == id && g_kind == (leave ? BUZZMSG_SWARM_LEAVE : BUZZMSG_SWARM_JOIN), "joining, leaving and selecting announce the new membership");
      if(!vf_fork(G[1].id == id)) ENSURES(isin(G[1].id) == m1, "the membership of other swarms stays");
   }
   ENSURES(nosets(), "no other swarm is touched");
   vf_cover("end");
}
//@ unit join fn=buzzswarm_join companion=hist
UNIT(join) { one("join", 0, 0); }
//@ unit leave fn=buzzswarm_leave companion=hist
UNIT(leave) { one("leave", 1, 0); }
//@ unit select fn=buzzswarm_select companion=hist
UNIT(select) { one("select", 0, 1); }
//@ unit in fn=buzzswarm_in companion=hist
UNIT(in) {
   setup(); uint16_t id = G[0].id; int k = known(id), m = isin(id);
   buzzobj_t t = get_handle(id);
   int st = method(t, "in", 0);
   if(!k) ENSURES(st == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_SWARM, "an unknown swarm is reported");
   else ENSURES(st == BUZZVM_STATE_READY && top()->o.type == BUZZTYPE_INT && top()->i.value == m, "in() tells the membership");
   ENSURES(nosets() && g_ann == 0 && isin(id) == m, "asking changes nothing");
   vf_cover("end");
}
//@ unit others fn=buzzswarm_others companion=hist
UNIT(others) {
   setup(); uint16_t id = G[0].id, id2 = G[1].id; int k = known(id), m = isin(id), m3 = isin(G[2].id);
   buzzobj_t t = get_handle(id);
   ARG[0] = newi(id2);
   int st = method(t, "others", 1);
   if(!k) ENSURES(st == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_SWARM && g_ann == 0, "an unknown swarm is reported");
   else {
      ENSURES(st == BUZZVM_STATE_READY, "others() succeeds"); is_handle(top(), id2);
      ENSURES(known(id2) && isin(id2) == !m, "others() creates the complement");
      if(!m) ENSURES(g_ann == 1 && g_annid == id2 && g_kind == BUZZMSG_SWARM_JOIN, "joining the complement is announced");
      else ENSURES(!(g_ann && g_kind == BUZZMSG_SWARM_JOIN), "not joining the complement is not announced as a join");
      if(!vf_fork(G[2].id == id2)) ENSURES(isin(G[2].id) == m3, "the membership of other swarms stays");
   }
   ENSURES(nosets(), "no other swarm is touched");
   vf_cover("end");
}
//@ unit setops fn=buzzswarm_union,buzzswarm_intersection,buzzswarm_difference companion=hist split=op:3,known:2,known#1:2
UNIT(setops) {
   static const char* N[3] = { "union", "intersection", "difference" };
   uint32_t o = vf_choose("op", 3);
   setup(); uint16_t a = G[0].id, b = G[1].id, r = G[2].id; int ma = isin(a), mb = isin(b);
   buzzobj_t ha = handle(a), hb = handle(b);
   ARG[0] = newi(r); ARG[1] = ha; ARG[2] = hb;
   int st = method(SW, N[o], 3);
   int want = o == 0 ? ma || mb : o == 1 ? ma && mb : ma && !mb;
   ENSURES(st == BUZZVM_STATE_READY, "a set operation succeeds"); is_handle(top(), r);
   ENSURES(known(r) && isin(r) == want, "a set operation creates the swarm with that membership");
   if(want) ENSURES(g_ann == 1 && g_annid == r && g_kind == BUZZMSG_SWARM_JOIN, "joining the result is announced");
   else ENSURES(!(g_ann && g_kind == BUZZMSG_SWARM_JOIN), "not joining the result is not announced as a join");
   if(!vf_fork(a == r)) ENSURES(isin(a) == ma, "the first operand keeps its membership");
   if(!vf_fork(b == r)) ENSURES(isin(b) == mb, "the second operand keeps its membership");
   ENSURES(nosets(), "no other swarm is touched");
   vf_cover("end");
}
//@ unit wrong fn=buzzswarm_union,buzzswarm_intersection,buzzswarm_difference,buzzswarm_create,buzzswarm_select companion=hist split=what:6
UNIT(wrong) {
   static const char* N[3] = { "union", "intersection", "difference" };
   setup(); uint32_t w = vf_choose("what", 6), o = vf_choose("op", 3);
   int st;
   ARG[0] = newi(G[2].id); ARG[1] = handle(G[0].id); ARG[2] = handle(G[1].id);
   uint8_t kn[3], vl[3]; int i; for(i = 0; i < 3; ++i) { kn[i] = G[i].known; vl[i] = G[i].val; }
   if(w == 0) { ARG[0] = newnil(); st = method(SW, N[o], 3); }
   else if(w == 1) { ARG[1] = newi(vf_i32("x")); st = method(SW, N[o], 3); }
   else if(w == 2) { ARG[2] = newi(vf_i32("x")); st = method(SW, N[o], 3); }
   else if(w == 3) { ARG[1 + vf_choose("pos", 2)] = newt(); st = method(SW, N[o], 3); }
   else if(w == 4) { st = method(SW, N[o], 2); }
   else { ARG[0] = newnil(); st = method(SW, "create", 1); }
   ENSURES(st == BUZZVM_STATE_ERROR, "a wrong argument is reported");
   ENSURES(nosets() && g_ann == 0, "a refused operation announces nothing");
   for(i = 0; i < 3; ++i) ENSURES(G[i].known == kn[i] && G[i].val == vl[i], "a refused operation changes no membership");
   vf_cover("end");
}
/* ---- execution for a swarm ---- */
static uint32_t g_runs; static int32_t g_seen, g_seen2; static uint32_t g_ss; static int g_nested; static buzzobj_t g_inner, g_fn;
static void look(buzzvm_t v) {
   ++g_runs; g_ss = buzzdarray_size(v->swarmstack);
   g_seen = method(SW, "id", 0) == BUZZVM_STATE_READY && top()->o.type == BUZZTYPE_INT ? top()->i.value : -1;
   ARG[0] = newi(2); g_seen2 = method(SW, "id", 1) == BUZZVM_STATE_READY && top()->o.type == BUZZTYPE_INT ? top()->i.value : -1;
}
static int probe(buzzvm_t v) { look(v); return buzzvm_ret0(v); }
static int probe1(buzzvm_t v) { look(v); buzzvm_pushi(v, 7); return buzzvm_ret1(v); }
static int outer(buzzvm_t v) { ARG[0] = g_fn; method(g_inner, "exec", 1); return buzzvm_ret0(v); }
//@ unit exec fn=buzzswarm_exec,buzzswarm_id,buzzvm_ret0 companion=hist split=script:4,known:2
UNIT(exec) {
   int script = vf_choose("script", 4);
   setup(); uint16_t id = G[0].id; int k = known(id), m = isin(id);
   buzzobj_t t = get_handle(id);
   buzzobj_t f = newcc(script == 3 ? probe1 : probe);
   uint16_t under = vf_u16("under"); int nested = vf_choose("nested", 2);
   if(nested) buzzdarray_push(vm->swarmstack, &under);
   if(script == 1 || script == 2) {  /* function() { probe() } or function() { return probe() } */
      PN = 0; op(BUZZVM_INSTR_NOP); op(BUZZVM_INSTR_PUSHNIL); opi(BUZZVM_INSTR_PUSHCC, buzzvm_function_register(vm, probe)); opi(BUZZVM_INSTR_PUSHI, 0); op(BUZZVM_INSTR_CALLC); op(script == 1 ? BUZZVM_INSTR_RET0 : BUZZVM_INSTR_RET1);
      program(); f = newcn(1);
   }
   uint32_t d = depth(), sy = buzzdarray_size(vm->lsymts); int32_t pc = vm->pc;
   g_runs = 0; ARG[0] = f;
   int st = method(t, "exec", 1);
   if(!k) { ENSURES(st == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_SWARM && g_runs == 0, "executing for an unknown swarm is reported"); }
   else {
      ENSURES(st == BUZZVM_STATE_READY, "executing for a swarm succeeds");
      ENSURES(g_runs == (uint32_t)m, "the function runs once if the robot is a member, otherwise not at all");
      if(m) {
         ENSURES(g_seen == id, "the function sees the identifier of the swarm");
         ENSURES(g_seen2 == (nested ? under : id), "the function sees the parent swarm");
         ENSURES(g_ss == (uint32_t)nested + 1, "the swarm is stacked once");
      }
      ENSURES(buzzdarray_size(vm->swarmstack) == nested && IMPLIES(nested, buzzdarray_get(vm->swarmstack, 0, uint16_t) == under), "the swarm identity is restored afterwards");
      ENSURES(depth() == (int64_t)d + 1 && buzzdarray_size(vm->lsymts) == sy && vm->pc == pc, "the caller continues where it was");
   }
   ENSURES(nosets() && g_ann == 0, "executing changes no membership");
   vf_cover("end");
}
//@ unit swarm_id fn=buzzswarm_id
UNIT(swarm_id) {
   setup(); static uint16_t S[3]; uint32_t i, n = vf_choose("n", 4);
   for(i = 0; i < n; ++i) { S[i] = vf_u16("stacked"); buzzdarray_push(vm->swarmstack, &S[i]); }
   int arg = vf_choose("arg", 2); int32_t a = 1;
   if(arg) { a = vf_i32("a"); ARG[0] = newi(a); }
   ENSURES(method(SW, "id", arg) == BUZZVM_STATE_READY, "swarm.id() succeeds");
   if(n == 0) ENSURES(top()->o.type == BUZZTYPE_NIL, "outside an execution swarm.id() is nil");
   else {
      int32_t p = a < 1 ? 1 : a > (int32_t)n ? (int32_t)n : a;
      uint16_t want = 0; for(i = 0; i < n; ++i) if(vf_fork((int32_t)(n - i) == p)) want = S[i];
      ENSURES(top()->o.type == BUZZTYPE_INT && top()->i.value == want, "swarm.id(n) is the n-th enclosing swarm");
   }
   ENSURES(buzzdarray_size(vm->swarmstack) == n, "asking does not change the swarm stack");
   vf_cover("end");
}
/* ---- bounded: real dictionary and queue ---- */
static uint32_t mask_of(buzzobj_t* H) { uint32_t i, m = 0; for(i = 0; i < 3; ++i) { method(H[i], "in", 0); if(top()->i.value) m |= 1u << i; } return m; }
//@ unit hist fn=buzzswarm_create,buzzswarm_join,buzzswarm_leave,buzzswarm_select,buzzswarm_others,buzzswarm_union,buzzswarm_intersection,buzzswarm_difference,buzzswarm_in,buzzswarm_exec mode=bounded split=start:8,op:10 note="3 swarms with any membership, then 2 operations of 10 kinds on some of them, announcements drained"
static const uint16_t IDS[3] = { 4, 14, 40000 };
static uint32_t step_(buzzobj_t* H, uint32_t m, uint32_t o, uint32_t a, uint32_t b, int* kind, uint32_t* who) {
   uint32_t r = (m >> a) & 1, s = (m >> b) & 1; *kind = 0; *who = a;
   static const char* N[4] = { "union", "intersection", "difference", "" };
   if(o == 0) { method(H[a], "join", 0); r = 1; *kind = BUZZMSG_SWARM_JOIN; }
   else if(o == 1) { method(H[a], "leave", 0); r = 0; *kind = BUZZMSG_SWARM_LEAVE; }
   else if(o == 2) { int32_t c = vf_i32("c"); ARG[0] = newi(c); method(H[a], "select", 1); r = vf_fork(c != 0); *kind = r ? BUZZMSG_SWARM_JOIN : BUZZMSG_SWARM_LEAVE; }
   else if(o == 3) { ARG[0] = newi(IDS[b]); method(H[a], "others", 1); r = !r; *who = b; if(r) *kind = BUZZMSG_SWARM_JOIN; m &= ~(1u << b); return m | (r << b); }
   else if(o == 4) { ARG[0] = newi(IDS[a]); method(SW, "create", 1); }
   else if(o < 8) {
      uint32_t c = 3 - a - b; if(a == b) c = (a + 1) % 3; *who = c;
      ARG[0] = newi(IDS[c]); ARG[1] = H[a]; ARG[2] = H[b]; method(SW, N[o - 5], 3);
      r = o == 5 ? r | s : o == 6 ? r & s : r & !s;
      if(r) *kind = BUZZMSG_SWARM_JOIN;
      return (m & ~(1u << c)) | (r << c);
   }
   else {
      g_runs = 0; g_seen = -7; ARG[0] = newcc(o == 8 ? probe : outer); g_fn = newcc(probe); g_inner = H[b];
      method(H[a], "exec", 1);
      if(o == 8) { ENSURES(g_runs == r && IMPLIES(r, g_seen == IDS[a]), "a function is executed exactly by members, seeing the swarm (history)"); }
      else { ENSURES(g_runs == (r & s) && IMPLIES(r & s, g_seen == IDS[b] && g_seen2 == IDS[a]), "nested executions see both swarms (history)"); }
      ENSURES(buzzdarray_isempty(vm->swarmstack), "the swarm stack is empty after an execution (history)");
      return m;
   }
   return (m & ~(1u << a)) | (r << a);
}
UNIT(hist) {
   vm_ready(1); buzzswarm_register(vm); SW = global("swarm");
   static const uint8_t PA[4] = { 0, 1, 2, 1 }, PB[4] = { 1, 1, 0, 0 };
   buzzobj_t H[3]; uint32_t i, m = vf_choose("start", 8), n;
   for(i = 0; i < 3; ++i) { ARG[0] = newi(IDS[i]); method(SW, "create", 1); H[i] = top(); if((m >> i) & 1) method(H[i], "join", 0); }
   while(!buzzoutmsg_queue_isempty(vm)) buzzoutmsg_queue_next(vm);
   ENSURES(mask_of(H) == m, "created swarms are joined only when asked (history)");
   for(n = 0; n < 2; ++n) {
      uint32_t o = vf_choose("op", 10), p = n ? 3 : vf_choose("pair", 3), a = PA[p], b = PB[p]; int kind; uint32_t who;
      uint32_t m2 = step_(H, m, o, a, b, &kind, &who);
      ENSURES(vm->state == BUZZVM_STATE_READY, "the operation succeeds (history)");
      ENSURES(mask_of(H) == m2, "an operation computes its set function and changes no other swarm (history)");
      int said = 0;
      while(!buzzoutmsg_queue_isempty(vm)) {
         buzzmsg_payload_t p = buzzoutmsg_queue_first(vm); uint16_t id;
         buzzmsg_deserialize_u16(&id, p, 1);
         ENSURES(buzzdarray_size(p) == 3 && id == IDS[who] && buzzmsg_payload_get(p, 0) == kind, "the announcement tells the new membership (history)");
         ++said; buzzoutmsg_queue_next(vm);
      }
      if(kind) ENSURES(said == 1, "a new membership is announced (history)");
      m = m2;
   }
   vf_cover("end");
}
//@ search history
#ifdef VF_NATIVE
SEARCH(history) {
   enum { N = 60 }; static buzzobj_t H[N]; static int kn[N], in[N]; uint32_t i, a, b, c, steps = 10 + vf_rand(300), n = 2 + vf_rand(N - 2); 
   vm_ready(1); buzzswarm_register(vm); SW = global("swarm"); memset(kn, 0, sizeof(kn)); memset(in, 0, sizeof(in));
   uint16_t id[N]; for(i = 0; i < N; ++i) id[i] = i * 10 + 3;
   for(i = 0; i < steps; ++i) {
      uint32_t o = vf_rand(11); int kind = 0, who = a = vf_rand(n); b = vf_rand(n); c = vf_rand(n); int st = 0;
      if(!kn[a] || o == 4) { ARG[0] = newi(id[a]); method(SW, "create", 1); H[a] = top(); kn[a] = 1; }
      else if(o == 0) { method(H[a], "join", 0); in[a] = 1; kind = BUZZMSG_SWARM_JOIN; }
      else if(o == 1) { method(H[a], "leave", 0); in[a] = 0; kind = BUZZMSG_SWARM_LEAVE; }
      else if(o == 2) { int32_t x = vf_rand(3) - 1; ARG[0] = newi(x); method(H[a], "select", 1); in[a] = x != 0; kind = x ? BUZZMSG_SWARM_JOIN : BUZZMSG_SWARM_LEAVE; }
      else if(o == 3) { ARG[0] = newi(id[b]); method(H[a], "others", 1); in[b] = !in[a]; kn[b] = 1; H[b] = top(); who = b; kind = in[b] ? BUZZMSG_SWARM_JOIN : -1; }
      else if(o == 5) { ARG[0] = newi(vf_rand(2) ? 2 : 3); uint16_t dd = ARG[0]->i.value; method(SW, "id", 0); (void)dd; }
      else if(o < 9 && kn[b]) { static const char* NM[3] = { "union", "intersection", "difference" }; ARG[0] = newi(id[c]); ARG[1] = H[a]; ARG[2] = H[b]; method(SW, NM[o - 6], 3); in[c] = o == 6 ? in[a] || in[b] : o == 7 ? in[a] && in[b] : in[a] && !in[b]; kn[c] = 1; H[c] = top(); who = c; kind = in[c] ? BUZZMSG_SWARM_JOIN : -1; }
      else if(o >= 9 && kn[b]) { g_runs = 0; g_seen = -7; ARG[0] = newcc(o == 9 ? probe : outer); g_fn = newcc(probe); g_inner = H[b]; method(H[a], "exec", 1);
         if(o == 9) vf_assert((int)g_runs == in[a] && (!in[a] || g_seen == id[a]), "search: a function is executed exactly by members, seeing the swarm");
         else vf_assert((int)g_runs == (in[a] && in[b]) && (!g_runs || (g_seen == id[b] && g_seen2 == id[a])), "search: nested executions see both swarms"); }
      vf_assert(vm->state == BUZZVM_STATE_READY, "search: the operation succeeds"); (void)st;
      vf_assert(buzzdarray_isempty(vm->swarmstack), "search: the swarm stack is empty after an execution");
      int said = 0;
      while(!buzzoutmsg_queue_isempty(vm)) {
         buzzmsg_payload_t p = buzzoutmsg_queue_first(vm); uint16_t d; buzzmsg_deserialize_u16(&d, p, 1); ++said;
         vf_assert(buzzdarray_size(p) == 3 && d == id[who] && (buzzmsg_payload_get(p, 0) == BUZZMSG_SWARM_JOIN) == (in[who] != 0), "search: the announcement tells the new membership"); buzzoutmsg_queue_next(vm); }
      if(kind > 0) vf_assert(said == 1, "search: a new membership is announced");
      for(a = 0; a < n; ++a) if(kn[a]) { method(H[a], "in", 0); vf_assert(top()->o.type == BUZZTYPE_INT && (top()->i.value != 0) == in[a], "search: an operation computes its set function and changes no other swarm"); buzzvm_pop(vm); }
   }
}
#endif
