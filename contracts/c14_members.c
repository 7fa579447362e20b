/* C14 - what a robot knows about the swarms of its neighbours.
 *
 * The proof units start from a record of any length holding a set of swarm
 * identifiers; "the others keep theirs" is proved for an arbitrary witness.
 * "x is (not) in the set" is a quantified statement about the record: it is
 * instantiated at the element a loop looks at. */
#include "vm_state.h"
#include <buzz/buzzswarm.h>
#include <buzz/buzzinmsg.h>
//@ assume a record holds no swarm twice (established by every operation when announced lists hold no swarm twice)
//@ assume the dictionary and array contracts proved in C02 and C01; memory allocation succeeds
static buzzswarm_members_t M; static buzzdarray_t A; static uint32_t AN;
static uint16_t R, S, X, OR, OS;        /* robot, swarm operated on, witness swarm, other robot and its swarm */
static uint32_t g_at, g_wit;            /* their position, or none */
#define NONE 0xffffffffu
static uint16_t sw(uint32_t i) { return buzzdarray_get(A, i, uint16_t); }
static void any_members(void) {
   M = buzzswarm_members_new();
   R = vf_u16("robot"); OR = vf_u16("other"); OS = vf_u16("oswarm"); vf_assume(R != OR);
   S = vf_u16("swarm");
   A = buzzdarray_new(1, sizeof(uint16_t), NULL);
   free(A->data);
   AN = vf_u32("n"); vf_assume(AN < (1u << 20));
   if(vf_bounded()) vf_assume(AN <= 3);
   A->size = AN; A->capacity = AN + 16;
   A->data = vf_buf("swarms", (uint64_t)(AN + 16) * 2);
   g_at = g_wit = NONE;
   if(vf_choose("in", 2)) { g_at = vf_u32("at"); vf_assume(g_at < AN); vf_assume(sw(g_at) == S); }
   if(vf_choose("witness", 2)) { g_wit = vf_u32("wat"); vf_assume(g_wit < AN && g_wit != g_at); X = sw(g_wit); vf_assume(X != S); }
}
static void inst(uint32_t i) { if(i < AN) vf_assume(i == g_at || sw(i) != S); }
int vf_inv__buzzswarm_members_join__0(uint32_t* i) { return *i <= A->size && IMPLIES(g_at != NONE, *i <= g_at); }
void vf_mod__buzzswarm_members_join__0(uint32_t* i) { inst(*i); }
int vf_inv__buzzswarm_members_leave__0(uint32_t* i) { return *i <= A->size && IMPLIES(g_at != NONE, *i <= g_at); }
void vf_mod__buzzswarm_members_leave__0(uint32_t* i) { inst(*i); }
int vf_inv__buzzswarm_members_isrobotin__0(uint32_t* i) { return *i <= A->size && IMPLIES(g_at != NONE, *i <= g_at); }
void vf_mod__buzzswarm_members_isrobotin__0(uint32_t* i) { inst(*i); }
static void known(void) {
   buzzswarm_members_refresh(M, R, A);
   buzzdarray_t o = buzzdarray_new(1, sizeof(uint16_t), NULL);
   buzzdarray_push(o, &OS);
   buzzswarm_members_refresh(M, OR, o);
}
static int other_kept(void) {
   const buzzdarray_t* e; const void** p;
   p = (const void**)buzzdict_rawget(M, &OR);
   if(!p) return 0;
   e = (const buzzdarray_t*)*p;     /* the record starts with its swarms */
   return (*e)->size == 1 && buzzdarray_get(*e, 0, uint16_t) == OS;
}
static buzzdarray_t record(void) {
   const void** p = (const void**)buzzdict_rawget(M, &R);
   return p ? *(const buzzdarray_t*)*p : NULL;
}
//@ unit join fn=buzzswarm_members_join,buzzswarm_members_refresh companion=hist
UNIT(join) {
   any_members(); known();
   ENSURES(record() == A, "a list replaces the record");
   buzzswarm_members_join(M, R, S);
   ENSURES(record() == A, "joining updates the record of the robot");
   if(g_at != NONE) ENSURES(A->size == AN && sw(g_at) == S, "joining a swarm twice equals joining once");
   else ENSURES(A->size == (int64_t)AN + 1 && sw(AN) == S, "joining adds the swarm");
   if(g_wit != NONE) ENSURES(sw(g_wit) == X, "joining keeps the other swarms of the robot");
   ENSURES(other_kept() && buzzdict_size(M) == 2, "joining leaves other robots alone");
   vf_cover("end");
}
//@ unit join_new fn=buzzswarm_members_join companion=hist
UNIT(join_new) {
   any_members();
   buzzdarray_t o = buzzdarray_new(1, sizeof(uint16_t), NULL); buzzdarray_push(o, &OS);
   buzzswarm_members_refresh(M, OR, o);
   buzzswarm_members_join(M, R, S);
   buzzdarray_t r = record();
   ENSURES(r && r->size == 1 && buzzdarray_get(r, 0, uint16_t) == S, "the first join of a robot makes its record");
   ENSURES(other_kept() && buzzdict_size(M) == 2, "joining leaves other robots alone (new robot)");
   vf_cover("end");
}
//@ unit leave fn=buzzswarm_members_leave companion=hist
UNIT(leave) {
   any_members(); known();
   buzzswarm_members_leave(M, R, S);
   uint32_t m = AN - (g_at != NONE);
   if(vf_fork(m == 0)) {
      ENSURES(record() == NULL && buzzdict_size(M) == 1, "leaving the last swarm removes the record");
   }
   else {
      ENSURES(record() == A && buzzdict_size(M) == 2, "leaving updates the record of the robot");
      ENSURES(A->size == m, "leaving removes the swarm and nothing else");
      if(g_wit != NONE) ENSURES(sw(g_wit - (g_at != NONE && g_at < g_wit)) == X, "leaving keeps the other swarms of the robot");
      uint32_t i = vf_u32("any"); vf_assume(i < m);
      inst(g_at != NONE && i >= g_at ? i + 1 : i);
   }
   ENSURES(other_kept(), "leaving leaves other robots alone");
   vf_cover("end");
}
//@ unit leave_unknown fn=buzzswarm_members_leave companion=hist
UNIT(leave_unknown) {
   any_members();
   buzzdarray_t o = buzzdarray_new(1, sizeof(uint16_t), NULL); buzzdarray_push(o, &OS);
   buzzswarm_members_refresh(M, OR, o);
   buzzswarm_members_leave(M, R, S);
   ENSURES(record() == NULL && buzzdict_size(M) == 1, "a leave of an unknown robot makes no record");
   ENSURES(other_kept(), "leaving leaves other robots alone (unknown robot)");
   vf_cover("end");
}
//@ unit isin fn=buzzswarm_members_isrobotin companion=hist
UNIT(isin) {
   any_members(); known();
   ENSURES((buzzswarm_members_isrobotin(M, R, S) != 0) == (g_at != NONE), "a robot is in a swarm exactly if its record says so");
   ENSURES(A->size == AN && IMPLIES(g_at != NONE, sw(g_at) == S), "asking changes nothing");
   uint16_t u = vf_u16("unknown"); vf_assume(u != R && u != OR);
   ENSURES(!buzzswarm_members_isrobotin(M, u, S), "an unknown robot is in no swarm");
   vf_cover("end");
}
/* ---- bounded: through received messages and the public queries ---- */
static const uint16_t RS[2] = { 7, 17 };                 /* in the same bucket */
static const uint16_t SS[3] = { 1, 300, 65535 };
static void send(uint16_t from, int kind, uint16_t s) {
   buzzmsg_payload_t p = buzzmsg_payload_new(8);
   buzzmsg_serialize_u8(p, kind); buzzmsg_serialize_u16(p, s);
   buzzinmsg_queue_append(vm, from, p);
}
static void send_list(uint16_t from, uint32_t mask) {
   buzzmsg_payload_t p = buzzmsg_payload_new(8); uint32_t k, n = 0;
   for(k = 0; k < 3; ++k) n += (mask >> k) & 1;
   buzzmsg_serialize_u8(p, BUZZMSG_SWARM_LIST); buzzmsg_serialize_u16(p, n);
   for(k = 0; k < 3; ++k) if((mask >> k) & 1) buzzmsg_serialize_u16(p, SS[k]);
   buzzinmsg_queue_append(vm, from, p);
}
static void expect(uint32_t m0, uint32_t m1) {
   uint32_t k;
   for(k = 0; k < 3; ++k) {
      ENSURES((buzzswarm_members_isrobotin(vm->swarmmembers, RS[0], SS[k]) != 0) == ((m0 >> k) & 1), "a robot is in exactly the swarms it announced (history)");
      ENSURES((buzzswarm_members_isrobotin(vm->swarmmembers, RS[1], SS[k]) != 0) == ((m1 >> k) & 1), "a robot is in exactly the swarms it announced (history, other robot)");
   }
   ENSURES(!buzzswarm_members_isrobotin(vm->swarmmembers, 27, SS[0]), "a silent robot is in no swarm (history)");
}
static uint32_t event(uint32_t r, uint32_t m) {
   uint32_t k = vf_choose("kind", 14);     /* 3 joins, 3 leaves, 8 lists */
   if(k < 3) { send(RS[r], BUZZMSG_SWARM_JOIN, SS[k]); return m | (1u << k); }
   if(k < 6) { send(RS[r], BUZZMSG_SWARM_LEAVE, SS[k - 3]); return m & ~(1u << (k - 3)); }
   send_list(RS[r], k - 6);
   return k - 6;
}
//@ unit hist fn=buzzvm_process_inmsgs,buzzswarm_members_join,buzzswarm_members_leave,buzzswarm_members_refresh,buzzswarm_members_isrobotin,buzzswarm_members_update mode=bounded split=list:8,kind:14 note="a robot known with any of 8 memberships, then 2 of 14 announcements from it, and one from a second robot, checked after each"
UNIT(hist) {
   vm = buzzvm_new(1); vm->state = BUZZVM_STATE_READY;
   uint32_t m0 = vf_choose("list", 8), m1 = 2;
   send_list(RS[0], m0); send(RS[1], BUZZMSG_SWARM_JOIN, SS[1]);
   buzzvm_process_inmsgs(vm);
   expect(m0, m1);
   m0 = event(0, m0); buzzvm_process_inmsgs(vm); expect(m0, m1);
   if(vf_choose("who", 2)) m1 = event(1, m1); else m0 = event(0, m0);
   buzzvm_process_inmsgs(vm); expect(m0, m1);
   vf_cover("end");
}
//@ unit same_step fn=buzzvm_process_inmsgs mode=bounded split=kind:14 note="two announcements of one robot received in the same step"
UNIT(same_step) {
   vm = buzzvm_new(1); vm->state = BUZZVM_STATE_READY;
   uint32_t m0 = event(0, 0); m0 = event(0, m0);
   buzzvm_process_inmsgs(vm); expect(m0, 0);
   vf_cover("end");
}
//@ unit age fn=buzzswarm_members_update mode=bounded split=ref:4 note="one record refreshed by any kind of announcement at steps 1, 20 or 50, one never"
UNIT(age) {
   static const int AT[3] = { 1, 20, 50 };
   vm = buzzvm_new(1); vm->state = BUZZVM_STATE_READY;
   int i, kind = vf_choose("ref", 4), at = AT[vf_choose("at", 3)], left;
   send_list(RS[0], 3); send_list(RS[1], 3);
   /* the step a message is received in counts */
   for(i = 0; i < at; ++i) { buzzvm_process_inmsgs(vm); expect(3, 3); }
   uint32_t m = 3;
   if(kind == 0) send(RS[0], BUZZMSG_SWARM_JOIN, SS[0]);
   if(kind == 1) { send(RS[0], BUZZMSG_SWARM_LEAVE, SS[0]); m = 2; }
   if(kind == 2) { send_list(RS[0], 5); m = 5; }
   if(kind == 3) send(RS[0], BUZZMSG_SWARM_LEAVE, SS[2]);
   for(; i < 50; ++i) { buzzvm_process_inmsgs(vm); expect(m, 3); }
   for(; i < at + 50; ++i) { buzzvm_process_inmsgs(vm); expect(m, 0); }
   buzzvm_process_inmsgs(vm); expect(0, 0);
   /* a forgotten robot can be known again */
   send(RS[0], BUZZMSG_SWARM_JOIN, SS[1]); buzzvm_process_inmsgs(vm); expect(2, 0);
   vf_cover("end");
}
#ifdef VF_NATIVE
//@ search history
SEARCH(history) {
   enum { NR = 24, NS = 40 }; static uint8_t in[NR][NS]; static int heard[NR]; uint32_t i, r, s, k, steps = 10 + vf_rand(300), nr = 1 + vf_rand(NR), ns = 1 + vf_rand(NS), quiet = vf_rand(95); int rs[NR]; 
   memset(in, 0, sizeof(in)); for(r = 0; r < NR; ++r) { heard[r] = 0; rs[r] = r * 10 + 2; }
   vm = buzzvm_new(1); vm->state = BUZZVM_STATE_READY;
   for(i = 0; i < steps; ++i) {
      if(vf_rand(30) == 0) quiet = vf_rand(100);
      for(k = vf_rand(5); k > 0; --k) if(vf_rand(100) >= quiet) {
         r = vf_rand(nr); s = vf_rand(ns); uint32_t o = vf_rand(3);
         if(o == 0) { send(rs[r], BUZZMSG_SWARM_JOIN, s * 3); in[r][s] = 1; heard[r] = 0; }
         else if(o == 1) { send(rs[r], BUZZMSG_SWARM_LEAVE, s * 3); in[r][s] = 0; heard[r] = 0; }
         else { buzzmsg_payload_t p = buzzmsg_payload_new(8); uint32_t n = 0, pc = vf_rand(101); for(s = 0; s < ns; ++s) n += in[r][s] = vf_rand(100) < pc; buzzmsg_serialize_u8(p, BUZZMSG_SWARM_LIST); buzzmsg_serialize_u16(p, n); for(s = ns; s > 0; --s) if(in[r][s - 1]) buzzmsg_serialize_u16(p, (s - 1) * 3); buzzinmsg_queue_append(vm, rs[r], p); heard[r] = 0; } }
      buzzvm_process_inmsgs(vm);
      for(r = 0; r < nr; ++r) if(++heard[r] > 50) memset(in[r], 0, NS);
      for(r = 0; r < nr; ++r) for(s = 0; s < ns; ++s) {
         int got = buzzswarm_members_isrobotin(vm->swarmmembers, rs[r], s * 3) != 0;
         vf_assert(got == in[r][s], "search: a robot is in exactly the swarms it announced, for 50 steps"); }
   }
}
#endif
