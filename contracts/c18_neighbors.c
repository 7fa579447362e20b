/* C18 - the neighbour structure and broadcasts */
#include "each.h"
#include <buzz/buzzneighbors.h>
#include <buzz/buzzswarm.h>
//@ assume the dictionary contract proved in C02, the call contract proved in C10, the queue contracts proved in C16 and C17, the value contract proved in C06 and the membership contract proved in C14 (used by the proof units; real in the bounded ones)
//@ assume memory allocation succeeds
static buzzobj_t NB;
/* neighbours recorded so far: none ever, or any number */
static int setup(void) {
   vm_ready(vf_u16("robot")); buzzneighbors_new(vm); vf_assume(vm->state == BUZZVM_STATE_READY);
   NB = global("neighbors"); PD = NULL;
   if(vf_choose("has", 2)) { buzzneighbors_reset(vm); PD = field(NB, "poses")->t.value; }
   K = int_obj(vf_u16("nbr")); D = raw_obj(BUZZTYPE_TABLE); D->t.value = vf_opaque("data");
   return PD != NULL;
}
static void is_neighbors(buzzobj_t t) {
   ENSURES(t->o.type == BUZZTYPE_TABLE, "the result is a neighbour structure");
   ENSURES(field(t, "get")->o.type == BUZZTYPE_CLOSURE && field(t, "filter")->o.type == BUZZTYPE_CLOSURE && field(t, "kin")->o.type == BUZZTYPE_CLOSURE &&
           field(t, "nonkin")->o.type == BUZZTYPE_CLOSURE && field(t, "foreach")->o.type == BUZZTYPE_CLOSURE && field(t, "map")->o.type == BUZZTYPE_CLOSURE &&
           field(t, "reduce")->o.type == BUZZTYPE_CLOSURE && field(t, "count")->o.type == BUZZTYPE_CLOSURE, "the result has the neighbour methods");
}
/* the result holds the one entry the iteration gave it, or none */
static void holds(buzzobj_t t, int in, buzzobj_t v) {
   is_neighbors(t);
   buzzobj_t p = field(t, "poses");
   ENSURES(t != NB, "the result is a new structure");
   if(in) {
      ENSURES(p->o.type == BUZZTYPE_TABLE && p->t.value == g_dict && g_dict != PD, "the result has its own data");
      ENSURES(g_set == 1 && g_val == v, "the result holds exactly the neighbours it should with their data");
   }
   else ENSURES(g_set == 0, "the result holds no other neighbour");
}
static void iterate(const char* name, int kind) {   /* 0 foreach 1 map 2 filter 3 reduce */
   int has = setup(); each_setup(); if(!has) vf_assume(!g_some);
   CL = ARG[0] = newcc(buzzneighbors_count); g_red = kind == 3; INIT = FIN = ARG[1] = int_obj(vf_i32("init"));
   uint32_t d = depth();
   int st = method(NB, name, g_red ? 2 : 1);
   ENSURES(g_iter == has && g_calls == g_some, "the function is called once for every neighbour");
   if(g_fail) { ENSURES(st == BUZZVM_STATE_ERROR && vm->state == BUZZVM_STATE_ERROR && g_set == 0, "an error in the function stops the iteration"); vf_cover("end"); return; }
   ENSURES(st == BUZZVM_STATE_READY && depth() == (int64_t)d + 1, "the call succeeds");
   if(kind == 0) ENSURES(g_set == 0, "iterating changes nothing");
   else if(kind == 1) holds(top(), g_some, R);
   else if(kind == 2) holds(top(), g_some && vf_fork(truth(R)), D);
   else ENSURES(top() == FIN && g_set == 0, "a reduction returns the last accumulator, or the initial value");
   vf_cover("end");
}
//@ unit foreach fn=buzzneighbors_foreach,neighbor_for_each split=has:2,some:2,fail:2 soft=1 companion=hist
UNIT(foreach) { iterate("foreach", 0); }
//@ unit map fn=buzzneighbors_map,neighbor_map_each split=has:2,some:2,fail:2 soft=1 companion=hist
UNIT(map) { iterate("map", 1); }
//@ unit filter fn=buzzneighbors_filter,neighbor_filter_each split=has:2,some:2,fail:2 soft=1 companion=hist
UNIT(filter) { iterate("filter", 2); }
//@ unit reduce fn=buzzneighbors_reduce,neighbor_reduce split=has:2,some:2,fail:2 soft=1 companion=hist
UNIT(reduce) { iterate("reduce", 3); }
/* kin and nonkin */
static int g_in, g_asked, g_known; static uint16_t g_swarm;
int vf_stub__buzzswarm_members_isrobotin(buzzswarm_members_t m, uint16_t robot, uint16_t swarm) {
   ++g_asked;
   vf_assert(m == vm->swarmmembers && robot == K->i.value, "the neighbour's membership is looked up");
   if(g_known) vf_assert(swarm == g_swarm, "the membership in the current swarm is looked up");
   return g_in;
}
static void kinship(const char* name, int non) {
   int has = setup(); each_setup(); vf_assume(!g_fail && (has || !g_some)); g_asked = 0;
   uint32_t n = vf_choose("n", 3), i; uint16_t s[2];
   for(i = 0; i < n; ++i) { s[i] = vf_u16("swarm"); buzzdarray_push(vm->swarmstack, s + i); }
   int in = g_known = n > 0; g_in = vf_choose("in", 2) ? 1 + vf_u8("yes") : 0;
   if(in) g_swarm = s[n - 1];
   int st = method(NB, name, 0);
   ENSURES(st == BUZZVM_STATE_READY, "the call succeeds");
   if(in) holds(top(), g_some && (non ? !g_in : g_in), D);
   else holds(top(), g_some && !non, D);
   vf_cover("end");
}
//@ unit kin fn=buzzneighbors_kin,neighbor_filter_kin split=has:2,some:2,n:3 soft=1 companion=kin_b
UNIT(kin) { kinship("kin", 0); }
//@ unit nonkin fn=buzzneighbors_nonkin,neighbor_filter_nonkin split=has:2,some:2,n:3 soft=1 companion=kin_b
UNIT(nonkin) { kinship("nonkin", 1); }
/* adding and reading */
static int isf(buzzobj_t o, float v) { return o->o.type == BUZZTYPE_FLOAT && vf_feq(o->f.value, v); }

//@ unit add fn=buzzneighbors_add,buzzneighbors_reset split=has:2 companion=hist
UNIT(add) {
   int has = setup(); each_setup(); vf_assume(!g_some); uint16_t r = vf_u16("rid"); g_anyint = 1;
   float x = vf_f32("distance"), y = vf_f32("azimuth"), z = vf_f32("elevation");
   uint32_t d = depth();
   ENSURES(buzzneighbors_add(vm, r, x, y, z) == BUZZVM_STATE_READY && depth() == (int64_t)d, "a neighbour can be added");
   buzzobj_t p = field(NB, "poses");
   ENSURES(p->o.type == BUZZTYPE_TABLE && (!has || p->t.value == PD), "the other neighbours stay");
   ENSURES(g_set == 1 && g_dict == p->t.value && g_key->i.value == r, "exactly the neighbour with its identifier is recorded");
   ENSURES(g_val->o.type == BUZZTYPE_TABLE && isf(field(g_val, "distance"), x) && isf(field(g_val, "azimuth"), y) && isf(field(g_val, "elevation"), z) && buzzdict_size(g_val->t.value) == 3, "distance and angles are recorded");
   buzzneighbors_reset(vm);
   buzzobj_t q = field(NB, "poses");
   ENSURES(q->o.type == BUZZTYPE_TABLE && q->t.value != p->t.value && buzzdict_size(q->t.value) == 0, "a reset forgets all neighbours");
   vf_cover("end");
}
static int g_listeners, g_listen; static uint16_t g_sid;
const void* vf_stub__buzzdict_rawget(const buzzdict_t dt, const void* key) {
   if(g_listeners && dt == vm->listeners) {
      vf_assert(*(const uint16_t*)key == g_sid, "the listener of the topic is looked up");
      return g_listen ? &CL : NULL;
   }
   if(!dt || dt != PD) return buzzdict_rawget(dt, key);
   buzzobj_t k = *(buzzobj_t*)key;
   vf_assert(k->o.type == BUZZTYPE_INT && k->i.value == K->i.value, "the asked neighbour is looked up");
   return g_some ? &D : NULL;
}
//@ unit get fn=buzzneighbors_get,buzzneighbors_count split=has:2,some:2 companion=hist
UNIT(get) {
   int has = setup(); each_setup(); vf_assume(!g_fail && (has || !g_some));
   uint32_t n = 0; if(has) { n = vf_u16("n"); PD->size = n; }
   ARG[0] = K; int st = method(NB, "get", 1);
   ENSURES(st == BUZZVM_STATE_READY && (g_some ? top() == D || D->o.type == BUZZTYPE_CLOSURE : top()->o.type == BUZZTYPE_NIL), "a neighbour reads back, an unknown one is nil");
   st = method(NB, "count", 0);
   ENSURES(st == BUZZVM_STATE_READY && top()->o.type == BUZZTYPE_INT && top()->i.value == (int32_t)n, "the neighbours are counted");
   vf_cover("end");
}
/* broadcasts */
static int g_bc; static buzzobj_t g_bt, g_bv;
void vf_stub__buzzoutmsg_queue_append_broadcast(buzzvm_t m, buzzobj_t t, buzzobj_t v) { ++g_bc; g_bt = t; g_bv = v; }
static int g_ls, g_lr; static uint16_t g_lid; static buzzobj_t g_lf;
//@ unit broadcast fn=buzzneighbors_broadcast split=tt:7 companion=talk
UNIT(broadcast) {
   setup(); g_bc = 0; uint32_t t = vf_choose("tt", 7);
   buzzobj_t o = t == BUZZTYPE_STRING ? news("topic") : raw_obj(t), v = any_obj("v", "value");
   ARG[0] = o; ARG[1] = v; uint32_t d = depth(); int st = method(NB, "broadcast", 2);
   if(t == BUZZTYPE_STRING) {
      ENSURES(st == BUZZVM_STATE_READY && depth() == (int64_t)d + 1, "a broadcast succeeds");
      ENSURES(g_bc == 1 && g_bt == o && g_bv == v, "the topic and the value are queued once");
   }
   else ENSURES(st == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_TYPE && g_bc == 0, "a topic that is no string is refused");
   vf_cover("end");
}

/* listeners */
static void on_set(const void* key, const void* data) { ++g_ls; g_lid = *(const uint16_t*)key; g_lf = *(buzzobj_t*)data; }
int vf_stub__buzzdict_remove(buzzdict_t dt, const void* key) {
   if(dt != g_hookdict || !dt) return buzzdict_remove(dt, key);
   ++g_lr; g_lid = *(const uint16_t*)key; return vf_choose("there", 2);
}
static buzzobj_t topic(uint32_t t) { buzzobj_t o = raw_obj(t); if(t == BUZZTYPE_STRING) { o->s.value.sid = vf_u16("sid"); o->s.value.str = vf_opaque("text"); } return o; }
//@ unit listen fn=buzzneighbors_listen,buzzneighbors_ignore split=tt:7,tf:7 companion=talk
UNIT(listen) {
   setup(); g_ls = g_lr = 0; uint32_t t = vf_choose("tt", 7), u = vf_choose("tf", 7);
   buzzobj_t o = topic(t), f = u == BUZZTYPE_CLOSURE ? newcc(buzzneighbors_count) : raw_obj(u);
   g_hookdict = vm->listeners; g_sethook = on_set;
   ARG[0] = o; ARG[1] = f; int st = method(NB, "listen", 2), ok = t == BUZZTYPE_STRING && u == BUZZTYPE_CLOSURE;
   if(ok) ENSURES(st == BUZZVM_STATE_READY && g_ls == 1 && g_lr == 0 && g_lid == o->s.value.sid && g_lf == f, "the function becomes the listener of exactly its topic");
   else ENSURES(st == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_TYPE && g_ls == 0 && g_lr == 0, "a wrong topic or function is refused");
   vf_cover("end");
}
//@ unit ignore fn=buzzneighbors_ignore split=tt:7 companion=talk
UNIT(ignore) {
   setup(); g_ls = g_lr = 0; uint32_t t = vf_choose("tt", 7); buzzobj_t o = topic(t);
   g_hookdict = vm->listeners; g_sethook = on_set;
   ARG[0] = o; int st = method(NB, "ignore", 1);
   if(t == BUZZTYPE_STRING) ENSURES(st == BUZZVM_STATE_READY && g_ls == 0 && g_lr == 1 && g_lid == o->s.value.sid, "exactly the listener of the topic is removed");
   else ENSURES(st == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_TYPE && g_ls == 0 && g_lr == 0, "a wrong topic is refused");
   vf_cover("end");
}
/* one broadcast received */
static int g_dn, g_got; static int64_t g_p1, g_p2; static buzzobj_t TOPIC, VAL; static uint16_t g_from;
int64_t vf_stub__buzzobj_deserialize(buzzobj_t* data, buzzmsg_payload_t buf, uint32_t pos, buzzvm_t m) {
   if(++g_dn == 1) { vf_assert(pos == 1, "the topic is read first"); *data = TOPIC; return g_p1; }
   vf_assert(g_dn == 2 && pos == (uint64_t)g_p1, "the value is read after the topic");
   *data = VAL; return g_p2;
}
static int on_call(buzzvm_t m, uint32_t argc) {
   ++g_got;
   vf_assert(argc == 3 && buzzvm_stack_top(m) >= 4 && buzzvm_stack_at(m, 4) == CL, "the listener of the topic is called with three arguments");
   vf_assert(buzzvm_stack_at(m, 3) == TOPIC && buzzvm_stack_at(m, 2) == VAL, "the listener gets the topic and the value");
   vf_assert(buzzvm_stack_at(m, 1)->o.type == BUZZTYPE_INT && buzzvm_stack_at(m, 1)->i.value == g_from, "the listener gets the sender's identifier");
   if(vf_choose("err", 2)) { buzzvm_seterror(m, BUZZVM_ERROR_TYPE, NULL); return m->state; }
   buzzvm_pop(m); buzzvm_pop(m); buzzvm_pop(m); buzzvm_pop(m); buzzvm_pushnil(m);
   return m->state;
}
//@ unit deliver fn=buzzvm_process_inmsgs split=tt:7,listen:2 companion=talk
UNIT(deliver) {
   vm_ready(1); uint32_t t = vf_choose("tt", 7); g_dn = g_got = 0; g_hook = on_call; g_listeners = 1;
   TOPIC = topic(t); g_sid = TOPIC->s.value.sid; VAL = any_obj("v", "value"); CL = raw_obj(BUZZTYPE_CLOSURE);
   g_p1 = vf_choose("bad", 2) ? -1 : 2 + (int64_t)vf_u16("p1"); g_p2 = vf_choose("badv", 2) ? -1 : 5; g_listen = vf_choose("listen", 2);
   buzzmsg_payload_t m = buzzmsg_payload_new(4); buzzmsg_serialize_u8(m, BUZZMSG_BROADCAST);
   g_from = vf_u16("from"); buzzinmsg_queue_append(vm, g_from, m);
   uint32_t d = depth();
   buzzvm_process_inmsgs(vm);
   ENSURES(g_got == (g_p1 >= 0 && t == BUZZTYPE_STRING && g_listen && g_p2 >= 0), "the listener is called exactly once for a broadcast of its topic");
   if(vm->state == BUZZVM_STATE_READY) ENSURES(depth() == (int64_t)d, "delivering leaves the stack as it was");
   vf_cover("end");
}

/* bounded: the real structure */
static const uint16_t ID[4] = { 0, 5, 15, 65535 };
static float DI[4]; static uint32_t mask; static int seen[4]; static int cbres[4]; static int ncb;
static int which(int32_t id) { int i; for(i = 0; i < 4; ++i) if(ID[i] == id) return i; return -1; }
static int cb(buzzvm_t m) {                       /* function(rid, data [, acc]) */
   buzzvm_lload(m, 1); int i = top()->o.type == BUZZTYPE_INT ? which(top()->i.value) : -1;
   buzzvm_lload(m, 2);
   ++ncb; vf_assert(i >= 0, "the function gets the identifier of a neighbour");
   ++seen[i];
   vf_assert(isf(field(top(), "distance"), DI[i]), "the function gets the neighbour's own data");
   if(buzzvm_lnum(m) > 2) { buzzvm_lload(m, 3); vf_assert(top()->o.type == BUZZTYPE_INT, "the function gets the accumulator"); int32_t a = top()->i.value; buzzvm_pushi(m, a + (1 << (4 * i)) * (1 + cbres[i])); }
   else if(cbres[i] == 2) buzzvm_pushnil(m);
   else buzzvm_pushi(m, cbres[i]);
   return buzzvm_ret1(m);
}
static void check_set(buzzobj_t t, uint32_t ms, int mapped) {
   int i, n = 0; uint32_t d;
   for(i = 0; i < 4; ++i) {
      ARG[0] = newi(ID[i]); d = depth();
      ENSURES(method(t, "get", 1) == BUZZVM_STATE_READY && depth() == (int64_t)d + 1, "a neighbour can be looked up");
      if(ms >> i & 1) {
         ++n;
         if(mapped) ENSURES(cbres[i] == 2 ? top()->o.type == BUZZTYPE_NIL : top()->o.type == BUZZTYPE_INT && top()->i.value == cbres[i], "mapping gives the function's result for each neighbour");
         else ENSURES(top()->o.type == BUZZTYPE_TABLE && isf(field(top(), "distance"), DI[i]), "each neighbour has its own data");
      }
      else ENSURES(top()->o.type == BUZZTYPE_NIL, "no other neighbour is found");
   }
   ENSURES(method(t, "count", 0) == BUZZVM_STATE_READY && top()->o.type == BUZZTYPE_INT && top()->i.value == n, "the neighbours are counted");
}
static void populate(void) {
   int i; vm_ready(1); buzzneighbors_new(vm); NB = global("neighbors");
   mask = vf_choose("mask", 17);
   for(i = 0; i < 4; ++i) { DI[i] = vf_f32("d"); seen[i] = 0; cbres[i] = i < 3 ? i : 1; }
   for(i = 3; i >= 0; --i) if(mask >> i & 1) vf_assume(buzzneighbors_add(vm, ID[i], DI[i], 0.5f, vf_f32("e")) == BUZZVM_STATE_READY);
   if(mask == 16) { buzzneighbors_reset(vm); mask = 0; }
   ncb = 0;
}
//@ unit hist fn=buzzneighbors_add,buzzneighbors_reset,buzzneighbors_get,buzzneighbors_count,buzzneighbors_foreach,buzzneighbors_map,buzzneighbors_filter,buzzneighbors_reduce mode=bounded split=mask:17,op:5 note="every subset of 4 neighbours with any distances; one query of each kind, with a function returning 0, 1 and nil"
UNIT(hist) {
   populate(); uint32_t o = vf_choose("op", 5), m = mask; int i; buzzobj_t f = newcc(cb);
   if(o == 0) {
      check_set(NB, m, 0);
      if(m) { DI[0] = 7.5f; buzzneighbors_add(vm, ID[0], DI[0], 1.0f, 2.0f); check_set(NB, m | 1, 0); buzzneighbors_reset(vm); check_set(NB, 0, 0); }
      vf_cover("end"); return;
   }
   ARG[0] = f; ARG[1] = newi(1 << 20);
   static const char* NM[5] = { "", "foreach", "map", "filter", "reduce" };
   uint32_t d = depth();
   ENSURES(method(NB, NM[o], o == 4 ? 2 : 1) == BUZZVM_STATE_READY && depth() == (int64_t)d + 1, "the call succeeds");
   for(i = 0; i < 4; ++i) ENSURES(seen[i] == (m >> i & 1), "the function is called once for every neighbour");
   buzzobj_t r = top();
   if(o == 2) check_set(r, m, 1);
   if(o == 3) check_set(r, m & 10, 0);
   if(o == 4) { int32_t x = 1 << 20; for(i = 0; i < 4; ++i) if(m >> i & 1) x += (1 << (4 * i)) * (1 + cbres[i]); ENSURES(r->o.type == BUZZTYPE_INT && r->i.value == x, "a reduction combines every neighbour once"); }
   check_set(NB, m, 0);
   vf_cover("end");
}
//@ unit kin_b fn=buzzneighbors_kin,buzzneighbors_nonkin,buzzswarm_members_isrobotin mode=bounded split=mask:17,ss:3 note="every subset of 4 neighbours, two of which announced swarm 3; no swarm, swarm 3, swarm 9 inside swarm 3"
UNIT(kin_b) {
   populate(); uint32_t n = vf_choose("ss", 3), m = mask, mem = 2 | 8; uint16_t a = 3, b = 9;
   buzzswarm_members_join(vm->swarmmembers, ID[1], 3); buzzswarm_members_join(vm->swarmmembers, ID[3], 3);
   if(n > 0) buzzdarray_push(vm->swarmstack, &a);
   if(n > 1) buzzdarray_push(vm->swarmstack, &b);
   ENSURES(method(NB, "kin", 0) == BUZZVM_STATE_READY, "the call succeeds");
   buzzobj_t k = top();
   ENSURES(method(NB, "nonkin", 0) == BUZZVM_STATE_READY, "the call succeeds");
   buzzobj_t x = top();
   if(n == 0) { check_set(k, m, 0); check_set(x, 0, 0); }
   else { uint32_t in = n == 1 ? m & mem : 0; check_set(k, in, 0); check_set(x, m & ~in, 0); }
   vf_cover("end");
}
static int nheard, h_topic, h_val, h_from;
static int heard(buzzvm_t m) {
   ++nheard;
   buzzvm_lload(m, 1); h_topic = top()->o.type == BUZZTYPE_STRING ? (strcmp(top()->s.value.str, "one") == 0 ? 1 : 2) : 0;
   buzzvm_lload(m, 2); h_val = top()->o.type == BUZZTYPE_INT ? top()->i.value : -7;
   buzzvm_lload(m, 3); h_from = top()->o.type == BUZZTYPE_INT ? top()->i.value : -7;
   return buzzvm_ret0(m);
}
//@ unit talk fn=buzzneighbors_broadcast,buzzneighbors_listen,buzzneighbors_ignore,buzzvm_process_inmsgs mode=bounded split=topic:2,mode:6 note="a broadcast of any integer on one of two topics, heard by a robot that listens to none, one, both, replaced its listener, or ignores one again"
UNIT(talk) {
   static const char* TP[2] = { "one", "two" };
   uint16_t from = vf_u16("from"); vm_ready(from); buzzneighbors_new(vm); NB = global("neighbors");
   int32_t v = vf_i32("value"); uint32_t t = vf_choose("topic", 2), mode = vf_choose("mode", 6), i;
   ARG[0] = news(TP[t]); ARG[1] = newi(v);
   ENSURES(method(NB, "broadcast", 2) == BUZZVM_STATE_READY, "a broadcast succeeds");
   ENSURES(buzzoutmsg_queue_size(vm) == 1, "a broadcast is queued once");
   buzzmsg_payload_t m = buzzoutmsg_queue_first(vm);
   vm_ready(77); buzzneighbors_new(vm); NB = global("neighbors"); nheard = 0;
   uint32_t on = 0; buzzobj_t f = newcc(heard), g = newcc(buzzneighbors_count);
   #define LISTEN(x, fn) (ARG[0] = news(TP[x]), ARG[1] = (fn), vf_assume(method(NB, "listen", 2) == BUZZVM_STATE_READY), on |= 1u << (x))
   #define IGNORE(x) (ARG[0] = news(TP[x]), vf_assume(method(NB, "ignore", 1) == BUZZVM_STATE_READY), on &= ~(1u << (x)))
   if(mode == 1) LISTEN(0, f);
   if(mode == 2) { LISTEN(0, f); LISTEN(1, f); }
   if(mode == 3) { LISTEN(1, g); LISTEN(1, f); }
   if(mode == 4) { LISTEN(0, f); LISTEN(1, f); IGNORE(0); }
   if(mode == 5) { IGNORE(1); LISTEN(1, f); IGNORE(1); LISTEN(0, f); IGNORE(0); }
   buzzinmsg_queue_append(vm, from, m);
   uint32_t d = depth();
   buzzvm_process_inmsgs(vm);
   ENSURES(vm->state == BUZZVM_STATE_READY && depth() == (int64_t)d, "delivering leaves the stack as it was");
   ENSURES(nheard == (int)(on >> t & 1), "the listener is called exactly once for a broadcast of its topic");
   if(nheard) ENSURES(h_topic == 1 + (int)t && h_val == v && h_from == from, "the listener gets the topic, the value and the sender");
   vf_cover("end");
}
//@ search history
#ifdef VF_NATIVE
enum { SN = 200 }; static int32_t SI[SN]; static float SD[SN]; static int SS[SN], SR[SN], sn;
static int scb(buzzvm_t m) {
   int i; buzzvm_lload(m, 1); for(i = 0; i < sn && !(top()->o.type == BUZZTYPE_INT && SI[i] == top()->i.value); ++i); vf_assert(i < sn, "search: the function gets the identifier of a neighbour"); ++SS[i];
   buzzvm_lload(m, 2); vf_assert(isf(field(top(), "distance"), SD[i]), "search: the function gets the neighbour's own data");
   if(buzzvm_lnum(m) > 2) { buzzvm_lload(m, 3); buzzvm_pushi(m, (int32_t)((uint32_t)top()->i.value + (uint32_t)(i + 1) * (i + 1))); }
   else if(SR[i] == 2) buzzvm_pushnil(m); else buzzvm_pushi(m, SR[i]);
   return buzzvm_ret1(m);
}
static void sset(buzzobj_t t, int what) {          /* 0 all, 1 mapped, 2 filtered, 3 kin, 4 nonkin */
   int i, n = 0;
   for(i = 0; i < sn; ++i) {
      ARG[0] = newi(SI[i]); method(t, "get", 1); buzzobj_t g = top(); buzzvm_pop(vm); int in = what == 2 ? SR[i] == 1 : what == 3 ? i % 3 == 0 : what == 4 ? i % 3 != 0 : 1; n += in;
      if(!in) vf_assert(g->o.type == BUZZTYPE_NIL, "search: no other neighbour is found");
      else if(what == 1) vf_assert(SR[i] == 2 ? g->o.type == BUZZTYPE_NIL : g->o.type == BUZZTYPE_INT && g->i.value == SR[i], "search: mapping gives the function's result for each neighbour");
      else vf_assert(g->o.type == BUZZTYPE_TABLE && isf(field(g, "distance"), SD[i]), "search: each neighbour has its own data"); }
   method(t, "count", 0); vf_assert(top()->o.type == BUZZTYPE_INT && top()->i.value == n, "search: the neighbours are counted"); buzzvm_pop(vm);
}
SEARCH(history) {
   int i; vm_ready(1); buzzneighbors_new(vm); NB = global("neighbors"); uint32_t o, rounds = 1 + vf_rand(3); static const char* NM[5] = { "", "foreach", "map", "filter", "reduce" };
   while(rounds--) {
      buzzneighbors_reset(vm); sn = vf_rand(vf_rand(2) ? 12 : SN); int mul = vf_rand(2) ? 1 : 300;
      for(i = 0; i < sn; ++i) { SI[i] = (i * mul) & 0xffff; SD[i] = vf_rand(1000) * 0.5f; SS[i] = 0; SR[i] = vf_rand(3); vf_assert(buzzneighbors_add(vm, SI[i], SD[i], 0.1f, 0.2f) == BUZZVM_STATE_READY, "search: a neighbour is added"); }
      for(i = 0; i < sn; i += 1 + vf_rand(9)) { SD[i] += 1; buzzneighbors_add(vm, SI[i], SD[i], 0.3f, 0.2f); }
      sset(NB, 0);
      o = 1 + vf_rand(6);
      if(o < 5) {
         ARG[0] = newcc(scb); ARG[1] = newi(0); vf_assert(method(NB, NM[o], o == 4 ? 2 : 1) == BUZZVM_STATE_READY, "search: the call succeeds"); buzzobj_t r = top();
         for(i = 0; i < sn; ++i) vf_assert(SS[i] == 1, "search: the function is called once for every neighbour");
         if(o == 2) sset(r, 1); if(o == 3) sset(r, 2);
         if(o == 4) { uint32_t x = 0; for(i = 0; i < sn; ++i) x += (uint32_t)(i + 1) * (i + 1); vf_assert(r->o.type == BUZZTYPE_INT && (uint32_t)r->i.value == x, "search: a reduction combines every neighbour once"); }
      }
      else { uint16_t s = 20 + rounds; for(i = 0; i < sn; ++i) { buzzswarm_members_join(vm->swarmmembers, SI[i], 9); if(i % 3 == 0) buzzswarm_members_join(vm->swarmmembers, SI[i], s); else if(mul == 1) buzzswarm_members_leave(vm->swarmmembers, SI[i], s); } buzzdarray_push(vm->swarmstack, &s);
         method(NB, "kin", 0); sset(top(), 3); method(NB, "nonkin", 0); sset(top(), 4); buzzdarray_pop(vm->swarmstack); }
      sset(NB, 0);
   }
}
#endif
