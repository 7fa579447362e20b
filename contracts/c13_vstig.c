/* C13 - virtual stigmergy.
 * The proof units take a tuple of any stamp, writer and value (an integer or
 * nil; values are only passed on) on a robot of any identifier, and a message
 * about it of any stamp, writer and value.  Tuples at equal stamps are ordered:
 * a value beats a removal, then the higher writer wins; the winner of every
 * exchange is the greater of the two tuples, so any robots that received the same
 * tuples, in any order and however often, hold the same one (max is associative,
 * commutative and idempotent). */
#include "vm_call.h"
#include <buzz/buzzvstig.h>
#include <buzz/buzzinmsg.h>
//@ assume stamps stay below 65535 (they are 16 bits wide); a writer never stamps two values of a tuple equally
//@ assume the dictionary and message contracts proved in C02, C06, C16 and C17 (the proof units record the messages appended to the queue); memory allocation succeeds
struct tuple { int has, nil; uint16_t ts, rb; int32_t v; };
static uint32_t g_n; static int g_kind; static uint16_t g_id; static int32_t g_key; static struct tuple g_msg;
void vf_stub__buzzoutmsg_queue_append_vstig(buzzvm_t m, int type, uint16_t id, const buzzobj_t key, const buzzvstig_elem_t data) {
   ++g_n; g_kind = type; g_id = id; g_key = key->o.type == BUZZTYPE_INT ? key->i.value : -1;
   g_msg.has = 1; g_msg.nil = data->data->o.type == BUZZTYPE_NIL; g_msg.v = g_msg.nil ? 0 : data->data->i.value;
   g_msg.ts = data->timestamp; g_msg.rb = data->robot;
}
#define VS 3
#define KEY 5
static buzzobj_t ST, H;                    /* stigmergy table and the space */
static void setup(uint16_t robot) {
   vm_ready(robot);
   buzzvstig_register(vm); ST = global("stigmergy");
   ARG[0] = newi(VS); vf_assume(method(ST, "create", 1) == BUZZVM_STATE_READY);
   H = top(); buzzvm_pop(vm);
   g_n = 0;
}
static buzzvstig_t space(void) { uint16_t id = VS; return *buzzdict_get(vm->vstigs, &id, buzzvstig_t); }
static struct tuple* any_tuple(int writer0) {
   static struct tuple t;
   t.has = 1; t.nil = vf_choose("nil", 2); t.v = t.nil ? 0 : vf_i32("value"); t.ts = vf_u16("stamp"); t.rb = vf_u16("writer");
   return &t;
}
static buzzobj_t val_(const struct tuple* t) { return t->nil ? newnil() : newi(t->v); }
#define val(t) val_(&(t))
#define store(k, t) store_(k, &(t))
static void store_(int32_t key, const struct tuple* t) {
   buzzobj_t k = newi(key); buzzvstig_elem_t e = buzzvstig_elem_new(val_(t), t->ts, t->rb);
   buzzdict_set(space()->data, &k, &e);
}
static struct tuple* held(int32_t key) {
   static struct tuple t; memset(&t, 0, sizeof t);
   buzzobj_t k = newi(key);
   const buzzvstig_elem_t* e = buzzvstig_fetch(space(), &k);
   if(!e) return &t;
   t.has = 1; t.nil = (*e)->data->o.type == BUZZTYPE_NIL; t.v = t.nil ? 0 : (*e)->data->i.value; t.ts = (*e)->timestamp; t.rb = (*e)->robot;
   if((*e)->data->o.type != BUZZTYPE_NIL && (*e)->data->o.type != BUZZTYPE_INT) t.has = 2;
   return &t;
}
#define same(a, b) same_(&(a), &(b))
static int same_(const struct tuple* a, const struct tuple* b) { return a->has == b->has && a->nil == b->nil && a->ts == b->ts && a->rb == b->rb && a->v == b->v; }
#define receive(kind, id, key, t) receive_(kind, id, key, &(t))
static void receive_(int kind, uint16_t id, int32_t key, const struct tuple* t) {
   buzzmsg_payload_t p = buzzmsg_payload_new(32); buzzobj_t k = newi(key);
   buzzvstig_elem_t e = buzzvstig_elem_new(val_(t), t->ts, t->rb);
   buzzmsg_serialize_u8(p, kind); buzzmsg_serialize_u16(p, id);
   buzzvstig_elem_serialize(p, k, e); free(e);
   buzzinmsg_queue_append(vm, vf_u16("sender"), p);
   buzzvm_process_inmsgs(vm);
}
/* a is preferred over b */
#define better(a, b) better_(&(a), &(b))
static int better_(const struct tuple* a, const struct tuple* b) {
   if(vf_fork(a->ts != b->ts)) return vf_fork(a->ts > b->ts);
   if(a->nil != b->nil) return b->nil;
   return vf_fork(a->rb > b->rb);
}
static struct tuple L, M;
static int haveL;
static void two(uint16_t robot) {
   setup(robot);
   L = *any_tuple(0); M = *any_tuple(0); haveL = vf_choose("known", 2);
   if(haveL) {
      vf_assume(!(L.ts == M.ts && L.rb == M.rb) || (L.nil == M.nil && L.v == M.v));
      store(KEY, L);
   }
   struct tuple o = { 1, 0, 7, 2, 1234 }; store(KEY + 10, o);          /* another tuple, in the same bucket */
}
static void other_kept(void) { struct tuple o = { 1, 0, 7, 2, 1234 }; ENSURES(same(*held(KEY + 10), o), "other tuples are not affected"); }
//@ unit recv_put fn=buzzvm_process_inmsgs,buzzvstig_onconflict_call companion=hist split=nil:2,nil#1:2,known:2
UNIT(recv_put) {
   two(vf_u16("robot"));
   uint32_t d = depth();
   receive(BUZZMSG_VSTIG_PUT, VS, KEY, M);
   struct tuple w = M; int news = 1;
   if(haveL && !better(M, L)) { w = L; }
   if(haveL && vf_fork(M.ts < L.ts)) news = 0;
   if(haveL && vf_fork(M.ts == L.ts && M.rb == L.rb)) news = 0;
   ENSURES(same(*held(KEY), w), "a robot keeps the newer tuple, at equal stamps the preferred one");
   ENSURES(g_n == (uint32_t)news, "a newer or conflicting tuple is passed on, an old or known one is not");
   if(news) ENSURES(g_kind == BUZZMSG_VSTIG_PUT && g_id == VS && g_key == KEY && same(g_msg, w), "the tuple kept is passed on as an update");
   other_kept();
   ENSURES(vm->state == BUZZVM_STATE_READY && depth() == d, "handling a message leaves the machine as it was");
   vf_cover("end");
}
//@ unit recv_query fn=buzzvm_process_inmsgs,buzzvstig_onconflict_call companion=hist split=nil:2,nil#1:2,known:2
UNIT(recv_query) {
   two(vf_u16("robot"));
   uint32_t d = depth();
   receive(BUZZMSG_VSTIG_QUERY, VS, KEY, M);
   if(!haveL) {
      if(M.nil) {
         ENSURES(!held(KEY)->has, "a query about a tuple nobody wrote stores nothing");
         ENSURES(g_n == 1 && g_kind == BUZZMSG_VSTIG_QUERY && g_id == VS && g_key == KEY && same(g_msg, M), "a query a robot cannot answer is passed on");
      }
      else {
         ENSURES(same(*held(KEY), M), "a query that carries an unknown value is learned from");
         ENSURES(g_n == 1 && g_kind == BUZZMSG_VSTIG_PUT && g_id == VS && g_key == KEY && same(g_msg, M), "a learned tuple is passed on");
      }
   }
   else {
      struct tuple w = better(M, L) ? M : L;
      int eq = vf_fork(M.ts == L.ts && M.rb == L.rb);
      ENSURES(same(*held(KEY), w), "a queried robot keeps the newer tuple, at equal stamps the preferred one");
      ENSURES(g_n == (uint32_t)!eq, "a query is answered unless both know the same");
      if(!eq) ENSURES(g_kind == BUZZMSG_VSTIG_PUT && g_id == VS && g_key == KEY && same(g_msg, w), "a query is answered with the newer tuple");
   }
   other_kept();
   ENSURES(vm->state == BUZZVM_STATE_READY && depth() == d, "handling a message leaves the machine as it was (query)");
   vf_cover("end");
}
//@ unit recv_unknown fn=buzzvm_process_inmsgs companion=hist
UNIT(recv_unknown) {
   two(vf_u16("robot"));
   int q = vf_choose("kind", 2);
   receive(q ? BUZZMSG_VSTIG_QUERY : BUZZMSG_VSTIG_PUT, VS + 1, KEY, M);
   ENSURES(haveL ? same(*held(KEY), L) : !held(KEY)->has, "a message about another space changes nothing");
   if(q) ENSURES(g_n == 1 && g_kind == BUZZMSG_VSTIG_QUERY && g_id == VS + 1 && g_key == KEY && same(g_msg, M), "a query about an unknown space is passed on");
   other_kept();
   vf_cover("end");
}
/* ---- what a script does ---- */
//@ unit put fn=buzzvstig_put companion=hist split=known:2,nil:2,nil#1:2
UNIT(put) {
   two(vf_u16("robot")); vf_assume(!haveL || L.ts < 65535);
   ARG[0] = newi(KEY); ARG[1] = val(M);
   uint32_t d = depth();
   ENSURES(method(H, "put", 2) == BUZZVM_STATE_READY && depth() == (int64_t)d + 1, "put() succeeds");
   struct tuple w = M; w.rb = vm->robot; w.ts = haveL ? L.ts + 1 : 1;
   if(!M.nil) {
      struct tuple h = *held(KEY);
      ENSURES(h.has == 1 && !h.nil && h.v == M.v && h.rb == vm->robot, "a written tuple holds the value and the writer");
      ENSURES(haveL ? h.ts > L.ts : h.ts > 0, "a written tuple is newer than the one it replaces");
      ENSURES(g_n == 1 && g_kind == BUZZMSG_VSTIG_PUT && g_id == VS && g_key == KEY && same(g_msg, h), "a written tuple is announced");
   }
   else if(haveL) {
      struct tuple h = *held(KEY);
      ENSURES(!h.has || h.nil, "writing nil removes the tuple");
      ENSURES(g_n == 1 && g_kind == BUZZMSG_VSTIG_PUT && g_id == VS && g_key == KEY && g_msg.nil && g_msg.rb == vm->robot && g_msg.ts > L.ts, "a removal is announced newer than the tuple it removes");
   }
   else ENSURES(!held(KEY)->has || held(KEY)->nil, "removing an unknown tuple leaves it unknown");
   other_kept();
   vf_cover("end");
}
//@ unit get fn=buzzvstig_get companion=hist split=known:2,nil:2
UNIT(get) {
   two(vf_u16("robot"));
   ARG[0] = newi(KEY);
   ENSURES(method(H, "get", 1) == BUZZVM_STATE_READY, "get() succeeds");
   buzzobj_t o = top();
   if(haveL && !L.nil) ENSURES(o->o.type == BUZZTYPE_INT && o->i.value == L.v, "get() returns the value held");
   else ENSURES(o->o.type == BUZZTYPE_NIL, "get() of an unknown or removed tuple is nil");
   ENSURES(g_n == 1 && g_kind == BUZZMSG_VSTIG_QUERY && g_id == VS && g_key == KEY, "get() asks the neighbours");
   if(haveL) ENSURES(same(g_msg, L), "the query carries what the robot holds");
   else ENSURES(g_msg.nil && g_msg.ts == 0, "the query of an unknown tuple is older than any tuple");
   ENSURES(haveL ? same(*held(KEY), L) : !held(KEY)->has, "get() changes nothing");
   other_kept();
   vf_cover("end");
}
/* ---- conflict managers ---- */
static uint32_t c_calls, l_calls; static struct tuple c_l, c_r, l_l; static int c_bad; static uint32_t c_pick; static int32_t c_v; static uint16_t c_rb;
static struct tuple* table_tuple(buzzobj_t t) {
   static struct tuple r; memset(&r, 0, sizeof r);
   if(t->o.type != BUZZTYPE_TABLE) return &r;
   buzzobj_t a = field(t, "robot"), b = field(t, "data"), c = field(t, "timestamp");
   if(a->o.type != BUZZTYPE_INT || c->o.type != BUZZTYPE_INT) return &r;
   r.has = 1; r.nil = b->o.type == BUZZTYPE_NIL; r.v = r.nil ? 0 : b->i.value; r.rb = a->i.value; r.ts = c->i.value;
   return &r;
}
static buzzobj_t local(uint32_t i) { buzzvm_lload(vm, i); buzzobj_t o = top(); buzzvm_pop(vm); return o; }
static int on_conflict(buzzvm_t m) {
   ++c_calls;
   if(buzzvm_lnum(vm) != 3 || local(1)->o.type != BUZZTYPE_INT || local(1)->i.value != KEY) c_bad = 1;
   c_l = *table_tuple(local(2)); c_r = *table_tuple(local(3));
   if(c_pick < 2) buzzvm_push(vm, local(2 + c_pick));
   else if(c_pick == 2) {               /* a tuple of its own */
      buzzvm_pusht(vm);
      buzzvm_dup(vm); buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1)); buzzvm_pushi(vm, c_rb); buzzvm_tput(vm);
      buzzvm_dup(vm); buzzvm_pushs(vm, buzzvm_string_register(vm, "data", 1)); buzzvm_pushi(vm, c_v); buzzvm_tput(vm);
   }
   else if(c_pick == 3) buzzvm_pushnil(vm);
   else { buzzvm_pusht(vm); }
   return buzzvm_ret1(vm);
}
static int on_lost(buzzvm_t m) {
   ++l_calls;
   if(buzzvm_lnum(vm) != 2 || local(1)->o.type != BUZZTYPE_INT || local(1)->i.value != KEY) c_bad = 1;
   l_l = *table_tuple(local(2));
   return buzzvm_ret0(vm);
}
static void conflict(int kind) {
   two(vf_u16("robot")); vf_assume(haveL && L.ts == M.ts && L.rb != M.rb);
   int own = vf_choose("own", 2); c_pick = own ? vf_choose("pick", 5) : 5;
   if(own) { ARG[0] = newcc(on_conflict); vf_assume(method(H, "onconflict", 1) == BUZZVM_STATE_READY); }
   ARG[0] = newcc(on_lost); vf_assume(method(H, "onconflictlost", 1) == BUZZVM_STATE_READY);
   c_calls = l_calls = 0; c_bad = 0; c_v = vf_i32("resolved"); c_rb = vf_u16("resolver");
   uint32_t d = depth();
   receive(kind, VS, KEY, M);
   struct tuple w = better(M, L) ? M : L;
   if(own) {
      w = c_pick == 0 ? L : c_pick == 1 ? M : L;
      if(c_pick == 2) { w.nil = 0; w.v = c_v; w.rb = c_rb; w.has = 1; w.ts = L.ts; }
      ENSURES(c_calls == 1 && !c_bad && same(c_l, L) && same(c_r, M), "the conflict function is called once with the key and both tuples");
   }
   ENSURES(same(*held(KEY), w), "the tuple the conflict function chose is kept");
   if(c_pick < 3 || c_pick == 5) {
      ENSURES(g_n == 1 && g_kind == BUZZMSG_VSTIG_PUT && g_id == VS && g_key == KEY && same(g_msg, w), "the outcome of a conflict is announced");
      int lost = vf_fork(L.rb == vm->robot) && !vf_fork(w.rb == vm->robot);
      ENSURES(l_calls == (uint32_t)lost, "the losing writer is told, nobody else is");
      if(lost) ENSURES(!c_bad && same(l_l, L), "the losing writer is told what it lost");
   }
   else ENSURES(l_calls == 0 && g_n == 0, "a conflict function that chooses nothing changes nothing");
   other_kept();
   ENSURES(vm->state == BUZZVM_STATE_READY && depth() == d, "a conflict leaves the machine as it was");
   vf_cover("end");
}
//@ unit conflict_put fn=buzzvm_process_inmsgs,buzzvstig_onconflict_call,buzzvstig_onconflictlost_call,buzzvstig_onconflict,buzzvstig_onconflictlost companion=hist split=known:2,nil:2,nil#1:2,own:2
UNIT(conflict_put) { conflict(BUZZMSG_VSTIG_PUT); }
//@ unit conflict_query fn=buzzvm_process_inmsgs,buzzvstig_onconflict_call,buzzvstig_onconflictlost_call companion=hist split=known:2,nil:2,nil#1:2,own:2
UNIT(conflict_query) { conflict(BUZZMSG_VSTIG_QUERY); }
//@ unit spaces fn=buzzvstig_create,buzzvstig_size companion=hist
UNIT(spaces) {
   setup(vf_u16("robot"));
   struct tuple a = *any_tuple(0); store(KEY, a);
   method(H, "size", 0);
   ENSURES(top()->o.type == BUZZTYPE_INT && top()->i.value == 1, "size() counts the tuples");
   ARG[0] = newi(VS + 1); ENSURES(method(ST, "create", 1) == BUZZVM_STATE_READY, "a second space is created");
   buzzobj_t h2 = top();
   method(h2, "size", 0); ENSURES(top()->i.value == 0, "a new space is empty");
   ENSURES(same(*held(KEY), a), "creating a space leaves the others alone");
   ARG[0] = newi(KEY); ARG[1] = newi(4); method(h2, "put", 2);
   ENSURES(same(*held(KEY), a), "spaces are independent");
   ENSURES(g_id == VS + 1, "a tuple is announced for its own space");
   ARG[0] = newi(VS); method(ST, "create", 1);
   ENSURES(!held(KEY)->has, "creating a space again empties it");
   vf_cover("end");
}
static uint32_t f_n; static struct tuple f_t[4]; static int32_t f_k[4];
static int on_each(buzzvm_t m) {
   if(f_n < 4) { f_k[f_n] = local(1)->i.value; f_t[f_n].v = local(2)->i.value; f_t[f_n].rb = local(3)->i.value; }
   ++f_n; return buzzvm_ret0(vm);
}
//@ unit foreach fn=buzzvstig_foreach companion=hist
UNIT(foreach) {
   setup(vf_u16("robot"));
   static const int32_t KS[3] = { 5, 15, 8 }; struct tuple t[3]; uint32_t i, j, n = vf_choose("n", 4);
   for(i = 0; i < n; ++i) { t[i] = *any_tuple(0); t[i].nil = 0; vf_assume(!t[i].nil); store(KS[i], t[i]); }
   f_n = 0; ARG[0] = newcc(on_each);
   ENSURES(method(H, "foreach", 1) == BUZZVM_STATE_READY, "foreach() succeeds");
   ENSURES(f_n == n, "foreach() visits every tuple once");
   for(i = 0; i < n; ++i) {
      uint32_t hit = 0;
      for(j = 0; j < n; ++j) if(f_k[j] == KS[i]) { ++hit; ENSURES(f_t[j].v == t[i].v && f_t[j].rb == t[i].rb, "foreach() passes key, value and writer"); }
      ENSURES(hit == 1, "foreach() visits every key once");
   }
   vf_cover("end");
}
//@ unit restamp fn=buzzvstig_put mode=bounded note="a tuple written, removed and written again"
UNIT(restamp) {
   setup(9);
   uint16_t last = 0; int i;
   for(i = 0; i < 3; ++i) {
      ARG[0] = newi(KEY); ARG[1] = i == 1 ? newnil() : newi(vf_i32("v"));
      method(H, "put", 2);
      /* the last message about the key */
      uint16_t id; int64_t p; buzzobj_t k; struct buzzvstig_elem_s e; buzzvstig_elem_t ep = &e; buzzmsg_payload_t m = buzzoutmsg_queue_first(vm);
      p = buzzmsg_deserialize_u16(&id, m, 1); buzzvstig_elem_deserialize(&k, &ep, m, p, vm);
      ENSURES(id == VS && k->i.value == KEY, "a write is announced (restamp)");
      if(i == 1) ENSURES(e.timestamp > last, "a removal is newer than the tuple");
      else ENSURES(e.timestamp > last, "a tuple written again after its removal is newer than the removal");
      last = e.timestamp; buzzoutmsg_queue_next(vm);
   }
   vf_cover("end");
}
/* ---- bounded: two machines exchange their real messages ---- */
static buzzvm_t VM[2]; static buzzobj_t HH[2];
static void on(int i) { vm = VM[i]; H = HH[i]; }
static void deliver(int from) {          /* the next message of one robot reaches the other, perhaps twice, or is lost */
   on(from);
   if(buzzoutmsg_queue_isempty(vm)) return;
   buzzmsg_payload_t p = buzzoutmsg_queue_first(vm), q = NULL; 
   buzzmsg_payload_t c = buzzmsg_payload_new(buzzdarray_size(p)); int64_t i;
   for(i = 0; i < buzzdarray_size(p); ++i) buzzmsg_serialize_u8(c, buzzmsg_payload_get(p, i));
   uint16_t me = vm->robot;
   buzzoutmsg_queue_next(vm);
   on(1 - from); buzzinmsg_queue_append(vm, me, c); buzzvm_process_inmsgs(vm);
}
static int equal(void) { struct tuple a, b; on(0); a = *held(KEY); on(1); b = *held(KEY); return same(a, b); }
//@ unit hist fn=buzzvstig_put,buzzvstig_get,buzzvm_process_inmsgs,buzzoutmsg_queue_append_vstig mode=bounded split=first:2,op:4,op#1:4 note="two robots with a tuple of either writer, 3 operations (write or read by either robot, or a message delivered), then all messages exchanged"
UNIT(hist) {
   int i, n; static const uint16_t RB[2] = { 4, 9 };
   for(i = 0; i < 2; ++i) { setup(RB[i]); VM[i] = vm; HH[i] = H; }
   int32_t last[2] = { 0, 0 };
   on(vf_choose("first", 2)); ARG[0] = newi(KEY); ARG[1] = newi(vf_i32("v")); method(H, "put", 2);
   for(n = 0; n < 3; ++n) {
      uint32_t o = vf_choose("op", 4), r = vf_choose("who", 2);
      if(o < 2) { on(r); ARG[0] = newi(KEY); ARG[1] = newi(vf_i32("v")); method(H, "put", 2);
         struct tuple h = *held(KEY); ENSURES(h.has && h.v == ARG[1]->i.value && h.rb == RB[r], "a robot reads its own write (history)"); if(o == 1) deliver(r); }
      else if(o == 2) { on(r); ARG[0] = newi(KEY); method(H, "get", 1); }
      else deliver(r);
   }
   for(n = 0; n < 4; ++n) { deliver(0); deliver(1); }
   on(0); ENSURES(buzzoutmsg_queue_isempty(vm), "the exchange of messages ends (history)");
   on(1); ENSURES(buzzoutmsg_queue_isempty(vm), "the exchange of messages ends (history)");
   ENSURES(equal(), "robots that exchanged their messages hold the same tuple (history)");
   vf_cover("end");
}
//@ search history
#ifdef VF_NATIVE
/* several robots write and read many tuples; messages reach some robots, late, or none; then everybody reads everything */
SEARCH(history) {
   enum { NR = 4, NK = 24, NQ = 4000 }; static buzzvm_t V[NR]; static buzzobj_t HN[NR]; static buzzdarray_t Q[NR][NQ]; static uint16_t from[NR][NQ]; static uint32_t qa[NR], qb[NR];
   uint32_t i, r, t, k, steps = 5 + vf_rand(250), nr = 2 + vf_rand(NR - 1), nk = 1 + vf_rand(NK), loss = vf_rand(80), wr = 20 + vf_rand(60), phase;
   static struct tuple own[NR][NK];
   for(r = 0; r < nr; ++r) { setup(3 + 5 * r); V[r] = vm; HN[r] = H; qa[r] = qb[r] = 0; memset(own[r], 0, sizeof(own[r])); }
   for(phase = 0; phase < 3; ++phase) {
      if(phase) { loss = 0; for(r = 0; r < nr; ++r) for(k = 0; k < nk; ++k) { vm = V[r]; H = HN[r]; ARG[0] = newi(k * 3); method(H, "get", 1); buzzvm_pop(vm); } }
      for(i = 0; i < (phase ? 100000 : steps); ++i) {
         if(!phase) {
            r = vf_rand(nr); vm = V[r]; H = HN[r]; k = vf_rand(nk);
            if(vf_rand(100) < wr) { int32_t v = vf_rand(1u << 31); ARG[0] = newi(k * 3); ARG[1] = newi(v); method(H, "put", 2); struct tuple h = *held(k * 3); vf_assert(h.has && !h.nil && h.v == v && h.rb == vm->robot && h.ts > own[r][k].ts, "search: a robot reads its own write"); own[r][k] = h; }
            else { ARG[0] = newi(k * 3); method(H, "get", 1); struct tuple h = *held(k * 3); vf_assert(h.has ? top()->i.value == h.v : top()->o.type == BUZZTYPE_NIL, "search: get() returns the value held"); }
         }
         int busy = 0;
         for(r = 0; r < nr; ++r) { vm = V[r]; H = HN[r];
            if((phase || vf_rand(2)) && !buzzoutmsg_queue_isempty(vm)) { busy = 1; buzzmsg_payload_t p = buzzoutmsg_queue_first(vm);
               for(t = 0; t < nr; ++t) if(t != r && vf_rand(100) >= loss && qb[t] < NQ) { uint32_t n = vf_rand(8) == 0 ? 2 : 1; while(n-- && qb[t] < NQ) { buzzmsg_payload_t c = buzzmsg_payload_new(buzzdarray_size(p) + 1); int64_t x; for(x = 0; x < buzzdarray_size(p); ++x) buzzmsg_serialize_u8(c, buzzmsg_payload_get(p, x)); from[t][qb[t]] = vm->robot; Q[t][qb[t]++] = c; } }
               buzzoutmsg_queue_next(vm); }
         }
         for(r = 0; r < nr; ++r) { vm = V[r]; H = HN[r]; uint32_t take = phase ? 100000 : vf_rand(4);
            struct tuple was[NK]; for(k = 0; k < nk; ++k) was[k] = *held(k * 3);
            while(take-- && qa[r] < qb[r]) { busy = 1; buzzinmsg_queue_append(vm, from[r][qa[r]], Q[r][qa[r]]); ++qa[r]; if(vf_rand(3)) buzzvm_process_inmsgs(vm); }
            buzzvm_process_inmsgs(vm);
            for(k = 0; k < nk; ++k) { struct tuple h = *held(k * 3); vf_assert(!was[k].has || (h.has && h.ts >= was[k].ts), "search: a tuple is never replaced by an older one"); } }
         for(r = 0; r < nr; ++r) if(qb[r] > NQ - 100) { if(phase) return; busy = 0; i = 1000000; break; }
         if(phase && !busy) break;
      }
      if(!phase && i > steps) return;
      if(phase) for(k = 0; k < nk; ++k) { vm = V[0]; struct tuple a = *held(k * 3); for(r = 1; r < nr; ++r) { vm = V[r]; struct tuple b = *held(k * 3); vf_assert(same(a, b), "search: robots that exchanged their messages hold the same tuple"); } }
   }
}
#endif
