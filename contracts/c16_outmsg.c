/* C16 - the outgoing message queue.
 * Messages are only ever made through the real append functions, so their
 * layout does not matter here.  Queues of any length: an array whose first
 * (or matching) message is a real one and whose others are arbitrary. */
#include "vm_state.h"
//@ assume the array contract proved in C01; memory allocation succeeds; the other messages of a queue of any length are opaque
static void new_vm(void) { vm = buzzvm_new(9); vm->state = BUZZVM_STATE_READY; }
static const uint8_t PRIO[6] = { BUZZMSG_BROADCAST, BUZZMSG_SWARM_LIST, BUZZMSG_VSTIG_PUT, BUZZMSG_VSTIG_QUERY, BUZZMSG_SWARM_JOIN, BUZZMSG_SWARM_LEAVE };
static buzzvstig_elem_t elem(int32_t val, uint16_t ts, uint16_t robot) {
   buzzvstig_elem_t e = malloc(sizeof(struct buzzvstig_elem_s));
   e->data = int_obj(val); e->timestamp = ts; e->robot = robot; return e;
}
static void put_u16(buzzmsg_payload_t p, uint16_t x) { buzzmsg_serialize_u16(p, x); }
/* append one message of the kind to v; returns the bytes it must produce */
static buzzmsg_payload_t one(buzzvm_t v, uint32_t kind, uint16_t id, int32_t key, int32_t val, uint16_t ts) {
   buzzmsg_payload_t e = buzzmsg_payload_new(40);
   buzzmsg_serialize_u8(e, kind);
   switch(kind) {
      case BUZZMSG_BROADCAST:
         buzzoutmsg_queue_append_broadcast(v, int_obj(key), int_obj(val));
         buzzobj_serialize(e, int_obj(key)); buzzobj_serialize(e, int_obj(val)); break;
      case BUZZMSG_SWARM_LIST: {
         buzzdict_t d = buzzdict_new(1, sizeof(uint16_t), sizeof(uint8_t), buzzdict_uint16keyhash, buzzdict_uint16keycmp, NULL);
         uint8_t in = 1, out = 0; uint16_t id2 = id + 1, id3 = id + 2;
         buzzdict_set(d, &id, &in); buzzdict_set(d, &id2, &out); buzzdict_set(d, &id3, &in);
         buzzoutmsg_queue_append_swarm_list(v, d);
         put_u16(e, 2); put_u16(e, id); put_u16(e, id3); break;
      }
      case BUZZMSG_VSTIG_PUT: case BUZZMSG_VSTIG_QUERY: {
         buzzvstig_elem_t el = elem(val, ts, 3);
         buzzoutmsg_queue_append_vstig(v, kind, id, int_obj(key), el);
         put_u16(e, id); buzzobj_serialize(e, int_obj(key)); buzzobj_serialize(e, int_obj(val)); put_u16(e, ts); put_u16(e, 3); break;
      }
      default:
         buzzoutmsg_queue_append_swarm_joinleave(v, kind, id);
         put_u16(e, id);
   }
   return e;
}
static void same_bytes(buzzmsg_payload_t a, buzzmsg_payload_t b, const char* what) {
   vf_assert(a != NULL && buzzmsg_payload_size(a) == buzzmsg_payload_size(b), what);
   for(int64_t i = 0; i < buzzmsg_payload_size(b); ++i) vf_assert(buzzmsg_payload_get(a, i) == buzzmsg_payload_get(b, i), what);
}
static void* mk_opaque(uint64_t i) { return vf_opaque("msg"); }
static buzzdarray_t K; static uint32_t KN; static void *F, *X; static uint32_t px;
/* queue of kind: any length, first message is the one appended through the API */
static void grow(uint32_t kind) {
   K = vm->outmsgs->queues[kind];
   F = buzzdarray_get(K, 0, void*);
   any_size(K, "k.size", "k.cap", "k", mk_opaque);
   KN = K->size; vf_assume(KN > 0);
   vf_preset(K->data, 0, F);
   X = NULL; px = vf_u32("px");
   if(vf_fork(px > 0 && px < KN)) { X = vf_opaque("x"); vf_preset(K->data, px, X); } else px = 0;
}
/* lower priority queues hold any number of messages */
static uint32_t LN[6];
static void lower(uint32_t prio) {
   static const char* LS[6] = { "l0", "l1", "l2", "l3", "l4", "l5" }; static const char* LC[6] = { "c0", "c1", "c2", "c3", "c4", "c5" };
   static const char* LD[6] = { "d0", "d1", "d2", "d3", "d4", "d5" };
   for(uint32_t i = 0; i < 6; ++i) {
      if(i > prio) any_size(vm->outmsgs->queues[PRIO[i]], LS[i], LC[i], LD[i], mk_opaque);
      LN[i] = vm->outmsgs->queues[PRIO[i]]->size;
   }
}
//@ unit next fn=buzzoutmsg_queue_next,buzzoutmsg_queue_first,buzzoutmsg_queue_size,buzzoutmsg_destroy split=prio:6 companion=hist
UNIT(next) {
   new_vm();
   uint32_t prio = vf_choose("prio", 6);
   uint16_t id = vf_u16("id"); int32_t val = vf_i32("val");
   buzzmsg_payload_t e = one(vm, PRIO[prio], 5, 3, val, vf_u16("ts"));
   grow(PRIO[prio]); lower(prio);
   uint64_t total = 0; for(uint32_t i = 0; i < 6; ++i) total += LN[i];
   ENSURES(buzzoutmsg_queue_size(vm) == total, "the size is the number of messages waiting");
   ENSURES(!buzzoutmsg_queue_isempty(vm), "a queue with messages is not empty");
   same_bytes(buzzoutmsg_queue_first(vm), e, "the next message is the oldest one of the most urgent kind");
   ENSURES(K->size == KN && buzzoutmsg_queue_size(vm) == total, "looking at the next message keeps it");
   buzzoutmsg_queue_next(vm);
   ENSURES(K->size == (int64_t)KN - 1, "dropping removes exactly one message");
   if(px) ENSURES(buzzdarray_get(K, px - 1, void*) == X, "the other messages of the kind keep their order");
   for(uint32_t i = 0; i < 6; ++i) if(i != prio) ENSURES(vm->outmsgs->queues[PRIO[i]]->size == LN[i], "messages of other kinds stay");
   ENSURES(!vf_live(F), "a dropped message is released");
   vf_cover("end");
}
//@ unit empty fn=buzzoutmsg_queue_next,buzzoutmsg_queue_first,buzzoutmsg_queue_size
UNIT(empty) {
   new_vm();
   ENSURES(buzzoutmsg_queue_size(vm) == 0 && buzzoutmsg_queue_isempty(vm), "a new queue is empty");
   ENSURES(buzzoutmsg_queue_first(vm) == NULL, "an empty queue has no next message");
   buzzoutmsg_queue_next(vm);
   ENSURES(buzzoutmsg_queue_size(vm) == 0, "dropping from an empty queue does nothing");
   vf_cover("end");
}
//@ unit broadcast fn=buzzoutmsg_queue_append_broadcast
UNIT(broadcast) {
   new_vm();
   int32_t a = vf_i32("a"), b = vf_i32("b"), c = vf_i32("c");
   one(vm, BUZZMSG_BROADCAST, 0, 1, 2, 0); grow(BUZZMSG_BROADCAST);
   buzzobj_t t = int_obj(a), v = int_obj(b);
   buzzoutmsg_queue_append_broadcast(vm, t, v);
   ENSURES(K->size == (int64_t)KN + 1, "a broadcast is queued");
   ENSURES(buzzdarray_get(K, 0, void*) == F, "the oldest broadcast stays first");
   if(px) ENSURES(buzzdarray_get(K, px, void*) == X, "broadcasts already waiting are kept");
   /* the queued message does not depend on what happens to the values later */
   v->i.value = c; t->i.value = c;
   void* m = buzzdarray_get(K, KN, void*);
   ((void**)K->data)[0] = m;
   buzzmsg_payload_t e = buzzmsg_payload_new(40);
   buzzmsg_serialize_u8(e, BUZZMSG_BROADCAST); buzzobj_serialize(e, int_obj(a)); buzzobj_serialize(e, int_obj(b));
   same_bytes(buzzoutmsg_queue_first(vm), e, "a broadcast carries the topic and value it was queued with");
   vf_cover("end");
}

/* join/leave announcements: queues of any length; the message about ID, if any, is at g_at */
static uint16_t ID; static uint32_t g_at, g_at2, jl_kind, jl_size;
static void* jl(uint32_t kind, uint16_t id) {       /* a real announcement */
   struct buzzvm_s* v = calloc(1, sizeof(struct buzzvm_s));
   v->outmsgs = buzzoutmsg_queue_new();
   buzzoutmsg_queue_append_swarm_joinleave(v, kind, id);
   return buzzdarray_get(v->outmsgs->queues[kind], 0, void*);
}
static void* mk_join(uint64_t i) { uint16_t x = vf_u16("oid"); vf_assume(x != ID); return jl(BUZZMSG_SWARM_JOIN, x); }
static void* mk_leave(uint64_t i) { uint16_t x = vf_u16("oid"); vf_assume(x != ID); return jl(BUZZMSG_SWARM_LEAVE, x); }
int vf_inv__append_to_swarm_queue__0(uint32_t* i, int* found) {
   return g_at == 0xffffffff ? !*found : *found ? *i == g_at + 1 : *i <= g_at;
}
int vf_inv__remove_from_swarm_queue__0(uint32_t* i) { return IMPLIES(g_at2 != 0xffffffff, *i <= g_at2); }
//@ unit joinleave fn=buzzoutmsg_queue_append_swarm_joinleave,append_to_swarm_queue,remove_from_swarm_queue split=leave:2,have:2,opp:2 companion=hist
UNIT(joinleave) {
   new_vm();
   ID = vf_u16("id");
   uint32_t lv = vf_choose("leave", 2), have = vf_choose("have", 2), opp = vf_choose("opp", 2);
   uint32_t kind = lv ? BUZZMSG_SWARM_LEAVE : BUZZMSG_SWARM_JOIN, other = lv ? BUZZMSG_SWARM_JOIN : BUZZMSG_SWARM_LEAVE;
   buzzdarray_t A = vm->outmsgs->queues[kind], O = vm->outmsgs->queues[other];
   any_size(A, "a.size", "a.cap", "a", lv ? mk_leave : mk_join);
   any_size(O, "o.size", "o.cap", "o", lv ? mk_join : mk_leave);
   uint32_t an = A->size, on = O->size; void *ma = NULL, *mo = NULL;
   g_at = g_at2 = 0xffffffff;
   if(have) { g_at = vf_u32("at"); vf_assume(g_at < an); ma = jl(kind, ID); vf_preset(A->data, g_at, ma); }
   if(opp) { g_at2 = vf_u32("at2"); vf_assume(g_at2 < on); mo = jl(other, ID); vf_preset(O->data, g_at2, mo); }
   uint32_t w = vf_u32("w"), w2 = vf_u32("w2"); void *mw = NULL, *mw2 = NULL;
   if(vf_fork(w < an && w != g_at)) { mw = jl(kind, ID + 1); vf_preset(A->data, w, mw); }
   if(vf_fork(w2 < on && w2 != g_at2)) { mw2 = jl(other, ID + 1); vf_preset(O->data, w2, mw2); }
   buzzoutmsg_queue_append_swarm_joinleave(vm, kind, ID);
   ENSURES(A->size == (int64_t)an + !have, "an announcement is queued once");
   if(have) ENSURES(buzzdarray_get(A, g_at, void*) == ma, "an announcement already queued keeps its place");
   ENSURES(O->size == (int64_t)on - opp, "an announcement cancels the opposite one about the same swarm only");
   if(mw) ENSURES(buzzdarray_get(A, w, void*) == mw, "announcements about other swarms are kept");
   if(mw2) ENSURES(buzzdarray_get(O, w2 - (opp && w2 > g_at2), void*) == mw2, "opposite announcements about other swarms are kept");
   if(opp) ENSURES(!vf_live(mo), "a cancelled announcement is released");
   if(!have) {   /* the new one is last, about this swarm */
      void* m = buzzdarray_get(A, an, void*);
      A->size = 1; ((void**)A->data)[0] = m; O->size = 0;
      buzzmsg_payload_t e = buzzmsg_payload_new(3); buzzmsg_serialize_u8(e, kind); put_u16(e, ID);
      same_bytes(buzzoutmsg_queue_first(vm), e, "an announcement names its swarm");
   }
   vf_cover("end");
}
/* announcements while a list is queued update the list; a new list replaces everything */
static buzzdict_t swarms(uint32_t mask) {
   buzzdict_t d = buzzdict_new(1, sizeof(uint16_t), sizeof(uint8_t), buzzdict_uint16keyhash, buzzdict_uint16keycmp, NULL);
   for(uint16_t i = 0; i < 4; ++i) { uint8_t in = mask >> i & 1; if(mask >> (i + 4) & 1) buzzdict_set(d, &i, &in); }
   return d;
}
static uint32_t bits(uint32_t m) { uint32_t n = 0; for(; m; m >>= 1) n += m & 1; return n; }
static uint32_t listed(buzzmsg_payload_t p, uint32_t* n) {
   uint32_t mask = 0; uint16_t k, x;
   vf_assert(p && buzzmsg_payload_get(p, 0) == BUZZMSG_SWARM_LIST, "the list is the next message");
   int64_t pos = buzzmsg_deserialize_u16(&k, p, 1); *n = k;
   for(uint16_t i = 0; i < k; ++i) { pos = buzzmsg_deserialize_u16(&x, p, pos); vf_assert(pos > 0, "the list has as many swarms as it says"); mask |= 1u << x; }
   vf_assert(pos == buzzmsg_payload_size(p), "the list has as many swarms as it says");
   return mask;
}
//@ unit list fn=buzzoutmsg_queue_append_swarm_list,buzzoutmsg_queue_append_swarm_joinleave mode=bounded split=known:16,in:16 note="4 swarms, lists of any subset, 2 announcements after it"
UNIT(list) {
   new_vm();
   uint32_t known = vf_choose("known", 16), in = vf_choose("in", 16) , n, m, i;
   vf_assume((in & ~known) == 0);
   buzzoutmsg_queue_append_swarm_joinleave(vm, BUZZMSG_SWARM_JOIN, 3);
   buzzoutmsg_queue_append_swarm_joinleave(vm, BUZZMSG_SWARM_LEAVE, 2);
   if(vf_choose("twice", 2)) buzzoutmsg_queue_append_swarm_list(vm, swarms(0xff));
   buzzoutmsg_queue_append_swarm_list(vm, swarms(known << 4 | in));
   ENSURES(buzzoutmsg_queue_size(vm) == 1, "a list replaces the announcements and lists before it");
   m = listed(buzzoutmsg_queue_first(vm), &n);
   ENSURES(m == in && n == bits(in), "a list names exactly the swarms the robot is in");
   for(i = 0; i < 2; ++i) {
      uint32_t lv = vf_choose("lv", 2), id = vf_choose("id", 4);
      buzzoutmsg_queue_append_swarm_joinleave(vm, lv ? BUZZMSG_SWARM_LEAVE : BUZZMSG_SWARM_JOIN, id);
      if(lv) in &= ~(1u << id); else in |= 1u << id;
   }
   ENSURES(buzzoutmsg_queue_size(vm) == 1, "an announcement updates a queued list");
   m = listed(buzzoutmsg_queue_first(vm), &n);
   ENSURES(m == in && n == bits(in), "a queued list follows the announcements");
   buzzoutmsg_queue_next(vm);
   ENSURES(buzzoutmsg_queue_size(vm) == 0, "dropping removes exactly one message");
   vf_cover("end");
}
//@ unit list_many fn=buzzoutmsg_queue_append_swarm_list,buzzoutmsg_queue_append_swarm_joinleave,buzzoutmsg_queue_first mode=bounded split=n:6 note="lists of 0, 5, 9, 17, 33 and 70 swarms, every third one left; one left and one joined while the list is queued"
UNIT(list_many) {
   static const uint32_t NN[6] = { 0, 5, 9, 17, 33, 70 }; new_vm();
   uint32_t n = NN[vf_choose("n", 6)], i, c = 0; static uint8_t want[80]; uint16_t id, k; uint8_t in;
   for(i = 0; i < 80; ++i) want[i] = 0;
   for(i = 0; i < n; ++i) { id = i * 7; in = want[i] = i % 3 != 1; c += in; buzzdict_set(vm->swarms, &id, &in); }
   buzzoutmsg_queue_append_swarm_list(vm, vm->swarms);
   if(n) { buzzoutmsg_queue_append_swarm_joinleave(vm, BUZZMSG_SWARM_LEAVE, (n - 2) / 3 * 3 * 7); want[(n - 2) / 3 * 3] = 0; --c; }
   buzzoutmsg_queue_append_swarm_joinleave(vm, BUZZMSG_SWARM_JOIN, n * 7); want[n] = 1; ++c;
   ENSURES(buzzoutmsg_queue_size(vm) == 1, "a list is one message");
   buzzmsg_payload_t p = buzzoutmsg_queue_first(vm);
   ENSURES(buzzmsg_payload_get(p, 0) == BUZZMSG_SWARM_LIST && buzzdarray_size(p) == 3 + 2 * (int64_t)c, "a list has one entry per swarm the robot is in");
   buzzmsg_deserialize_u16(&k, p, 1); ENSURES(k == c, "a list tells its length");
   for(i = 0; i < c; ++i) {
      buzzmsg_deserialize_u16(&k, p, 3 + 2 * i);
      ENSURES(k % 7 == 0 && k / 7 <= n && want[k / 7] == 1, "a list names each swarm the robot is in once"); want[k / 7] = 2;
   }
   vf_cover("end");
}
/* the periodic list */
static uint32_t g_lists; static int g_spy;
void vf_stub__buzzoutmsg_queue_append_swarm_list(buzzvm_t v, const buzzdict_t ids) { vf_assert(v == vm && ids == vm->swarms, "pre: the swarms of this robot are announced"); if(!g_spy) buzzoutmsg_queue_append_swarm_list(v, ids); ++g_lists; }
//@ unit period fn=buzzvm_process_outmsgs companion=period_b
UNIT(period) {
   new_vm(); g_lists = 0; g_spy = 1; uint16_t c = vm->swarmbroadcast = vf_u16("countdown"), id = 4; uint8_t in = vf_choose("member", 2);
   int some = vf_choose("some", 2); if(some) buzzdict_set(vm->swarms, &id, &in);
   buzzvm_process_outmsgs(vm);
   int due = vf_fork(c <= 1) && some;
#ifdef VF_NATIVE
   g_lists = buzzoutmsg_queue_size(vm);
#endif
   ENSURES(g_lists == (uint32_t)due, "the swarms are announced when the countdown ends, and only then");
   if(due) ENSURES(vm->swarmbroadcast > 0, "the countdown starts again");
   else ENSURES(vm->swarmbroadcast == (c ? c - 1 : 0), "the countdown goes on");
   vf_cover("end");
}
//@ unit period_b fn=buzzvm_process_outmsgs mode=bounded note="25 steps of a robot in one of two known swarms"
UNIT(period_b) {
   new_vm(); uint16_t id = 4, id2 = 5; uint8_t in = 1, out = 0; uint32_t i, n = 0, last = 0, gap = 0;
   buzzdict_set(vm->swarms, &id, &in); buzzdict_set(vm->swarms, &id2, &out);
   for(i = 1; i <= 25; ++i) {
      buzzvm_process_outmsgs(vm);
      if(!buzzoutmsg_queue_isempty(vm)) {
         buzzmsg_payload_t p = buzzoutmsg_queue_first(vm); ENSURES(buzzoutmsg_queue_size(vm) == 1 && buzzdarray_size(p) == 5 && buzzmsg_payload_get(p, 0) == BUZZMSG_SWARM_LIST && buzzmsg_payload_get(p, 4) == 4, "the swarms the robot is in are announced");
         buzzoutmsg_queue_next(vm); if(n) { ENSURES(!gap || gap == i - last, "the swarms are announced periodically"); gap = i - last; } last = i; ++n;
      }
   }
   ENSURES(n >= 2 && gap <= 50, "the swarms are announced before a neighbour forgets them");
   vf_cover("end");
}
/* tuple messages: the newest one per space and key */
struct tup { uint8_t in; uint8_t kind; uint16_t ts; int32_t val; uint32_t order; };
static struct tup T[2][2];
static uint32_t clk;
static int32_t KEYS[2] = { 4, 14 };            /* same bucket */
static uint16_t IDS[2] = { 1, 11 };
static int find(uint8_t kind, int* s, int* k) {
   int best = 0;
   for(int a = 0; a < 2; ++a) for(int b = 0; b < 2; ++b)
      if(T[a][b].in && T[a][b].kind == kind && (!best || T[a][b].order < T[*s][*k].order)) { best = 1; *s = a; *k = b; }
   return best;
}
static void expect_front(void) {
   int s = 0, k = 0, n = 0;
   for(int a = 0; a < 2; ++a) for(int b = 0; b < 2; ++b) n += T[a][b].in;
   ENSURES(buzzoutmsg_queue_size(vm) == n, "a tuple is queued at most once");
   buzzmsg_payload_t p = buzzoutmsg_queue_first(vm);
   if(!n) { ENSURES(p == NULL, "an empty queue has no next message"); return; }
   if(!find(BUZZMSG_VSTIG_PUT, &s, &k)) find(BUZZMSG_VSTIG_QUERY, &s, &k);
   struct tup* t = &T[s][k];
   buzzmsg_payload_t e = buzzmsg_payload_new(40);
   buzzmsg_serialize_u8(e, t->kind); put_u16(e, IDS[s]); buzzobj_serialize(e, int_obj(KEYS[k])); buzzobj_serialize(e, int_obj(t->val)); put_u16(e, t->ts); put_u16(e, 3);
   same_bytes(p, e, "the next tuple message is the newest one about the tuple waiting longest");
}
//@ unit tuples fn=buzzoutmsg_queue_append_vstig,buzzoutmsg_queue_next,buzzoutmsg_queue_first mode=bounded split=op:3,op#1:3,sp#1:2,key#1:2 note="4 operations on 2 spaces and 2 keys, any stamps"
UNIT(tuples) {
   new_vm(); clk = 0; memset(T, 0, sizeof T);
   for(int i = 0; i < 4; ++i) {
      uint32_t op = i == 0 ? vf_choose("op", 3) % 2 : i == 3 ? 2 : vf_choose("op", 3);
      if(op < 2) {
         int s = i ? vf_choose("sp", 2) : 0, k = i ? vf_choose("key", 2) : 0;
         uint16_t ts = vf_u16("ts"); int32_t val = vf_i32("val");
         uint8_t kind = op ? BUZZMSG_VSTIG_QUERY : BUZZMSG_VSTIG_PUT;
         buzzobj_t key = int_obj(KEYS[k]); buzzvstig_elem_t e = elem(val, ts, 3);
         buzzoutmsg_queue_append_vstig(vm, kind, IDS[s], key, e);
         e->data->i.value = 0; e->timestamp = 0; key->i.value = 77;    /* the message keeps its own copy */
         struct tup* t = &T[s][k];
         if(!t->in || vf_fork(t->ts < ts)) { t->in = 1; t->kind = kind; t->ts = ts; t->val = val; t->order = clk++; }
      }
      else {
         int s = 0, k = 0;
         buzzoutmsg_queue_next(vm);
         if(find(BUZZMSG_VSTIG_PUT, &s, &k) || find(BUZZMSG_VSTIG_QUERY, &s, &k)) T[s][k].in = 0;
      }
      expect_front();
   }
   vf_cover("end");
}
/* any kinds together, drained in order */
//@ unit hist fn=buzzoutmsg_queue_append_broadcast,buzzoutmsg_queue_append_swarm_joinleave,buzzoutmsg_queue_append_vstig,buzzoutmsg_queue_next,buzzoutmsg_queue_first mode=bounded split=kind:5,kind#1:5 note="4 messages of any kind about different subjects, drained"
UNIT(hist) {
   static const uint8_t KD[5] = { BUZZMSG_BROADCAST, BUZZMSG_VSTIG_PUT, BUZZMSG_VSTIG_QUERY, BUZZMSG_SWARM_JOIN, BUZZMSG_SWARM_LEAVE };
   new_vm();
   buzzmsg_payload_t e[4]; uint32_t kd[4], i, j;
   for(i = 0; i < 4; ++i) { kd[i] = i == 3 ? 0 : vf_choose("kind", 5); e[i] = one(vm, KD[kd[i]], 20 + i, i, vf_i32("val"), 1); }
   for(i = 0; i < 4; ++i) {
      ENSURES(buzzoutmsg_queue_size(vm) == 4 - i, "the size is the number of messages waiting");
      uint32_t b = 9;
      for(j = 0; j < 4; ++j) if(kd[j] < 9 && (b == 9 || kd[j] < kd[b])) b = j;
      same_bytes(buzzoutmsg_queue_first(vm), e[b], "the next message is the oldest one of the most urgent kind");
      buzzoutmsg_queue_next(vm);
      kd[b] = 9;
   }
   ENSURES(buzzoutmsg_queue_isempty(vm), "dropping every message empties the queue");
   for(i = 0; i < buzzdarray_size(vm->heap->objs); ++i)
      ENSURES(buzzdarray_get(vm->heap->objs, i, buzzobj_t)->o.type <= BUZZTYPE_USERDATA, "dropping messages frees no value");
   vf_cover("end");
}
#ifdef VF_NATIVE
struct s_t { uint8_t in, kind; uint16_t ts; int32_t val; uint32_t order; };
//@ search history
SEARCH(history) {
   enum { NS = 4, NK = 12, NB = 400, NW = 20 }; static struct s_t T_[NS][NK]; static int32_t bc[NB]; uint32_t b0 = 0, b1 = 0, clk_ = 1, i, a, b, steps = 10 + vf_rand(500), ns = 1 + vf_rand(NS), nk = 1 + vf_rand(NK), drop = 30; uint32_t jo[NW] = { 0 }, lv[NW] = { 0 };
   new_vm(); memset(T_, 0, sizeof(T_));
   for(i = 0; i < steps; ++i) {
      uint32_t o = vf_rand(100); if(i % 50 == 0) drop = 5 + vf_rand(80);
      int kind = -1, s = 0, k = 0; uint32_t w = 0;
      if(o < drop) {
         /* the next message, by priority of kinds */
         if(b0 < b1) kind = BUZZMSG_BROADCAST;
         else {
            uint32_t q; static const uint8_t KD[2] = { BUZZMSG_VSTIG_PUT, BUZZMSG_VSTIG_QUERY };
            for(q = 0; q < 2 && kind < 0; ++q) { uint32_t best = 0; for(a = 0; a < ns; ++a) for(b = 0; b < nk; ++b) if(T_[a][b].in && T_[a][b].kind == KD[q] && (!best || T_[a][b].order < best)) { best = T_[a][b].order; s = a; k = b; kind = KD[q]; } }
            if(kind < 0) { uint32_t best = 0, j; for(j = 0; j < NW; ++j) if(jo[j] && (!best || jo[j] < best)) { best = jo[j]; w = j; kind = BUZZMSG_SWARM_JOIN; } if(kind < 0) for(j = 0; j < NW; ++j) if(lv[j] && (!best || lv[j] < best)) { best = lv[j]; w = j; kind = BUZZMSG_SWARM_LEAVE; } } }
         buzzmsg_payload_t p = buzzoutmsg_queue_first(vm);
         if(kind < 0) { vf_assert(p == NULL, "search: an empty queue has no next message"); }
         else {
            buzzmsg_payload_t e = buzzmsg_payload_new(40); buzzmsg_serialize_u8(e, kind);
            if(kind == BUZZMSG_BROADCAST) { buzzobj_serialize(e, int_obj(b0)); buzzobj_serialize(e, int_obj(bc[b0])); ++b0; }
            else if(kind == BUZZMSG_SWARM_JOIN || kind == BUZZMSG_SWARM_LEAVE) { put_u16(e, w * 7); if(kind == BUZZMSG_SWARM_JOIN) jo[w] = 0; else lv[w] = 0; }
            else { struct s_t* t = &T_[s][k]; put_u16(e, s * 5); buzzobj_serialize(e, int_obj(k * 3)); buzzobj_serialize(e, int_obj(t->val)); put_u16(e, t->ts); put_u16(e, 3); t->in = 0; }
            vf_assert(p && buzzdarray_size(p) == buzzdarray_size(e) && !memcmp(p->data, e->data, buzzdarray_size(e)), "search: the next message is the expected one"); }
         buzzoutmsg_queue_next(vm);
      }
      else if(o % 3 == 0 && b1 < NB) { bc[b1] = vf_rand(1u << 31); buzzoutmsg_queue_append_broadcast(vm, int_obj(b1), int_obj(bc[b1])); ++b1; }
      else if(o % 3 == 1) { w = vf_rand(NW); int l = vf_rand(2); buzzoutmsg_queue_append_swarm_joinleave(vm, l ? BUZZMSG_SWARM_LEAVE : BUZZMSG_SWARM_JOIN, w * 7); if(l) { jo[w] = 0; if(!lv[w]) lv[w] = clk_++; } else { lv[w] = 0; if(!jo[w]) jo[w] = clk_++; } }
      else { s = vf_rand(ns); k = vf_rand(nk); uint16_t ts = vf_rand(vf_rand(2) ? 10 : 65536); int32_t v = vf_rand(1u << 31); uint8_t kd = vf_rand(2) ? BUZZMSG_VSTIG_QUERY : BUZZMSG_VSTIG_PUT; buzzoutmsg_queue_append_vstig(vm, kd, s * 5, int_obj(k * 3), elem(v, ts, 3)); struct s_t* t = &T_[s][k]; if(!t->in || t->ts < ts) { t->in = 1; t->kind = kd; t->ts = ts; t->val = v; t->order = clk_++; } }
      uint32_t n = b1 - b0; for(a = 0; a < NS; ++a) for(b = 0; b < NK; ++b) n += T_[a][b].in; for(a = 0; a < NW; ++a) n += !!jo[a] + !!lv[a];
      vf_assert(buzzoutmsg_queue_size(vm) == n, "search: the size is the number of messages waiting");
   }
}
#endif
