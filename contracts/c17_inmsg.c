/* C17 - the incoming message queue.
 * Any number of robots and messages may already be waiting. */
#include "vm_state.h"
//@ assume the dictionary and array contracts proved in C02 and C01; memory allocation succeeds
static buzzmsg_payload_t pay(uint8_t b) { buzzmsg_payload_t p = buzzmsg_payload_new(2); buzzmsg_serialize_u8(p, b); return p; }
/* ---- unbounded: the queue of the robot at hand has any number of messages ---- */
static void* mk_pay(uint64_t i) { return vf_opaque("pay"); }
static void none(uint32_t p, void* d, void* x) {}
static buzzdarray_t Q; static uint32_t QN; static uint16_t R; static void* PW; static uint32_t pw;
static void any_queue(void) {
   vm = buzzvm_new(1);
   R = vf_u16("robot"); vf_assume(R < 0xffff);
   Q = buzzdarray_new(1, sizeof(buzzmsg_payload_t), NULL);
   any_size(Q, "q.size", "q.cap", "q", mk_pay);
   QN = Q->size; vf_assume(QN > 0);
   buzzdict_set(vm->inmsgs, &R, &Q);
   PW = vf_opaque("witness"); pw = vf_u32("wpos"); vf_assume(pw < QN);
   vf_preset(Q->data, pw, PW);
}
//@ unit append fn=buzzinmsg_queue_append companion=hist
UNIT(append) {
   any_queue();
   void* m = vf_opaque("new");
   uint16_t from = vf_choose("same", 2) ? R : vf_u16("from");
   buzzinmsg_queue_append(vm, from, m);
   const buzzdarray_t* q = buzzdict_get(vm->inmsgs, &from, buzzdarray_t);
   ENSURES(q != NULL, "a message is queued under its sender");
   if(from == R) {
      ENSURES(*q == Q && Q->size == (int64_t)QN + 1, "a message extends its sender's queue by one");
      ENSURES(buzzdarray_get(Q, QN, void*) == m, "a message is queued last");
      ENSURES(buzzdict_size(vm->inmsgs) == 1, "other senders are unaffected");
   }
   else {
      ENSURES((*q)->size == 1 && buzzdarray_get(*q, 0, void*) == m, "the first message of a sender starts its queue");
      ENSURES(buzzdict_size(vm->inmsgs) == 2 && Q->size == QN, "other senders are unaffected");
   }
   ENSURES(buzzdarray_get(Q, pw, void*) == PW, "messages already waiting are kept");
   vf_cover("end");
}
//@ unit extract fn=buzzinmsg_queue_extract companion=hist
UNIT(extract) {
   any_queue();
   void* first = PW;
   if(!vf_fork(pw == 0)) { first = vf_opaque("first"); vf_preset(Q->data, 0, first); }
   uint16_t id = vf_u16("id0"); buzzmsg_payload_t p = NULL;
   int r = buzzinmsg_queue_extract(vm, &id, &p);
   ENSURES(r == 1, "a waiting message is handed out");
   ENSURES(id == R, "a message comes with its sender");
   ENSURES((void*)p == first, "messages of a sender come in the order of arrival");
   if(vf_fork(QN == 1)) ENSURES(buzzinmsg_queue_isempty(vm->inmsgs), "the last message leaves the queue empty");
   else {
      ENSURES(buzzdict_size(vm->inmsgs) == 1 && Q->size == (int64_t)QN - 1, "a message handed out is no longer queued");
      if(pw) ENSURES(buzzdarray_get(Q, pw - 1, void*) == PW, "the other messages are kept in order");
   }
   vf_cover("end");
}
//@ unit none fn=buzzinmsg_queue_extract
UNIT(none) {
   vm = buzzvm_new(1);
   uint16_t id = vf_u16("id"), id0 = id; buzzmsg_payload_t p = vf_opaque("p"), p0 = p;
   ENSURES(buzzinmsg_queue_isempty(vm->inmsgs), "a new machine has no message waiting");
   ENSURES(buzzinmsg_queue_extract(vm, &id, &p) == 0, "an empty queue reports that nothing is waiting");
   ENSURES(id == id0 && p == p0, "an empty queue leaves the results alone");
   vf_cover("end");
}
/* ---- bounded: histories through the API ---- */
//@ unit hist fn=buzzinmsg_queue_append,buzzinmsg_queue_extract mode=bounded split=from:3,from#1:2,from#2:2 note="4 messages from up to 3 senders, extracted at any point"
UNIT(hist) {
   static const uint16_t RS[3] = { 2, 22, 5 };            /* 2 and 22 share a bucket */
   vm = buzzvm_new(1);
   uint8_t b[4]; int next[3] = {0}, sent[3] = {0}; buzzmsg_payload_t m[3][4]; uint8_t mbv[3][4];
   int out = 0, in = 0, i;
   while(out < 4) {
      int f = in < 4 ? (in == out ? 1 : vf_choose("more", 2)) : 0;
      if(f) {
         uint32_t r = in == 0 ? vf_choose("from", 3) : vf_choose("from", 2);
         buzzmsg_payload_t p = pay(vf_u8("byte"));
         m[r][sent[r]] = p; mbv[r][sent[r]] = buzzmsg_payload_get(p, 0); ++sent[r]; ++in;
         buzzinmsg_queue_append(vm, RS[r], p);
      }
      else {
         uint16_t id = 0; buzzmsg_payload_t p = NULL; int r = -1;
         ENSURES(buzzinmsg_queue_extract(vm, &id, &p) == 1, "a waiting message is handed out (history)");
         for(i = 0; i < 3; ++i) if(RS[i] == id) r = i;
         ENSURES(r >= 0 && next[r] < sent[r], "a message comes with a robot that sent one (history)");
         ENSURES(p == m[r][next[r]], "messages of a sender come once, in the order of arrival (history)");
         ENSURES(buzzdarray_size(p) == 1 && buzzmsg_payload_get(p, 0) == mbv[r][next[r]], "a message is handed out unchanged (history)");
         ++next[r]; ++out;
         ENSURES(buzzinmsg_queue_isempty(vm->inmsgs) == (in == out), "the queue is empty exactly when every message was handed out (history)");
      }
   }
   vf_cover("end");
}
#ifdef VF_NATIVE
//@ search history
SEARCH(history) {
   enum { NR = 40, NM = 300 }; static buzzmsg_payload_t m[NR][NM]; static uint32_t head[NR], tail[NR]; uint32_t i, j, in = 0, steps = 10 + vf_rand(2000), nr = 1 + vf_rand(NR), out = 40; memset(head, 0, sizeof(head)); memset(tail, 0, sizeof(tail));
   vm = buzzvm_new(1);
   for(i = 0; i < steps; ++i) {
      if(i % 40 == 0) out = vf_rand(100);
      uint32_t r = vf_rand(nr);
      if(vf_rand(100) >= out && tail[r] < NM) { uint32_t l = 1 + vf_rand(20); buzzmsg_payload_t p = buzzmsg_payload_new(l); for(j = 0; j < l; ++j) buzzmsg_serialize_u8(p, r + tail[r] + j); m[r][tail[r]++] = p; buzzinmsg_queue_append(vm, r * 4 + 1, p); ++in; }
      else {
         uint16_t id = 9; buzzmsg_payload_t p = NULL; int got = buzzinmsg_queue_extract(vm, &id, &p);
         vf_assert(!!got == (in > 0), "search: a message is handed out exactly if one is waiting");
         if(got) { r = (id - 1) / 4; vf_assert(id % 4 == 1 && r < nr && head[r] < tail[r] && p == m[r][head[r]], "search: messages of a sender come once, in the order of arrival"); for(j = 0; j < buzzdarray_size(p); ++j) vf_assert(buzzmsg_payload_get(p, j) == (uint8_t)(r + head[r] + j), "search: a message is handed out unchanged"); ++head[r]; --in; } }
      vf_assert(!!buzzinmsg_queue_isempty(vm->inmsgs) == (in == 0), "search: the queue is empty exactly when nothing is waiting");
   }
}
#endif
