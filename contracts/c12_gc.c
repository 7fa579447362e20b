/* C12: garbage collection */
#define VM_OWN_STUBS
#include "vm_call.h"
#include <stdio.h>
//@ assume marking closes under children: buzzheap_obj_mark marks its argument and asks to mark every child of a newly marked object (unit mark), so when it returns every object reachable through newly marked objects is marked
//@ assume on entry every object of the heap carries the current marker (new objects and survivors of a collection do)
//@ assume callers are checked against the array and dictionary contracts (C01, C02): iteration visits every element; one arbitrary element stands for all
struct bcmsg { int type; buzzobj_t topic; buzzobj_t value; };                           /* as in buzzoutmsg.c */
struct vsmsg { int type; uint16_t id; buzzobj_t key; buzzvstig_elem_t data; };
/* ---- what is marked ---- */
static buzzobj_t MK[8]; static uint32_t nmk; static uint16_t SID[4]; static uint32_t nsid; static int phase, order_bad;
static int g_gc;                              /* in the collector unit */
static int marked(buzzobj_t o) { uint32_t i; for(i = 0; i < nmk; ++i) if(MK[i] == o) return 1; return 0; }
static void record(buzzobj_t o, buzzvm_t m) {
   vf_assert(m == vm && o != NULL, "pre: marking an object of this machine");
   if(nmk < 8) MK[nmk++] = o;
   if(phase != 1) order_bad = 1;
   o->o.marker = vm->heap->marker;
}
void vf_rec__buzzheap_obj_mark(buzzobj_t o, buzzvm_t m) { record(o, m); }
void vf_stub__buzzstrman_gc_mark(buzzstrman_t sm, uint16_t sid) { vf_assert(sm == vm->strings, "pre: the strings of this machine"); if(phase != 1) order_bad = 1; if(nsid < 4) SID[nsid++] = sid; }
void vf_stub__buzzstrman_gc_clear(buzzstrman_t sm) { vf_assert(sm == vm->strings, "pre: the strings of this machine"); if(phase != 0) order_bad = 1; phase = 1; }
void vf_stub__buzzstrman_gc_prune(buzzstrman_t sm) { vf_assert(sm == vm->strings, "pre: the strings of this machine"); if(phase != 1) order_bad = 1; phase = 2; }
void vf_stub__buzzheap_obj_mark(buzzobj_t o, buzzvm_t m) { if(!g_gc) { vf_rec__buzzheap_obj_mark(o, m); return; } record(o, m); }
/* ---- arbitrary containers: one element stands for all ---- */
static buzzobj_t tK, tD, aE;                   /* the object being marked: a field, a captured value */
static buzzdict_t tdict; static buzzdarray_t tact;
static buzzobj_t rG, rS, rL, rVK, rVD, rVC, rVL, rLi, rBT, rBV, rPK, rPD, rQK, rQD; static uint16_t rTopic;
static buzzvstig_t VS; static struct buzzvstig_elem_s VE, PE, QE; static buzzvstig_elem_t VEp;
static buzzdarray_t STK, SYM; static buzzvm_lsyms_t LS;
static struct bcmsg BC; static struct vsmsg PM, QM;
void vf_stub__buzzdict_foreach(buzzdict_t dt, buzzdict_elem_funp fun, void* params) {
   uint16_t id = 1; void* p;
   if(!g_gc) { vf_assert(dt == tdict, "pre: the fields of the object"); fun(&tK, &tD, params); return; }
   if(dt == vm->gsyms) { id = vf_u16("gname"); fun(&id, &rG, params); }
   else if(dt == vm->vstigs) { fun(&id, &VS, params); }
   else if(dt == VS->data) { VEp = &VE; fun(&rVK, &VEp, params); }
   else if(dt == vm->listeners) { fun(&rTopic, &rLi, params); }
   (void)p;
}
void vf_stub__buzzdarray_foreach(buzzdarray_t da, buzzdarray_elem_funp fun, void* params) {
   void* p;
   if(!g_gc) { vf_assert(da == tact, "pre: the values captured by the object"); fun(vf_u32("pos"), &aE, params); return; }
   if(da == vm->stacks) { p = STK; fun(0, &p, params); }
   else if(da == STK) fun(0, &rS, params);
   else if(da == vm->lsymts) { p = LS; fun(0, &p, params); }
   else if(da == SYM) fun(0, &rL, params);
   else if(da == vm->outmsgs->queues[BUZZMSG_BROADCAST]) { p = &BC; fun(0, &p, params); }
   else if(da == vm->outmsgs->queues[BUZZMSG_VSTIG_PUT]) { p = &PM; fun(0, &p, params); }
   else if(da == vm->outmsgs->queues[BUZZMSG_VSTIG_QUERY]) { p = &QM; fun(0, &p, params); }
}
//@ unit mark fn=buzzheap_obj_mark,buzzheap_dictobj_mark,buzzheap_darrayobj_mark companion=graph split=ot:7
UNIT(mark) {
   vm = buzzvm_new(1); g_gc = 0; nmk = nsid = 0; phase = 1; order_bad = 0;
   vm->heap->marker = vf_u16("hmarker");
   buzzobj_t o = any_obj("ot", "ov"); int t = o->o.type; int32_t v = o->i.value; uint16_t was = o->o.marker;
   tK = raw_obj(BUZZTYPE_INT); tD = raw_obj(BUZZTYPE_TABLE); aE = raw_obj(BUZZTYPE_NIL);
   if(t == BUZZTYPE_TABLE) tdict = o->t.value = buzzdict_new(1, 8, 8, NULL, NULL, NULL);
   if(t == BUZZTYPE_CLOSURE) tact = o->c.value.actrec = buzzdarray_new(1, 8, NULL);
   uint16_t sid = t == BUZZTYPE_STRING ? o->s.value.sid : 0;
   buzzheap_obj_mark(o, vm);
   ENSURES(o->o.marker == vm->heap->marker && o->o.type == t, "a marked object carries the marker and keeps its type");
   if(was == vm->heap->marker) ENSURES(nmk == 0 && nsid == 0, "an object already marked is not visited again");
   else {
      if(t == BUZZTYPE_TABLE) ENSURES(marked(tK) && marked(tD) && o->t.value == tdict, "keys and values of a marked table are marked");
      if(t == BUZZTYPE_CLOSURE) ENSURES(marked(aE) && o->c.value.actrec == tact, "what a marked function captured is marked");
      if(t == BUZZTYPE_STRING) ENSURES(nsid == 1 && SID[0] == sid && o->s.value.sid == sid, "the text of a marked string is marked");
      if(t == BUZZTYPE_INT) ENSURES(o->i.value == v, "marking changes no value");
   }
   vf_cover("end");
}
/* ---- the collector; X: an arbitrary object of the heap at an arbitrary position ---- */
static buzzobj_t X; static uint32_t xpos; static uint32_t xgone, wrong; static uint32_t HN;
static void* mk_heap(uint64_t i) { buzzobj_t o = raw_obj(BUZZTYPE_NIL); return o; }
static void heap_fresh(void) {
   vm->heap->objs->data = vf_lazyptrs("heap", HN, mk_heap);
   if(!xgone) vf_preset(vm->heap->objs->data, xpos, X);
}
/* contract of removing an element (C01), with its destruction */
void vf_stub__buzzdarray_remove(buzzdarray_t da, uint32_t pos) {
   vf_assert(da == vm->heap->objs && pos < da->size, "pre: removing an object of the heap");
   buzzobj_t o = buzzdarray_get(da, pos, buzzobj_t);
   if(o->o.marker == vm->heap->marker) ++wrong;
   if(!xgone) { if(vf_fork(pos == xpos)) ++xgone; else if(vf_fork(pos < xpos)) --xpos; }
   --da->size;
   heap_fresh();
}
int vf_inv__buzzheap_gc__0(int64_t* i) {
   int64_t n = vm->heap->objs->size;
   if(!((*i >= -1) & (*i < n) & (n <= (int64_t)HN) & (wrong == 0) & (phase == 1) & (order_bad == 0))) return 0;
   int m = X->o.marker == vm->heap->marker;
   if(xgone) return (xgone == 1) & !m;
   if(!(xpos < n)) return 0;
   return (m | ((int64_t)xpos <= *i)) & (buzzdarray_get(vm->heap->objs, xpos, buzzobj_t) == X);
}
void vf_mod__buzzheap_gc__0(int64_t* i) {
   *i = (int64_t)vf_u16("loop.i") - 1;
   vm->heap->objs->size = vf_u16("loop.n"); xgone = vf_choose("loop.gone", 2); xpos = vf_u16("loop.x");
   vf_assume((vm->heap->objs->size <= (int64_t)HN) & (xgone | (xpos < vm->heap->objs->size)));
   heap_fresh();
}
static buzzobj_t root_obj(void) { buzzobj_t o = raw_obj(BUZZTYPE_INT); o->o.marker = vm->heap->marker; return o; }
#define NROOT 14
//@ unit gc fn=buzzheap_gc,buzzheap_gsymobj_mark,buzzheap_stack_mark,buzzheap_lsyms_mark,buzzheap_vstig_mark,buzzheap_vstigobj_mark,buzzheap_listener_mark,buzzoutmsg_gc,buzzoutmsg_broadcast_mark,buzzoutmsg_vstig_mark companion=graph split=root:15
UNIT(gc) {
   vm = buzzvm_new(1); g_gc = 1; nmk = nsid = 0; phase = 0; order_bad = 0; xgone = wrong = 0;
   uint16_t m = vm->heap->marker = vf_u16("hmarker");
   HN = vf_u16("hn"); vf_assume(HN >= 1); vm->heap->objs->size = HN; vm->heap->objs->capacity = HN; vm->heap->max_objs = vf_u32("max");
   uint32_t r = vf_choose("root", NROOT + 1), max = vm->heap->max_objs;
   buzzobj_t* slot[NROOT] = { &rG, &rS, &rL, &rVK, &rVD, &rVC, &rVL, &rLi, &rBT, &rBV, &rPK, &rPD, &rQK, &rQD }; uint32_t i;
   for(i = 0; i < NROOT; ++i) *slot[i] = root_obj();
   rTopic = vf_u16("topic");
   X = r < NROOT ? *slot[r] : root_obj();
   xpos = vf_u16("xpos"); vf_assume(xpos < HN); heap_fresh();
   VS = (buzzvstig_t)malloc(sizeof(*VS)); VS->data = buzzdict_new(1, 8, 8, NULL, NULL, NULL); VS->onconflict = rVC; VS->onconflictlost = rVL;
   VE.data = rVD; PE.data = rPD; QE.data = rQD;
   BC.topic = rBT; BC.value = rBV; PM.key = rPK; PM.data = &PE; QM.key = rQK; QM.data = &QE;
   STK = buzzdarray_new(1, 8, NULL); SYM = buzzdarray_new(1, 8, NULL); LS = buzzvm_lsyms_new(0, SYM);
   buzzheap_gc(vm);
   if(HN < max) {
      ENSURES(vm->heap->marker == m && nmk == 0 && phase == 0 && !xgone && vm->heap->objs->size == HN, "below the threshold nothing is collected");
      vf_cover("end"); return;
   }
   ENSURES(phase == 2 && !order_bad, "strings are collected around the marking");
   ENSURES(!wrong, "no marked object is freed");
   if(r < NROOT) ENSURES(!xgone, "an object reachable from a root is not freed");
   else ENSURES(xgone == 1, "an unreachable object is freed, once");
   ENSURES(vm->heap->marker != m, "the next collection has a marker of its own");
   int topic = 0; for(i = 0; i < nsid; ++i) topic |= SID[i] == rTopic;
   ENSURES(topic, "the topic of a listener is kept");
   vf_cover("end");
}
//@ unit newobj fn=buzzheap_newobj,buzzobj_new companion=graph split=nt:7
UNIT(newobj) {
   vm = buzzvm_new(1); vm->heap->marker = vf_u16("hmarker"); uint32_t n = vm->heap->objs->size; uint16_t t = vf_choose("nt", 7);
   buzzobj_t o = buzzheap_newobj(vm, t);
   ENSURES(o->o.type == t && o->o.marker == vm->heap->marker, "a new object has the type asked for and the current marker");
   ENSURES(vm->heap->objs->size == n + 1 && buzzdarray_get(vm->heap->objs, n, buzzobj_t) == o, "a new object is known to the collector");
   vf_cover("end");
}
/* ---- bounded: real graphs, strings and collections ---- */
static void collect(void) { vm->heap->max_objs = 0; buzzheap_gc(vm); }
static int inheap(buzzobj_t o) { int64_t i; for(i = 0; i < vm->heap->objs->size; ++i) if(buzzdarray_get(vm->heap->objs, i, buzzobj_t) == o) return 1; return 0; }
static void tset(buzzobj_t t, buzzobj_t k, buzzobj_t v) { buzzvm_push(vm, t); buzzvm_push(vm, k); buzzvm_push(vm, v); buzzvm_tput(vm); }
static buzzobj_t tat(buzzobj_t t, buzzobj_t k) { buzzvm_push(vm, t); buzzvm_push(vm, k); buzzvm_tget(vm); buzzobj_t o = top(); buzzvm_pop(vm); return o; }
static int nop(buzzvm_t m) { return buzzvm_ret0(m); }
static buzzobj_t G[6];
/* a graph of 6 objects hanging from G[0] */
static void build(uint32_t shape) {
   uint32_t i;
   for(i = 0; i < 6; ++i) G[i] = NULL;
   G[0] = newt();
   switch(shape) {
      case 0: G[1] = newt(); G[2] = newt(); G[3] = newi(7); tset(G[0], G[4] = newi(1), G[1]); tset(G[1], G[5] = newi(2), G[2]); tset(G[2], G[3], G[0]); break;   /* a cycle */
      case 1: G[1] = newcc(nop); buzzdarray_push(G[1]->c.value.actrec, &G[0]); G[2] = newi(9); buzzdarray_push(G[1]->c.value.actrec, &G[2]); tset(G[0], G[3] = news("fun"), G[1]);
              G[1] = tat(G[0], news("fun")); break;                                                        /* captured values */
      case 2: G[1] = news("dynkey"); G[2] = news("dynval"); tset(G[0], G[1], G[2]); G[3] = newt(); tset(G[0], G[4] = newf(2.5f), G[3]); break;
      default: G[1] = newt(); tset(G[0], G[2] = newi(1), G[1]); tset(G[0], G[3] = newi(2), G[1]); tset(G[1], G[4] = newi(3), G[5] = newnil()); G[5] = NULL; break;  /* shared */
   }
}
//@ unit graph fn=buzzheap_gc,buzzheap_obj_mark mode=bounded split=shape:4,root:11 note="4 object graphs (cycle, captured values, dynamic strings, sharing) from 10 kinds of root or from none; two collections"
UNIT(graph) {
   vm_ready(1); uint32_t sh = vf_choose("shape", 4), r = vf_choose("root", 11), i; uint16_t key = 700;
   collect(); uint32_t n0 = vm->heap->objs->size, s0 = buzzdict_size(vm->strings->id2str);
   build(sh);
   buzzobj_t g = G[0];
   switch(r) {
      case 0: buzzvm_pushs(vm, buzzvm_string_register(vm, "glob", 1)); buzzvm_push(vm, g); buzzvm_gstore(vm); break;
      case 1: buzzvm_push(vm, g); break;
      case 2: { buzzdarray_t s = buzzdarray_new(1, sizeof(buzzobj_t), NULL); buzzdarray_push(s, &g); buzzvm_lsyms_t l = buzzvm_lsyms_new(0, s); buzzdarray_push(vm->lsymts, &l); break; }
      case 3: case 4: case 5: case 6: {
         buzzvstig_t vs = buzzvstig_new(); buzzdict_set(vm->vstigs, &key, &vs);
         if(r == 3 || r == 4) { buzzobj_t k = r == 3 ? g : newi(4), d = r == 3 ? newi(4) : g; buzzvstig_elem_t e = buzzvstig_elem_new(d, 1, 1); buzzdict_set(vs->data, &k, &e); }
         else { buzzobj_t f = newcc(nop); buzzdarray_push(f->c.value.actrec, &g); if(r == 5) vs->onconflict = f; else vs->onconflictlost = f; }
         break; }
      case 7: { buzzobj_t f = newcc(nop); buzzdarray_push(f->c.value.actrec, &g); uint16_t t = buzzvm_string_register(vm, "topic", 0); buzzdict_set(vm->listeners, &t, &f); break; }
      case 8: if(sh < 2) { vf_cover("end"); return; }    /* the message holds a copy */
              buzzoutmsg_queue_append_broadcast(vm, news("bctopic"), g); g = buzzdarray_get(vm->outmsgs->queues[BUZZMSG_BROADCAST], 0, struct bcmsg*)->value; break;
      case 9: { if(sh < 2) { vf_cover("end"); return; }
              buzzvstig_elem_t e = buzzvstig_elem_new(g, 1, 1); buzzobj_t k = newi(4); buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, 3, k, e); g = buzzdarray_get(vm->outmsgs->queues[BUZZMSG_VSTIG_PUT], 0, struct vsmsg*)->data->data; break; }
      default: break;
   }
   int c;
   for(c = 0; c < 2; ++c) {
      newt(); newi(3); news("garbage"); build((sh + 1) % 4); build(sh); G[0] = g;
      if(c == 0) { /* keep the first graph's handles */ }
      collect();
      if(r == 10) {
         ENSURES(!inheap(g), "an unreachable graph is freed");
         ENSURES(vm->heap->objs->size == n0, "every unreachable value is freed by the next collection");
         ENSURES(buzzdict_size(vm->strings->id2str) == s0 || buzzdict_size(vm->strings->id2str) == s0 + 2, "the strings of unreachable values are removed");
         break;
      }
      ENSURES(inheap(g) && g->o.type == BUZZTYPE_TABLE, "a value reachable from a root stays");
      if(sh == 0) { buzzobj_t a = tat(g, newi(1)), b = tat(a, newi(2)); ENSURES(inheap(a) && inheap(b) && tat(b, newi(7)) == g, "a reachable cycle stays"); }
      else if(sh == 1) { buzzobj_t f = tat(g, news("fun")); ENSURES(inheap(f) && f->o.type == BUZZTYPE_CLOSURE && buzzdarray_size(f->c.value.actrec) == 3 && inheap(buzzdarray_get(f->c.value.actrec, 2, buzzobj_t)) && buzzdarray_get(f->c.value.actrec, 2, buzzobj_t)->i.value == 9 && buzzdarray_get(f->c.value.actrec, 1, buzzobj_t) == g, "what a reachable function captured stays"); }
      else if(sh == 2) { buzzobj_t v = tat(g, news("dynkey")); ENSURES(v->o.type == BUZZTYPE_STRING && inheap(v) && buzzvm_string_get(vm, v->s.value.sid) == v->s.value.str && !strcmp(v->s.value.str, "dynval"), "strings a reachable value uses stay"); ENSURES(tat(g, newf(2.5f))->o.type == BUZZTYPE_TABLE, "a nested table stays"); }
      else { ENSURES((r >= 8 || tat(g, newi(1)) == tat(g, newi(2))) && inheap(tat(g, newi(1))) && inheap(tat(g, newi(2))), "a shared value stays"); }
      if(r == 7) { uint16_t t = buzzvm_string_register(vm, "topic", 0); ENSURES(buzzdict_exists(vm->listeners, &t), "the topic of a listener stays"); }
      if(r == 8) ENSURES(buzzoutmsg_queue_first(vm) != NULL, "a queued broadcast can be sent");
   }
   vf_cover("end");
}
/* collections at any point of a user function called by the library */
static int cb_n, cb_bad;
static int cb(buzzvm_t m) {           /* removes what it was given from the table, drops it and collects */
   ++cb_n;
   buzzobj_t k = buzzdarray_get(m->lsyms->syms, 1, buzzobj_t);
   if(k->o.type == BUZZTYPE_INT && G[0]) { int32_t v = k->i.value; buzzobj_t nil = newnil(); tset(G[0], newi(v), nil); }
   buzzvm_pushnil(m); buzzvm_lstore(m, 1); buzzvm_pushnil(m); buzzvm_lstore(m, 2);
   collect();
   buzzvm_pushi(m, 40 + cb_n);
   return buzzvm_ret1(m);
}
//@ unit callbacks fn=buzzheap_gc,buzzobj_foreach,buzzobj_map,buzzobj_filter,buzzobj_reduce,buzzneighbors_map,buzzneighbors_filter,buzzneighbors_reduce,buzzneighbors_foreach,buzzvstig_foreach,buzzswarm_exec mode=bounded split=lib:10,rm:2 note="a collection inside the user function called by each library function, which also drops its arguments and removes the element from the table"
UNIT(callbacks) {
   vm_ready(1); uint32_t lib = vf_choose("lib", 10), rm = vf_choose("rm", 2), i; cb_n = 0; G[0] = NULL;
   buzzobj_register(vm); buzzneighbors_new(vm); buzzvstig_register(vm); buzzswarm_register(vm);
   buzzobj_t f, t, nb = global("neighbors");
   for(i = 0; i < 2; ++i) buzzneighbors_add(vm, 10 + i, 1.0f, 2.0f, 3.0f);
   t = newt(); tset(t, newi(1), newi(11)); tset(t, newi(2), news("dyn")); 
   buzzvm_pushs(vm, buzzvm_string_register(vm, "T", 1)); buzzvm_push(vm, t); buzzvm_gstore(vm);
   if(rm) G[0] = lib < 4 ? t : (lib < 8 ? field(nb, "poses") : NULL);
   f = newcc(cb); uint32_t d0 = depth();
   ARG[0] = f; ARG[1] = newi(0);
   switch(lib) {
      case 0: ARG[0] = t; ARG[1] = f; call(global("foreach"), 2); break;
      case 1: ARG[0] = t; ARG[1] = f; call(global("map"), 2); break;
      case 2: ARG[0] = t; ARG[1] = f; call(global("filter"), 2); break;
      case 3: ARG[0] = t; ARG[1] = f; ARG[2] = newi(0); call(global("reduce"), 3); break;
      case 4: method(nb, "foreach", 1); break;
      case 5: method(nb, "map", 1); break;
      case 6: method(nb, "filter", 1); break;
      case 7: method(nb, "reduce", 2); break;
      case 8: { buzzobj_t st = global("stigmergy"); ARG[0] = newi(5); method(st, "create", 1); buzzobj_t vs = top();
                ARG[0] = newi(1); ARG[1] = newt(); method(vs, "put", 2); buzzvm_pop(vm); f = newcc(cb); ARG[0] = f; method(vs, "foreach", 1); buzzobj_t r = top(); buzzvm_pop(vm); buzzvm_pop(vm); buzzvm_push(vm, r); break; }
      default: { buzzobj_t sw = global("swarm"); ARG[0] = newi(3); method(sw, "create", 1); buzzobj_t s = top(); method(s, "join", 0); buzzvm_pop(vm);
                 ARG[0] = newcc(nop); method(s, "exec", 1); collect(); ENSURES(inheap(s), "a table on the stack stays"); buzzobj_t r = top(); buzzvm_pop(vm); buzzvm_pop(vm); buzzvm_push(vm, r); break; }
   }
   ENSURES(vm->state == BUZZVM_STATE_READY, "library calls succeed with a collection inside the user function");
   ENSURES(depth() == d0 + 1, "a library call leaves one value");
   buzzobj_t r = top(); collect();
   ENSURES(inheap(r), "the result stays");
   if(lib < 4) ENSURES(cb_n == 2, "the user function runs once per field");
   if(lib == 1) ENSURES(r->o.type == BUZZTYPE_TABLE && buzzdict_size(r->t.value) == 2 && tat(r, newi(1))->i.value + tat(r, newi(2))->i.value == 83, "map gives the results of the function");
   if(lib == 2) ENSURES(r->o.type == BUZZTYPE_TABLE && buzzdict_size(r->t.value) == 2 && tat(r, newi(1))->i.value == 11 && !strcmp(tat(r, newi(2))->s.value.str, "dyn"), "filter gives the fields accepted");
   if(lib == 3 || lib == 7) ENSURES(r->i.value == 42, "reduce gives the last result");
   if(lib == 5 || lib == 6) { buzzobj_t p = field(r, "poses"); ENSURES(p->o.type == BUZZTYPE_TABLE && buzzdict_size(p->t.value) == 2 && inheap(tat(p, newi(10))) && inheap(tat(p, newi(11))), "neighbour queries keep their results"); }
   vf_cover("end");
}
//@ search history
#ifdef VF_NATIVE
/* objects hanging from globals, the stack, a virtual stigmergy and captured values, changed at random between collections */
SEARCH(history) {
   enum { N = 160, E = 12, NG = 12, NS = 24 }; static buzzobj_t nd[N]; static int kind[N], edge[N][E], sval[N], reach[N], ig[NG], is[NS], iv[NG]; int q[N], qa, qb; uint32_t i, j, k, steps = 3 + vf_rand(40), n = 0, ns = 0, c; char b[40]; uint16_t key = 700;
   vm_ready(1); buzzvstig_t vs = buzzvstig_new(); buzzdict_set(vm->vstigs, &key, &vs);
   memset(nd, 0, sizeof(nd)); for(i = 0; i < NG; ++i) ig[i] = iv[i] = -1;
   uint32_t big = vf_rand(2) ? N : 20;
   for(c = 0; c < steps; ++c) {
      uint32_t ops = vf_rand(big * 2);
      for(k = 0; k < ops; ++k) {
         uint32_t a = vf_rand(big), o = vf_rand(10);
         if(!nd[a]) { int t = vf_rand(4); kind[a] = t; for(j = 0; j < E; ++j) edge[a][j] = -1;
            if(t == 0 || t == 3) nd[a] = newt(); else if(t == 1) nd[a] = newcc(nop); else { sval[a] = vf_rand(1u << 20); snprintf(b, sizeof(b), "s%d", sval[a]); nd[a] = news(b); } 
            if(t == 1) { while(buzzdarray_size(nd[a]->c.value.actrec)) buzzdarray_pop(nd[a]->c.value.actrec); for(j = 0; j < E; ++j) { buzzobj_t z = newnil(); buzzdarray_push(nd[a]->c.value.actrec, &z); } } }
         else if(o < 6 && kind[a] != 2) { uint32_t e = vf_rand(E); int d = vf_rand(big); if(!nd[d] || vf_rand(4) == 0) d = -1; buzzobj_t v = d < 0 ? newnil() : nd[d]; edge[a][e] = d;
            if(kind[a] == 1) buzzdarray_set(nd[a]->c.value.actrec, e, &v);
            else { char kb[16]; snprintf(kb, sizeof(kb), "key%u", e); buzzobj_t tk = newi(e); if(kind[a] == 3) { snprintf(kb, sizeof(kb), "key%u-%u", e, a); tk = news(kb); }
               if(d < 0) { buzzobj_t tmp = v; buzzvm_push(vm, nd[a]); buzzvm_push(vm, tk); buzzvm_push(vm, tmp); buzzvm_tput(vm); } else tset(nd[a], tk, v);
               /* a closure put in a table is copied with the table as its self */
               if(d >= 0 && kind[d] == 1) { edge[a][e] = -1; buzzobj_t z = newnil(); buzzvm_push(vm, nd[a]); buzzvm_push(vm, tk); buzzvm_push(vm, z); buzzvm_tput(vm); } } }
         else if(o == 7) { uint32_t g = vf_rand(NG); snprintf(b, sizeof(b), "g%u", g); buzzvm_pushs(vm, buzzvm_string_register(vm, b, 1)); buzzvm_push(vm, nd[a]); buzzvm_gstore(vm); ig[g] = a; }
         else if(o == 8) { if(ns < NS && vf_rand(2)) { buzzvm_push(vm, nd[a]); is[ns++] = a; } else if(ns) { buzzvm_pop(vm); --ns; } }
         else if(o == 9) { uint32_t g = vf_rand(NG); buzzobj_t vk = newi(g); buzzvstig_elem_t e = buzzvstig_elem_new(nd[a], 1, 1); buzzdict_set(vs->data, &vk, &e); iv[g] = a; }
      }
      if(vf_rand(3) == 0) { for(i = 0; i < NG; ++i) if(vf_rand(2)) { snprintf(b, sizeof(b), "g%u", i); buzzvm_pushs(vm, buzzvm_string_register(vm, b, 1)); buzzvm_pushnil(vm); buzzvm_gstore(vm); ig[i] = -1; } }
      collect();
      memset(reach, 0, sizeof(reach)); qa = qb = 0;
#define VISIT(X_) do { int x_ = (X_); if(x_ >= 0 && !reach[x_]) { reach[x_] = 1; q[qb++] = x_; } } while(0)
      for(i = 0; i < NG; ++i) { VISIT(ig[i]); VISIT(iv[i]); } for(i = 0; i < ns; ++i) VISIT(is[i]);
      while(qa < qb) { i = q[qa++]; if(kind[i] != 2) for(j = 0; j < E; ++j) VISIT(edge[i][j]); }
      for(i = 0; i < big; ++i) if(nd[i]) {
         if(reach[i]) { vf_assert(inheap(nd[i]), "search: a value reachable from a root stays");
            if(kind[i] == 2) { snprintf(b, sizeof(b), "s%d", sval[i]); const char* t = buzzvm_string_get(vm, nd[i]->s.value.sid); vf_assert(t && t == nd[i]->s.value.str && !strcmp(t, b), "search: strings a reachable value uses stay"); }
            else if(kind[i] == 1) vf_assert(nd[i]->o.type == BUZZTYPE_CLOSURE, "search: a reachable function stays a function");
            else vf_assert(nd[i]->o.type == BUZZTYPE_TABLE, "search: a reachable table stays a table"); }
         else { vf_assert(!inheap(nd[i]), "search: an unreachable value is freed by the next collection"); nd[i] = NULL; } }
      for(i = 0; i < big; ++i) if(nd[i] && (kind[i] == 0 || kind[i] == 3)) for(j = 0; j < E; ++j) if(edge[i][j] >= 0) { buzzobj_t tk = newi(j); if(kind[i] == 3) { snprintf(b, sizeof(b), "key%u-%u", j, i); tk = news(b); } vf_assert(tat(nd[i], tk) == nd[edge[i][j]], "search: the fields of a reachable table keep their values"); }
   }
}
#endif
