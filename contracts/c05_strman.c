/* C05: string interning and its collection */
#include "vf.h"
#include <buzz/buzzstrman.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
//@ assume callers are checked against the dictionary contract (C02): a read gives the entry of the key or nothing, a write adds or replaces it, a removal takes it away
//@ assume on entry the two dictionaries agree (re-established by every operation) and the collection tree satisfies the search order
//@ assume termination of the search for a free identifier is not proved; it follows from fewer than 65536 identifiers being in use
struct strdata { char* str; int protect; };             /* as in buzzstrman.c */
struct node { uint16_t sid; struct node* left; struct node* right; };
typedef struct node* node_t;
__attribute__((weak)) void buzzstrman_gc_dispose(uint16_t sid, void* param);
__attribute__((weak)) void buzzstrman_gc_unmark(const void* key, void* data, void* param);
static buzzstrman_t SM;
/* ---- an arbitrary manager: identifier i is in use iff USED[i] ---- */
static uint8_t* USED; static uint32_t CNT;
static int s_found; static uint16_t s_id;               /* what the text operated on maps to */
static struct strdata* s_data;                          /* the entry of s_id */
static uint16_t* s_idp; static struct strdata** s_datap;
static const char* TXT; static char* COPY;
static int set1, set2, rem1, rem2; static uint16_t set_id, set2_id; static char* set_str; static struct strdata* set_sd;
static uint16_t o_id; static struct strdata** o_datap;  /* another identifier */
static void any_man(void) {
   SM = buzzstrman_new();
   USED = vf_buf("used", 65536); CNT = vf_u32("cnt"); vf_assume(CNT <= 65536);
   SM->maxsid = vf_u16("maxsid");
   SM->id2str->size = CNT; SM->str2id->size = CNT;
   set1 = set2 = rem1 = rem2 = 0; s_found = 0;
   TXT = (const char*)vf_abstract("txt"); COPY = NULL;
}
static void entry(uint16_t id, int prot) {
   s_id = id; s_found = 1;
   s_data = (struct strdata*)malloc(sizeof(struct strdata)); s_data->str = (char*)vf_abstract("text"); s_data->protect = prot;
   s_idp = (uint16_t*)malloc(2); *s_idp = id;
   s_datap = (struct strdata**)malloc(sizeof(void*)); *s_datap = s_data;
   vf_assume(USED[id]);
}
const void* vf_stub__buzzdict_rawget(buzzdict_t dt, const void* key) {
   if(dt == SM->str2id) {
      const char* k = *(const char**)key;
      vf_assert(k == TXT, "pre: the text looked up is the one asked for");
      return s_found ? s_idp : NULL;
   }
   vf_assert(dt == SM->id2str, "pre: a dictionary of the manager");
   uint16_t id = *(const uint16_t*)key;
   if(s_found && vf_fork(id == s_id)) return s_datap;
   if(!vf_fork(USED[id] != 0)) return NULL;
   return vf_abstract("entry");
}
void vf_stub__buzzdict_set(buzzdict_t dt, const void* key, const void* data) {
   if(dt == SM->str2id) { ++set1; set_str = *(char**)key; set_id = *(uint16_t*)data; }
   else { vf_assert(dt == SM->id2str, "pre: a dictionary of the manager"); ++set2; set2_id = *(uint16_t*)key; set_sd = *(struct strdata**)data; }
}
static char* rem_str; static char* s_text;
int vf_stub__buzzdict_remove(buzzdict_t dt, const void* key) {
   if(dt == SM->str2id) { ++rem1; rem_str = *(char**)key; vf_assert(rem_str == s_text && vf_live(rem_str), "pre: the removed text still exists"); }
   else { ++rem2; vf_assert(dt == SM->id2str && *(uint16_t*)key == s_id, "pre: the removed identifier is the one to dispose of"); free(s_data); }
   return 1;
}
char* vf_stub__strdup(const char* s) { vf_assert(s == TXT, "pre: the text copied is the one registered"); COPY = (char*)vf_abstract("copy"); return COPY; }
/* the search for a free identifier only changes the counter */
int vf_inv__buzzstrman_register__0(void) { return set1 == 0 && set2 == 0; }
void vf_mod__buzzstrman_register__0(void) { SM->maxsid = vf_u16("loop.maxsid"); }
//@ unit register_new fn=buzzstrman_register companion=hist
UNIT(register_new) {
   any_man(); vf_assume(CNT < 65536); int prot = vf_bool("prot");
   uint16_t id = buzzstrman_register(SM, TXT, prot);
   ENSURES(!USED[id], "a new text gets an identifier not in use");
   ENSURES(set1 == 1 && set2 == 1 && set_id == id && set2_id == id && COPY && set_str == COPY && set_sd->str == COPY, "a new text is recorded under its identifier, both ways, as a copy");
   ENSURES((set_sd->protect != 0) == (prot != 0), "a new text is protected as asked");
   ENSURES(!rem1 && !rem2, "registering removes nothing");
   vf_cover("end");
}
//@ unit register_known fn=buzzstrman_register companion=hist
UNIT(register_known) {
   any_man(); int prot = vf_bool("prot"), was = vf_bool("was"); entry(vf_u16("id"), was); char* t = s_data->str;
   uint16_t id = buzzstrman_register(SM, TXT, prot);
   ENSURES(id == s_id && !set1 && !set2 && !rem1 && !rem2, "a registered text keeps its identifier");
   ENSURES(s_data->str == t && *s_idp == id && *s_datap == s_data, "registering again changes no text");
   ENSURES((s_data->protect != 0) == (was || prot), "protection can be added and never taken away");
   vf_cover("end");
}
//@ unit get fn=buzzstrman_get companion=hist
UNIT(get) {
   any_man(); uint16_t id = vf_u16("id"); int there = vf_choose("there", 2);
   if(there) entry(id, vf_bool("was")); else vf_assume(!USED[id]);
   const char* r = buzzstrman_get(SM, id);
   if(there) ENSURES(r == s_data->str, "an identifier gives its text");
   else ENSURES(r == NULL, "an identifier not in use gives nothing");
   ENSURES(!set1 && !set2 && !rem1 && !rem2, "looking up changes nothing");
   vf_cover("end");
}
/* ---- the collection tree; q: an observed identifier, d: the one operated on ---- */
static uint16_t q, d;
struct sub { void* p; int hq, hd; };
static struct sub L, R, O; static uint16_t rk, rk2; static node_t root, rnode; static struct sub RL, RR;
static void sub(struct sub* s, const char* lab, int32_t l, int32_t h) {
   memset(s, 0, sizeof(*s));
   if(vf_choose(lab, 2) == 0) return;
   s->p = vf_abstract(lab);
   s->hq = vf_bool("hq"); s->hd = vf_bool("hd");
   vf_assume((q != d) | (s->hq == s->hd));
   vf_assume((!s->hq) | ((q > l) & (q < h)));
   vf_assume((!s->hd) | ((d > l) & (d < h)));
}
static node_t mknode(uint16_t k, void* l, void* r) { node_t n = (node_t)malloc(sizeof(struct node)); n->sid = k; n->left = (node_t)l; n->right = (node_t)r; return n; }
static void any_tree(int deep) {
   q = vf_u16("q"); rk = vf_u16("rk"); root = rnode = NULL;
   memset(&L, 0, sizeof(L)); memset(&R, 0, sizeof(R)); memset(&RL, 0, sizeof(L)); memset(&RR, 0, sizeof(R)); memset(&O, 0, sizeof(O));
   if(vf_choose("root", 2)) {
      sub(&L, "L", -1, rk);
      if(!deep) sub(&R, "R", rk, 65536);
      else if(vf_choose("R", 2)) {
         rk2 = vf_u16("rk2"); vf_assume(rk2 > rk);
         sub(&RL, "RL", rk, rk2); sub(&RR, "RR", rk2, 65536);
         rnode = mknode(rk2, RL.p, RR.p); R.p = rnode;
         R.hq = (q == rk2) | RL.hq | RR.hq; R.hd = (d == rk2) | RL.hd | RR.hd;
      }
      root = mknode(rk, L.p, R.p);
   }
   SM->gcdata = root;
}
static struct sub* known(void* p) {
   if(p == L.p) return &L;
   if(p == R.p) return &R;
   if(p == RL.p) return &RL;
   if(p == RR.p) return &RR;
   return &O;
}
static int has(uint16_t k) { return root && (k == rk || (k == q ? (L.hq || R.hq) : (L.hd || R.hd))); }
static int abstract(node_t n) { return n != rnode && (known(n) != &O || O.p == (void*)n); }
static int holds_q(node_t n) {
   if(!n) return 0;
   if(abstract(n)) return known(n)->hq;
   return (n->sid == q) | holds_q(n->left) | holds_q(n->right);
}
static int ordered(node_t n) {
   if(!n || abstract(n)) return 1;
   return ((!holds_q(n->left)) | (q < n->sid)) & ((!holds_q(n->right)) | (q > n->sid)) & (n->right != rnode || !rnode || ordered(rnode));
}
static void child_pre(void* n) { vf_assert(n == NULL || n == L.p || n == R.p || n == RL.p || n == RR.p, "pre: recursion on a child"); }
void* vf_rec__buzzidtree_insert(void* n, uint16_t sid) {
   child_pre(n); vf_assert(sid == d, "pre: the same identifier");
   if(!n) { O.p = vf_abstract("new"); O.hq = q == d; O.hd = 1; return O.p; }
   struct sub* x = known(n); x->hd = 1; x->hq |= q == d;
   return n;
}
static uint16_t MIN; static node_t MN;
void* vf_rec__buzzidtree_find_min(void* n) {
   child_pre(n); struct sub* x = known(n); MIN = vf_u16("min");
   vf_assert(n != NULL, "pre: the minimum of a tree with nodes");
   vf_assume(((!x->hq) | (MIN <= q)) & ((MIN != q) | x->hq) & (MIN > rk) & (MIN < rk2));
   MN = mknode(MIN, NULL, NULL);
   return MN;
}
void* vf_rec__buzzidtree_remove(void* n, uint16_t sid) {
   child_pre(n);
   if(n && n == (void*)rnode) vf_assert(rnode->sid == rk2 && rnode->left == RL.p && rnode->right == RR.p, "pre: the child is unchanged");
   if(!n) return NULL;
   struct sub* x = known(n);
   vf_assert(sid == d || sid == q || (MN && sid == MIN) || (rnode && sid == rk2), "pre: a known identifier");
   if(vf_choose("empty", 2)) { vf_assume((!x->hq) | (q == sid)); return NULL; }
   O.p = vf_abstract("rest"); O.hq = x->hq & (q != sid); O.hd = x->hd & (d != sid);
   return O.p;
}
//@ unit unmark fn=buzzstrman_gc_unmark,buzzidtree_insert,buzzidtree_new companion=gchist split=root:2
UNIT(unmark) {
   any_man(); d = vf_u16("d"); any_tree(0); int prot = vf_bool("prot"); entry(d, prot); int hq = has(q);
   char* key = s_data->str;
   buzzstrman_gc_unmark(&key, s_idp, SM);
   node_t t = (node_t)SM->gcdata;
   ENSURES(holds_q(t) == (hq || (q == d && !prot)), "a cycle starts with every unprotected string as a candidate, and no protected one");
   ENSURES(ordered(t), "adding a candidate keeps the search order");
   ENSURES(!set1 && !set2 && !rem1 && !rem2, "starting a cycle changes no string");
   vf_cover("end");
}
//@ unit mark fn=buzzstrman_gc_mark,buzzidtree_remove,buzzidtree_find_min companion=gchist split=root:2,R:2
UNIT(mark) {
   any_man(); d = vf_u16("d"); MN = NULL; any_tree(1); int prot = vf_bool("prot"), there = vf_choose("there", 2); int hq = has(q);
   if(there) entry(d, prot); else vf_assume(!USED[d]);
   vf_assume(IMPLIES(!there || prot, !has(d)));         /* only unprotected strings are candidates */
   buzzstrman_gc_mark(SM, d);
   node_t t = (node_t)SM->gcdata;
   ENSURES(holds_q(t) == (hq && q != d), "marking a string spares it, and no other");
   ENSURES(ordered(t), "marking keeps the search order");
   ENSURES(!set1 && !set2 && !rem1 && !rem2, "marking changes no string");
   vf_cover("end");
}
//@ unit dispose fn=buzzstrman_gc_dispose companion=gchist
UNIT(dispose) {
   any_man(); entry(vf_u16("id"), 0); char* t = s_data->str; free(s_data->str = (char*)malloc(4)); s_data->str = t = s_text = (char*)malloc(4);
   buzzstrman_gc_dispose(s_id, SM);
   ENSURES(rem1 == 1 && rem2 == 1 && rem_str == t && !set1 && !set2, "a disposed string is removed from both dictionaries");
   ENSURES(!vf_live(t), "a disposed string is released");
   vf_cover("end");
}
static uint32_t disposed_q, disposed_other; static int gone_q;
void vf_stub__buzzstrman_gc_dispose(uint16_t sid, void* param) { vf_assert(param == SM, "pre: disposing in the manager"); if(sid == q) ++disposed_q; else ++disposed_other; }
void vf_rec__buzzidtree_foreach(void* n, void (*fun)(uint16_t, void*), void* params) {
   child_pre(n); vf_assert(fun == buzzstrman_gc_dispose && params == SM, "pre: the same visit"); if(n) disposed_q += known(n)->hq;
}
static int freedL, freedR;
void vf_rec__buzzidtree_destroy(void* n) { child_pre(n); if(!n) return; if(n == L.p) ++freedL; if(n == R.p) ++freedR; }
//@ unit prune fn=buzzstrman_gc_prune,buzzidtree_foreach,buzzidtree_destroy companion=gchist split=root:2
UNIT(prune) {
   any_man(); d = q = 0; d = vf_u16("d"); any_tree(0); disposed_q = disposed_other = 0; freedL = freedR = 0; int hq = has(q);
   buzzstrman_gc_prune(SM);
   ENSURES(disposed_q == hq, "a cycle disposes of exactly the strings left as candidates, once");
   ENSURES(SM->gcdata == NULL, "a cycle ends with no candidates");
   if(root) ENSURES(!vf_live(root) && freedL == (L.p != NULL) && freedR == (R.p != NULL), "the collection tree is released");
   vf_cover("end");
}
static buzzdict_t fe_dt; static buzzdict_elem_funp fe_fun; static void* fe_prm;
void vf_stub__buzzdict_foreach(buzzdict_t dt, buzzdict_elem_funp fun, void* params) { fe_dt = dt; fe_fun = fun; fe_prm = params; }
//@ unit clear fn=buzzstrman_gc_clear companion=gchist
UNIT(clear) {
   any_man(); fe_dt = NULL;
   buzzstrman_gc_clear(SM);
   ENSURES(fe_dt == SM->str2id && fe_fun == buzzstrman_gc_unmark && fe_prm == SM, "a cycle starts with every string");
   vf_cover("end");
}
/* ---- bounded: real dictionaries ---- */
#define NT 4
static const char* T[NT] = { "a", "k", "", "ab" };       /* "a" and "k" fall in the same bucket */
static const char* txt(uint32_t i) { static char b[2][4]; static int w; w ^= 1; strcpy(b[w], T[i]); return b[w]; }
static void check(const uint16_t* id, const int* in) {
   uint32_t i, j, n = 0;
   for(i = 0; i < NT; ++i) if(in[i]) {
      ++n;
      const char* s = buzzstrman_get(SM, id[i]);
      ENSURES(s && !strcmp(s, T[i]), "an identifier gives its text (history)");
      for(j = 0; j < i; ++j) if(in[j]) ENSURES(id[i] != id[j], "different texts have different identifiers (history)");
   }
   ENSURES(buzzdict_size(SM->id2str) == n && buzzdict_size(SM->str2id) == n, "exactly the registered strings are kept (history)");
}
//@ unit hist fn=buzzstrman_register,buzzstrman_get mode=bounded split=s:4,s#1:4 note="4 registrations of 4 texts with any counter near the ends of its range"
UNIT(hist) {
   uint16_t id[NT]; int in[NT] = { 0 }; uint32_t n;
   SM = buzzstrman_new();
   static const uint16_t START[4] = { 0, 7, 65534, 65535 };
   SM->maxsid = START[vf_choose("start", 4)];
   for(n = 0; n < 4; ++n) {
      uint32_t k = vf_choose("s", NT);
      uint16_t x = buzzstrman_register(SM, txt(k), n & 1);
      if(in[k]) ENSURES(x == id[k], "equal texts have the same identifier (history)");
      else { id[k] = x; in[k] = 1; }
      check(id, in);
      if(n == 1) { uint16_t last = 65535; if(vf_choose("again", 2) && !buzzstrman_get(SM, last)) SM->maxsid = last; }   /* the counter comes round */
   }
   ENSURES(buzzstrman_get(SM, 300) == NULL, "an identifier not in use gives nothing (history)");
   vf_cover("end");
}
//@ unit gchist fn=buzzstrman_gc_clear,buzzstrman_gc_mark,buzzstrman_gc_prune mode=bounded split=prot:4,order:6,marks:16 note="4 strings in 6 identifier orders, any protection of two of them, one from the start and one later, two cycles, any mark set"
UNIT(gchist) {
   static const uint16_t ID[6][NT] = { { 1, 2, 3, 4 }, { 4, 3, 2, 1 }, { 2, 1, 3, 4 }, { 2, 4, 1, 3 }, { 1, 4, 2, 3 }, { 3, 1, 4, 2 } };
   uint16_t id[NT]; int in[NT], p[NT] = { 0 }; uint32_t i, c, o = vf_choose("order", 6), pr = vf_choose("prot", 4);
   p[0] = pr & 1; p[1] = pr >> 1;
   SM = buzzstrman_new();
   for(i = 0; i < NT; ++i) { SM->maxsid = ID[o][i]; id[i] = buzzstrman_register(SM, txt(i), i == 1 && p[i]); in[i] = 1; }
   if(p[0]) ENSURES(buzzstrman_register(SM, txt(0), 1) == id[0], "equal texts have the same identifier (history)");   /* protected later */
   check(id, in);
   for(c = 0; c < 2; ++c) {
      uint32_t m = c ? 8 : vf_choose("marks", 16);
      buzzstrman_gc_clear(SM);
      for(i = NT; i-- > 0;) if(m & (1u << i)) { buzzstrman_gc_mark(SM, id[i]); if(i == 2) buzzstrman_gc_mark(SM, id[i]); }
      buzzstrman_gc_prune(SM);
      for(i = 0; i < NT; ++i) if(in[i] && !p[i] && !(m & (1u << i))) { in[i] = 0; ENSURES(buzzstrman_get(SM, id[i]) == NULL, "a string neither protected nor marked is removed (history)"); }
      check(id, in);
   }
   for(i = 0; i < NT; ++i) { id[i] = buzzstrman_register(SM, txt(i), 0); in[i] = 1; }
   check(id, in);
   buzzstrman_destroy(&SM);
   ENSURES(SM == NULL, "a destroyed manager is gone");
   vf_cover("end");
}
#ifdef VF_NATIVE
//@ search history
SEARCH(history) {
   static char text[300][40]; static uint16_t id[300]; static uint8_t in[300], prot[300], mark[300]; uint32_t i, j, c, nt = 2 + vf_rand(298), n = 0, steps = 20 + vf_rand(400);
   memset(in, 0, sizeof(in)); memset(prot, 0, sizeof(prot));
   for(i = 0; i < 300; ++i) { uint32_t l = i % 30; memset(text[i], 'a' + i % 3, l); sprintf(text[i] + l, "%u", i); }
   text[0][0] = 0;
   buzzstrman_t m = buzzstrman_new();
   if(vf_rand(2)) m->maxsid = 65536 - vf_rand(300);
   for(i = 0; i < steps; ++i) {
      uint32_t k = vf_rand(nt), p = vf_rand(6) == 0; char b[40]; strcpy(b, text[k]);
      if(vf_rand(100) < 94) {
         uint16_t x = buzzstrman_register(m, b, p);
         if(in[k]) vf_assert(x == id[k], "search: equal texts have the same identifier"); else { ++n; in[k] = 1; id[k] = x; for(j = 0; j < nt; ++j) if(j != k && in[j]) vf_assert(id[j] != x, "search: different texts have different identifiers"); }
         prot[k] |= p; }
      else {
         uint32_t mk = vf_rand(101); buzzstrman_gc_clear(m);
         for(j = 0; j < nt; ++j) mark[j] = in[j] && vf_rand(100) < mk;
         for(c = 0; c < 2 * nt; ++c) { j = vf_rand(nt); if(mark[j]) buzzstrman_gc_mark(m, id[j]); }
         for(j = 0; j < nt; ++j) if(mark[j]) buzzstrman_gc_mark(m, id[j]);
         buzzstrman_gc_prune(m);
         for(j = 0; j < nt; ++j) if(in[j] && !prot[j] && !mark[j]) { in[j] = 0; --n; vf_assert(!buzzstrman_get(m, id[j]), "search: a string neither protected nor marked is removed"); } }
      for(j = 0; j < nt; ++j) if(in[j]) { const char* t = buzzstrman_get(m, id[j]); vf_assert(t && !strcmp(t, text[j]), "search: an identifier gives its text"); }
      vf_assert(buzzdict_size(m->id2str) == n && buzzdict_size(m->str2id) == n, "search: exactly the registered strings are kept");
   }
   buzzstrman_destroy(&m);
}
#endif
