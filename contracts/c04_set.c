/* C04: ordered sets */
#include "vf.h"
#include <buzz/buzzset.h>
#include <stdlib.h>
#include <string.h>
//@ assume the comparison function is a total preorder; elements are {key, payload} records compared by key
//@ assume a tree satisfies the search order on entry (re-established by every operation); subtrees are finite, so the recursion on a child is well founded
struct el { int32_t key; int32_t id; };
struct node { void* data; struct node* left; struct node* right; };    /* as in buzzset.c */
typedef struct node* node_t;
static int cmp(const void* a, const void* b) { int32_t x = ((struct el*)a)->key, y = ((struct el*)b)->key; return x < y ? -1 : (x > y); }
/* q: an arbitrary observed key; d: the key operated on */
static int32_t q, d;
/* what is known of a subtree: whether it holds q and d, how many elements */
struct sub { void* p; int hq, hd; uint32_t n; };
static struct sub L, R, RL, RR, O;
static int32_t rk;            /* key of the root */
static int32_t lo, hi; static int haslo, hashi;
static buzzset_t S;
static node_t root, rnode; static int32_t rk2; static void* rdata;
static uint32_t destroyed, wrong, visits, qvisits; static int32_t did;
static void* prm;

static int above(int32_t k, int on, int32_t b) { return !on || k > b; }
static int below(int32_t k, int on, int32_t b) { return !on || k < b; }
/* any subtree with keys in (lo, hi) */
static void sub(struct sub* s, const char* lab, int hl, int32_t l, int hh, int32_t h) {
   memset(s, 0, sizeof(*s));
   if(vf_choose(lab, 2) == 0) return;
   s->p = vf_abstract(lab);
   s->hq = vf_bool("hq"); s->hd = vf_bool("hd"); s->n = vf_u32("n");
   vf_assume(s->n >= 1 && s->n < (1u << 20));
   vf_assume(IMPLIES(q == d, s->hq == s->hd));
   vf_assume(IMPLIES(s->hq && s->hd && q != d, s->n >= 2));
   vf_assume(IMPLIES(s->hq, above(q, hl, l) && below(q, hh, h)));
   vf_assume(IMPLIES(s->hd, above(d, hl, l) && below(d, hh, h)));
}
static node_t mknode(int32_t key, int32_t id, void* l, void* r) {
   node_t n = (node_t)malloc(sizeof(struct node));
   struct el* e = (struct el*)malloc(sizeof(struct el)); e->key = key; e->id = id;
   n->data = e; n->left = (node_t)l; n->right = (node_t)r;
   return n;
}
static void dst(void* data, void* params) {
   const struct el* e = (const struct el*)data;
   if(e->key == d) { ++destroyed; did = e->id; } else ++wrong;
}
static int32_t rid;
static struct sub* known(void* p) {
   if(p == L.p) return &L;
   if(p == R.p || (rnode && p == (void*)rnode)) return &R;
   if(p == RL.p) return &RL;
   if(p == RR.p) return &RR;
   return &O;
}
/* any set; deep: the right child is known down to its children */
static void any_set(int deep) {
   q = vf_i32("q"); d = vf_i32("d"); rk = vf_i32("rk"); rid = vf_i32("rid");
   destroyed = wrong = visits = qvisits = 0;
   S = buzzset_new(sizeof(struct el), cmp, vf_choose("dstry", 2) ? (buzzset_elem_funp)dst : NULL);
   memset(&L, 0, sizeof(L)); memset(&R, 0, sizeof(R)); memset(&RL, 0, sizeof(RL)); memset(&RR, 0, sizeof(RR)); memset(&O, 0, sizeof(O));
   root = rnode = NULL; rdata = NULL;
   if(!vf_choose("root", 2)) return;
   sub(&L, "L", 0, 0, 1, rk);
   if(!deep) sub(&R, "R", 1, rk, 0, 0);
   else if(vf_choose("R", 2)) {
      rk2 = vf_i32("rk2"); vf_assume(rk2 > rk);
      sub(&RL, "RL", 1, rk, 1, rk2); sub(&RR, "RR", 1, rk2, 0, 0);
      rnode = mknode(rk2, vf_i32("rid2"), RL.p, RR.p); rdata = rnode->data;
      R.p = rnode; R.n = 1 + RL.n + RR.n; R.hq = q == rk2 || RL.hq || RR.hq; R.hd = d == rk2 || RL.hd || RR.hd;
   }
   root = mknode(rk, rid, L.p, R.p);
   S->data = root;
   S->size = 1 + L.n + R.n;
}
static int has(int32_t k) { return root && (k == rk || (k == q ? (L.hq || R.hq) : (L.hd || R.hd))); }
static struct sub* of(node_t p) { static struct sub none; if(!p) return &none; return known(p); }
/* the tree below n holds q */
static int holds_q(node_t n) {
   if(!n) return 0;
   struct sub* s = known(n);
   if(n != rnode && (s != &O || s->p == (void*)n)) return s->hq;
   return ((struct el*)n->data)->key == q || holds_q(n->left) || holds_q(n->right);
}
static uint32_t count(node_t n) {
   if(!n) return 0;
   struct sub* s = known(n);
   if(n != rnode && (s != &O || s->p == (void*)n)) return s->n;
   return 1 + count(n->left) + count(n->right);
}
static int ordered(node_t n) {
   if(!n || (n != rnode && (known(n) != &O || O.p == (void*)n))) return 1;
   int32_t k = ((struct el*)n->data)->key;
   return IMPLIES(holds_q(n->left), q < k) && IMPLIES(holds_q(n->right), q > k) && (!n->right || n->right != rnode || n == rnode || ordered(rnode));
}
static void child_pre(void* n) { vf_assert(n == NULL || n == L.p || n == R.p || n == RL.p || n == RR.p, "pre: recursion on a child"); }
static void untouched(void) {
   if(rnode) vf_assert(((struct el*)rnode->data)->key == rk2 && rnode->data == rdata && rnode->left == RL.p && rnode->right == RR.p, "pre: the child is unchanged");
}
/* contracts of the recursive functions, used for the recursive calls */
void* vf_rec__buzzset_tree_insert(buzzset_t s, void* n, const void* data, int* added) {
   child_pre(n); vf_assert(s == S && ((struct el*)data)->key == d, "pre: the same element");
   if(!n) { *added = 1; O.p = vf_abstract("new"); O.hq = q == d; O.hd = 1; O.n = 1; return O.p; }
   struct sub* x = known(n);
   *added = !x->hd; if(!x->hd) { x->hd = 1; ++x->n; if(q == d) x->hq = 1; }
   return n;
}
static node_t FN;
void* vf_rec__buzzset_tree_find(buzzset_t s, void* n, const void* data) {
   child_pre(n); vf_assert(s == S && ((struct el*)data)->key == d, "pre: the same element");
   if(!n || !vf_fork(known(n)->hd)) return NULL;
   FN = mknode(d, vf_i32("fid"), NULL, NULL);
   return FN;
}
static void* minus(struct sub* x, int32_t k) {
   if(vf_fork(x->n == 1)) { x->n = 0; x->hq = x->hd = 0; return NULL; }
   O.p = vf_abstract("rest"); O.n = x->n - 1; O.hq = x->hq && q != k; O.hd = x->hd && d != k;
   return O.p;
}
void* vf_rec__buzzset_tree_remove(buzzset_t s, void* n, const void* data, int* removed) {
   child_pre(n); untouched(); vf_assert(s == S && ((struct el*)data)->key == d, "pre: the same element");
   if(!n || !vf_fork(known(n)->hd)) { *removed = 0; return n; }
   *removed = 1; if(S->dstryf) { ++destroyed; }
   return minus(known(n), d);
}
static struct el* MIN;
void* vf_rec__buzzset_tree_remove_min(void* n, void** data) {
   child_pre(n); struct sub* x = known(n); int32_t m = vf_i32("min");
   vf_assert(n != NULL, "pre: the minimum of a tree with elements");
   vf_assume(IMPLIES(x->hq, m <= q) && IMPLIES(m == q, x->hq) && IMPLIES(x->n == 1 && x->hq, m == q));
   vf_assume(m > rk && m < rk2 && IMPLIES(x->hd, m <= d) && IMPLIES(m == d, x->hd));
   MIN = (struct el*)malloc(sizeof(struct el)); MIN->key = m; MIN->id = vf_i32("minid");
   *data = MIN;
   return minus(x, m);
}
static buzzset_elem_funp FUN;
static void visit(void* data, void* params) { ++visits; if(((struct el*)data)->key == q) ++qvisits; if(params != prm) ++wrong; }
void vf_rec__buzzset_tree_foreach(void* n, buzzset_elem_funp fun, void* params) {
   child_pre(n); vf_assert(fun == visit && params == prm, "pre: the same visit");
   if(!n) return;
   visits += known(n)->n; qvisits += known(n)->hq;
}
static uint32_t gone;
void vf_rec__buzzset_tree_destroy(buzzset_t s, void* n) {
   child_pre(n); vf_assert(s == S, "pre: destroying the children"); if(n) gone += known(n)->n;
}
//@ unit insert fn=buzzset_insert,buzzset_tree_insert,buzzset_tree_new companion=hist split=root:2
UNIT(insert) {
   any_set(0); int hd = has(d), hq = has(q); uint32_t n = S->size;
   struct el e; e.key = d; e.id = vf_i32("id");
   buzzset_insert(S, &e);
   node_t t = (node_t)S->data;
   ENSURES(S->size == n + !hd && count(t) == S->size, "inserting adds one element exactly if it was absent");
   ENSURES(holds_q(t) == (hq || q == d), "after inserting the set holds what it held and the new element");
   ENSURES(ordered(t), "inserting keeps the search order");
   if(!root) ENSURES(t && ((struct el*)t->data)->key == d && ((struct el*)t->data)->id == e.id && t->data != &e && !t->left && !t->right, "the set stores a copy of the element");
   else ENSURES(t == root && ((struct el*)t->data)->key == rk && ((struct el*)t->data)->id == rid, "elements present are not altered");
   ENSURES(!destroyed && !wrong, "inserting destroys nothing");
   vf_cover("end");
}
//@ unit find fn=buzzset_find,buzzset_tree_find companion=hist split=root:2
UNIT(find) {
   any_set(0); int hd = has(d); struct el e; e.key = d; e.id = 0;
   struct el* r = (struct el*)buzzset_find(S, &e);
   ENSURES((r != NULL) == hd, "lookup finds an element exactly if it is present");
   if(r) { ENSURES(r->key == d, "lookup gives the element asked for"); if(d == rk) ENSURES(r == root->data, "lookup gives the stored element"); }
   vf_cover("end");
}
//@ unit remove fn=buzzset_remove,buzzset_tree_remove companion=hist split=root:2,R:2
UNIT(remove) {
   any_set(1); int hd = has(d), hq = has(q); uint32_t n = S->size; void* old = root ? root->data : NULL;
   struct el e; e.key = d; e.id = 0;
   buzzset_remove(S, &e);
   node_t t = (node_t)S->data;
   ENSURES(S->size == n - hd && count(t) == S->size, "removing takes one element exactly if it was present");
   ENSURES(holds_q(t) == (hq && q != d), "after removing the set holds everything else");
   ENSURES(ordered(t), "removing keeps the search order");
   ENSURES(destroyed == (S->dstryf && hd) && !wrong, "exactly the removed element is destroyed, once");
   if(root) { if(d == rk) { ENSURES(!S->dstryf || did == rid, "the removed element is destroyed"); ENSURES(!vf_live(old), "the removed element is released"); }
              else ENSURES(t == root && t->data == old && ((struct el*)old)->key == rk && ((struct el*)old)->id == rid, "other elements are not altered"); }
   vf_cover("end");
}
//@ unit foreach fn=buzzset_foreach,buzzset_tree_foreach companion=hist split=root:2
UNIT(foreach) {
   any_set(0); int hq = has(q); uint32_t n = S->size; prm = &visits;
   buzzset_foreach(S, visit, prm);
   ENSURES(visits == n && qvisits == hq && !wrong, "iteration visits every element once, with the parameter");
   ENSURES(S->size == n && S->data == root, "iteration changes nothing");
   vf_cover("end");
}
//@ unit destroy fn=buzzset_destroy,buzzset_tree_destroy companion=hist split=root:2
UNIT(destroy) {
   any_set(0); gone = 0; uint32_t n = S->size; buzzset_t s = S; void* old = root ? root->data : NULL; int ds = S->dstryf != NULL;
   if(root) vf_assume(d == rk);
   buzzset_destroy(&s);
   ENSURES(s == NULL && !vf_live(S), "a destroyed set is gone");
   if(root) { ENSURES(!vf_live(root) && !vf_live(old) && gone == n - 1, "destroying a set releases every element"); ENSURES(destroyed == ds && !wrong && (!ds || did == rid), "destroying a set destroys every element once"); }
   vf_cover("end");
}
//@ unit new fn=buzzset_new companion=hist
UNIT(new) {
   uint32_t es = vf_u32("es");
   S = buzzset_new(es, cmp, dst);
   ENSURES(S->size == 0 && S->data == NULL && S->data_size == es && S->cmpf == cmp && S->dstryf == (buzzset_elem_funp)dst, "a new set is empty");
   vf_cover("end");
}
/* bounded histories through the interface alone */
static int32_t K[6]; static int dcount[6], vcount[6], vbad;
static void dst2(void* data, void* params) { ++dcount[((struct el*)data)->id]; }
static void vis2(void* data, void* params) { const struct el* e = (const struct el*)data; if(e->key != K[e->id] || params != K) vbad = 1; ++vcount[e->id]; }
static void check_all(uint32_t nk, const int* in, const int* dead) {
   uint32_t i, n = 0; struct el e;
   for(i = 0; i < nk; ++i) {
      e.key = K[i]; e.id = 9; struct el* r = (struct el*)buzzset_find(S, &e); n += in[i]; vcount[i] = 0;
      ENSURES((r != NULL) == in[i] && (!r || (r->key == K[i] && r->id == (int32_t)i)), "lookup finds exactly what is present (history)");
      ENSURES(dcount[i] == dead[i], "exactly what was removed was destroyed, once (history)");
   }
   ENSURES(S->size == n, "the size is the number of elements (history)");
   vbad = 0; buzzset_foreach(S, vis2, K);
   for(i = 0; i < nk; ++i) ENSURES(vcount[i] == in[i] && !vbad, "iteration visits every element once (history)");
}
//@ unit hist fn=buzzset_insert,buzzset_remove,buzzset_find,buzzset_foreach,buzzset_destroy mode=bounded split=a:5,twice:5 note="all insertion orders of 5 arbitrary different keys, then two removals, a reinsertion, destruction"
UNIT(hist) {
   uint32_t i, j; int in[5], dead[5]; struct el e;
   uint32_t a = vf_choose("a", 5), b = vf_choose("twice", 5);
   for(i = 0; i < 5; ++i) { K[i] = vf_i32("k"); for(j = 0; j < i; ++j) vf_assume(K[i] != K[j]); in[i] = 1; dead[i] = dcount[i] = 0; }
   S = buzzset_new(sizeof(struct el), cmp, dst2);
   for(i = 0; i < 5; ++i) { e.key = K[i]; e.id = i; buzzset_insert(S, &e); }
   e.key = K[a]; e.id = a; buzzset_insert(S, &e);          /* again */
   check_all(5, in, dead);
   buzzset_remove(S, &e); in[a] = 0; dead[a] = 1; check_all(5, in, dead);
   e.key = K[b]; buzzset_remove(S, &e); if(in[b]) { in[b] = 0; dead[b] = 1; } check_all(5, in, dead);
   e.key = K[a]; e.id = a; buzzset_insert(S, &e); in[a] = 1; check_all(5, in, dead);
   buzzset_destroy(&S);
   for(i = 0; i < 5; ++i) ENSURES(dcount[i] == dead[i] + in[i], "destroying a set destroys every element once (history)");
   vf_cover("end");
}
#ifdef VF_NATIVE
static uint32_t s_des[400], s_seen[400]; static int s_bad;
static void s_dst(void* d, void* p) { ++s_des[((struct el*)d)->key]; }
static void s_vis(void* d, void* p) { int32_t k = ((struct el*)d)->key; if(k < 0 || k >= 400 || ((struct el*)d)->id != 3 * k + 1 || p != &s_bad) s_bad = 1; else ++s_seen[k]; }
static int s_cmp(const void* a, const void* b) { int32_t x = ((struct el*)a)->key, y = ((struct el*)b)->key; return x < y ? -1 : x > y; }
//@ search history
SEARCH(history) {
   uint32_t nk = 2 + vf_rand(398), steps = 10 + vf_rand(2000), i, j, n = 0, rm = 0, up = vf_rand(3); uint8_t in[400] = { 0 }; struct el e;
   buzzset_t s = buzzset_new(sizeof(struct el), s_cmp, s_dst);
   for(i = 0; i < steps; ++i) {
      uint32_t k = up == 1 ? i % nk : up == 2 ? nk - 1 - i % nk : vf_rand(nk);
      if(i % 100 == 0) { rm = i ? vf_rand(100) : 10; up = vf_rand(4); }
      e.key = k; e.id = 3 * k + 1; memset(s_des, 0, sizeof(s_des));
      if(vf_rand(100) < rm) { buzzset_remove(s, &e); for(j = 0; j < nk; ++j) vf_assert(s_des[j] == (j == k && in[k]), "search: exactly what is removed is destroyed, once"); n -= in[k]; in[k] = 0; }
      else { buzzset_insert(s, &e); n += !in[k]; in[k] = 1; }
      vf_assert(buzzset_size(s) == n, "search: the size is the number of elements");
      if(i % 8 == 0 || i + 1 == steps) {
         for(j = 0; j < nk; ++j) { s_seen[j] = 0; e.key = j; e.id = -1; struct el* r = (struct el*)buzzset_find(s, &e); vf_assert((r != NULL) == in[j] && (!r || (r->key == (int32_t)j && r->id == (int32_t)(3 * j + 1))), "search: lookup finds exactly what is present"); }
         s_bad = 0; buzzset_foreach(s, s_vis, &s_bad); for(j = 0; j < nk; ++j) vf_assert(!s_bad && s_seen[j] == in[j], "search: iteration visits every element once"); }
   }
   memset(s_des, 0, sizeof(s_des)); buzzset_destroy(&s); for(j = 0; j < nk; ++j) vf_assert(s_des[j] == in[j], "search: destroying destroys every element once");
}
#endif
