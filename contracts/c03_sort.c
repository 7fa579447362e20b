/* C03: sorting.  An element has a key, which the comparison sees, and an id, which labels
 * it with its original position. */
#include "vf.h"
#include <buzz/buzzdarray.h>
#include <stdlib.h>
#include <string.h>
//@ assume elements are pointers in the proofs (records by value and strings in the bounded units); the comparison is a total preorder of integer keys; the id of an element is not visible to the comparison, so labelling elements by position loses no generality
//@ assume part: the partition invariant for all positions is used at the positions the loop touches and the two observed ones
//@ assume qsort: a recursive call works on a shorter range, so the recursion is well founded
struct el { int32_t key; uint32_t id; };
typedef struct el* el_t;
static buzzdarray_t A; static uint32_t N;
static int64_t LO, HI;                 /* the range being sorted */
static int64_t w1, w2, wo;             /* arbitrary positions: two inside the range, one outside */
static el_t EO;
static int cmp(const void* a, const void* b) { int32_t x = (*(el_t*)a)->key, y = (*(el_t*)b)->key; return x < y ? -1 : (x > y); }
static el_t at(int64_t i) { return ((el_t*)A->data)[i]; }
static void* any_el(uint64_t i) {
   el_t e = (el_t)malloc(sizeof(struct el));
   e->key = vf_i32("key"); e->id = vf_u16("id");
   return e;
}
static void fresh(void) { A->data = vf_lazyptrs("a", A->capacity, any_el); }
static void keep(int64_t i, el_t e) { vf_preset(A->data, (uint64_t)i, e); }
static void any_array(void) {
   N = vf_u16("n");
   if(vf_bounded()) vf_assume(N <= 5);
   A = buzzdarray_new(1, sizeof(el_t), NULL);
   free(A->data);
   A->size = N; A->capacity = N + 1;
   fresh();
}
static void any_range(void) {
   LO = vf_u16("lo"); HI = (int64_t)vf_u16("hi") - 1;
   w1 = vf_u16("w1"); w2 = vf_u16("w2"); wo = vf_u16("wo");
   vf_assume((HI < (int64_t)N) & (LO <= HI + 1) & (w1 < N) & (w2 < N) & (wo < N));
   vf_assume((LO <= w1) & (w1 < w2) & (w2 <= HI) & ((wo < LO) | (wo > HI)));
}
/* originally position i holds the element labelled i */
static void orig(int64_t i) { vf_assume(at(i)->id == (uint32_t)i); }
/* ---- partition ---- */
__attribute__((weak)) uint32_t buzzdarray_part(buzzdarray_t da, buzzdarray_elem_cmpp cmp, int64_t lo, int64_t hi);
__attribute__((weak)) void buzzdarray_qsort(buzzdarray_t da, buzzdarray_elem_cmpp cmp, int64_t lo, int64_t hi);
static el_t PIV;
/* position i < HI, with pt and k the loop variables (bitwise operators: no case split) */
static int one(int64_t i, int64_t pt, int64_t k) {
   el_t e = at(i); int64_t id = e->id;
   return ((i >= pt) | (e->key < PIV->key)) & ((i < pt) | (i >= k) | (e->key >= PIV->key)) & (id >= LO) & (id < HI);
}
static int two(int64_t i, int64_t j) { return (i == j) | (at(i)->id != at(j)->id); }
static int64_t WB;                     /* w2, or w1 when w2 is the pivot's position */
int vf_inv__buzzdarray_part__0(int64_t* pt, int64_t* k, void** t) {
   if(!((LO <= *pt) & (*pt <= *k) & (*k <= HI))) return 0;
   return one(w1, *pt, *k) & one(WB, *pt, *k) & two(w1, WB) & (at(HI) == PIV) & (at(wo) == EO);
}
void vf_mod__buzzdarray_part__0(int64_t* pt, int64_t* k, void** t) {
   vf_havoc(*t, sizeof(el_t));
   fresh(); keep(HI, PIV); keep(wo, EO);
   *pt = (int64_t)vf_u16("loop.pt"); *k = (int64_t)vf_u16("loop.k");
   vf_assume((LO <= *pt) & (*pt <= *k) & (*k <= HI));
   /* the invariant holds at every position: instances */
   if(vf_fork(*pt < HI)) {
      vf_assume(one(*pt, *pt, *k) & two(w1, *pt) & two(WB, *pt));
      if(vf_fork(*k < HI)) vf_assume(one(*k, *pt, *k) & two(w1, *k) & two(WB, *k) & two(*pt, *k));
   }
}
//@ unit part fn=buzzdarray_part companion=sort
UNIT(part) {
   any_array(); any_range(); vf_assume(LO < HI);
   orig(w1); orig(w2); orig(wo); orig(HI);
   PIV = at(HI); EO = at(wo); WB = vf_fork(w2 == HI) ? w1 : w2;
   int64_t p = buzzdarray_part(A, cmp, LO, HI);
   ENSURES(A->size == N, "partitioning keeps the length");
   ENSURES((LO <= p) & (p <= HI), "the pivot is inside the range"); ENSURES(at(p) == PIV, "the pivot is where it says");
   ENSURES(((w1 >= p) | (at(w1)->key < PIV->key)) & ((w1 <= p) | (at(w1)->key >= PIV->key)) & ((w2 >= p) | (at(w2)->key < PIV->key)) & ((w2 <= p) | (at(w2)->key >= PIV->key)), "smaller elements lie before the pivot, the others after");
   ENSURES((at(w1)->id >= LO) & (at(w1)->id <= HI), "every element comes from the range");
   ENSURES(at(w1)->id != at(w2)->id, "no element is duplicated or lost by partitioning");
   ENSURES(at(wo) == EO, "elements outside the range stay");
   vf_cover("end");
}
/* ---- recursion ---- */
static int64_t P; static int g_part, m1, m2, g_sorted;
/* contract of the partition: everything in the range may move; facts are given where they are used */
uint32_t vf_stub__buzzdarray_part(buzzdarray_t da, buzzdarray_elem_cmpp c, int64_t lo, int64_t hi) {
   vf_assert(da == A && c == cmp && 0 <= lo && lo < hi && hi < (int64_t)N, "pre: partition of a range of the array");
   vf_assert((lo == LO) & (hi == HI), "pre: partition of the range being sorted");
   fresh(); keep(wo, EO);
   P = (int64_t)vf_u16("p"); vf_assume((lo <= P) & (P <= hi)); ++g_part;
   return (uint32_t)P;
}
/* instance of the partition's postcondition at position i */
static void parted(int64_t i) {
   el_t e = at(i); int32_t pk = at(P)->key;
   vf_assume((e->id >= LO) & (e->id <= HI) & ((i >= P) | (e->key < pk)) & ((i <= P) | (e->key >= pk)));
}
static void distinct(int64_t i, int64_t j) { vf_assume((i == j) | (at(i)->id != at(j)->id)); }
/* contract of sorting a range: w1 and w2, where inside, hold elements of the range, different ones, in order */
void vf_rec__buzzdarray_qsort(buzzdarray_t da, buzzdarray_elem_cmpp c, int64_t lo, int64_t hi) {
   vf_assert(da == A && c == cmp, "pre: recursion on the same array");
   vf_assert((lo >= LO) & (hi <= HI) & (hi - lo < HI - LO) & (hi >= lo - 1), "pre: recursion on a part of the range");
   if(!vf_fork(lo < hi)) return;
   vf_assert((hi < P) | (lo > P), "pre: recursion on one side of the pivot");
   int in1 = vf_fork((lo <= w1) & (w1 <= hi)), in2 = vf_fork((lo <= w2) & (w2 <= hi));
   el_t e1 = at(w1), e2 = at(w2), ep = at(P); int64_t s1 = 0, s2 = 0;
   if(in1) { s1 = (int64_t)vf_u16("src"); vf_assume((lo <= s1) & (s1 <= hi)); parted(s1); distinct(s1, P); if(!in2) distinct(s1, w2); }
   if(in2) { s2 = (int64_t)vf_u16("src"); vf_assume((lo <= s2) & (s2 <= hi)); parted(s2); distinct(s2, P); if(!in1) distinct(s2, w1); }
   if(in1) e1 = at(s1);
   if(in2) e2 = at(s2);
   if(in1 && in2) { vf_assume(s1 != s2); distinct(s1, s2); vf_assume(e1->key <= e2->key); }
   fresh(); keep(P, ep); keep(wo, EO); keep(w1, e1); keep(w2, e2);
   m1 |= in1; m2 |= in2;
}
//@ unit qsort fn=buzzdarray_qsort companion=sort
UNIT(qsort) {
   any_array(); any_range(); vf_assume(LO < HI);
   orig(w1); orig(w2); orig(wo);
   EO = at(wo); g_part = m1 = m2 = 0; g_sorted = -1;
   buzzdarray_qsort(A, cmp, LO, HI);
   /* positions no recursive call moved are as partitioned */
   if(g_part) {
      if(!m1) { parted(w1); distinct(w1, P); distinct(w1, w2); }
      if(!m2) { parted(w2); distinct(w2, P); distinct(w1, w2); }
   }
   ENSURES(A->size == N, "sorting keeps the length");
   ENSURES(at(w1)->key <= at(w2)->key, "elements are in non-decreasing order");
   ENSURES((at(w1)->id >= LO) & (at(w1)->id <= HI) & (at(w2)->id >= LO) & (at(w2)->id <= HI), "every element was in the array");
   ENSURES(at(w1)->id != at(w2)->id, "no element is duplicated or lost");
   ENSURES(at(wo) == EO, "elements outside the range stay");
   vf_cover("end");
}
//@ unit short fn=buzzdarray_qsort companion=sort
UNIT(short) {
   any_array(); LO = vf_u16("lo"); HI = (int64_t)vf_u16("hi") - 1; wo = vf_u16("wo");
   vf_assume((HI < (int64_t)N) & (LO <= HI + 1) & (wo < N) & (LO >= HI));
   EO = at(wo);
   buzzdarray_qsort(A, cmp, LO, HI);
   ENSURES(A->size == N && at(wo) == EO, "a range of at most one element stays as it is");
   vf_cover("end");
}
/* ---- sort: the whole array ---- */
void vf_stub__buzzdarray_qsort(buzzdarray_t da, buzzdarray_elem_cmpp c, int64_t lo, int64_t hi) {
   if(g_sorted < 0) { vf_rec__buzzdarray_qsort(da, c, lo, hi); return; }
   vf_assert(da == A && c == cmp, "pre: sorting the array given");
   vf_assert(N < 2 || (lo == 0 && hi == (int64_t)N - 1), "pre: sorting the whole array");
   vf_assert(hi < (int64_t)N, "pre: sorting inside the array");
   ++g_sorted;
}
//@ unit whole fn=buzzdarray_sort companion=sort
UNIT(whole) {
   any_array(); g_sorted = 0;
   buzzdarray_sort(A, cmp);
   ENSURES(A->size == N && (N < 2 || g_sorted == 1), "sorting sorts the whole array");
   vf_cover("end");
}
/* ---- bounded: the interface alone ---- */
static int vcmp(const void* a, const void* b) { int32_t x = ((el_t)a)->key, y = ((el_t)b)->key; return x < y ? -1 : (x > y); }
static int rev(const void* a, const void* b) { return vcmp(b, a); }
//@ unit sort fn=buzzdarray_sort mode=bounded split=n:6,rev:2 note="arrays of 0 to 5 arbitrary elements, ascending and descending"
UNIT(sort) {
   uint32_t n = vf_choose("n", 6), i, seen = 0; int down = vf_choose("rev", 2); int32_t key[5];
   A = buzzdarray_new(1, sizeof(struct el), NULL);
   for(i = 0; i < n; ++i) { struct el e; e.key = key[i] = vf_i32("k"); e.id = i; buzzdarray_push(A, &e); }
   buzzdarray_sort(A, down ? rev : vcmp);
   ENSURES(buzzdarray_size(A) == n, "sorting keeps the length (history)");
   for(i = 0; i < n; ++i) {
      struct el e = buzzdarray_get(A, i, struct el);
      ENSURES(e.id < n && !(seen & (1u << e.id)) && key[e.id] == e.key, "sorting keeps exactly the elements (history)");
      seen |= 1u << e.id;
      if(i) ENSURES((down ? rev : vcmp)(&buzzdarray_get(A, i - 1, struct el), &buzzdarray_get(A, i, struct el)) <= 0, "the elements are in order (history)");
   }
   vf_cover("end");
}
static int scmp(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
//@ unit strings fn=buzzdarray_sort mode=bounded note="3 string pointers, as the compiler sorts its string list" split=i:3,j:3,k:3
UNIT(strings) {
   static const char* T[3] = { "a", "ab", "b" }; uint32_t x[3], i, c[3] = { 0 };
   x[0] = vf_choose("i", 3); x[1] = vf_choose("j", 3); x[2] = vf_choose("k", 3);
   A = buzzdarray_new(1, sizeof(char*), NULL);
   for(i = 0; i < 3; ++i) { buzzdarray_push(A, &T[x[i]]); ++c[x[i]]; }
   buzzdarray_sort(A, scmp);
   uint32_t p = 0, r;
   for(r = 0; r < 3; ++r) for(i = 0; i < c[r]; ++i, ++p) ENSURES(buzzdarray_get(A, p, const char*) == T[r], "strings are sorted (history)");
   vf_cover("end");
}
#ifdef VF_NATIVE
struct s_el { int32_t key; uint32_t id; uint8_t pad[16]; };
static int s_cmp(const void* a, const void* b) { int32_t x = ((struct s_el*)a)->key, y = ((struct s_el*)b)->key; return x < y ? -1 : x > y; }
static int s_rev(const void* a, const void* b) { return s_cmp(b, a); }
//@ search history
SEARCH(history) {
   static uint8_t seen[3000]; static int32_t key[3000]; struct s_el e; uint32_t i, n = vf_rand(vf_rand(3) ? 40 : 3000), range = 1 + vf_rand(vf_rand(2) ? 4 : 1u << 31), mode = vf_rand(5), es = 8 + 8 * vf_rand(3); int down = vf_rand(2);
   buzzdarray_t d = buzzdarray_new(1, es, NULL); memset(&e, 0, sizeof(e)); memset(seen, 0, sizeof(seen));
   for(i = 0; i < n; ++i) { e.key = mode == 1 ? (int32_t)i : mode == 2 ? (int32_t)(n - i) : mode == 3 ? (int32_t)(i < n / 2 ? i : n - i) : (int32_t)(vf_rand(range) - range / 2); if(mode < 4 && mode && n < 2000 && !vf_rand(20)) e.key = vf_rand(n); e.id = i; key[i] = e.key; buzzdarray_push(d, &e); }
   buzzdarray_sort(d, down ? s_rev : s_cmp);
   vf_assert(buzzdarray_size(d) == n, "search: sorting keeps the length");
   for(i = 0; i < n; ++i) {
      struct s_el* r = (struct s_el*)VF_AT(d, i);
      vf_assert(r->id < n && !seen[r->id] && key[r->id] == r->key, "search: sorting keeps exactly the elements"); seen[r->id] = 1;
      if(i) vf_assert((down ? s_rev : s_cmp)(VF_AT(d, i - 1), r) <= 0, "search: the elements are in order"); }
}
#endif
