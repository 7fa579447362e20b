/* C02 - a dictionary is a finite map.
 *
 * White-box units: an arbitrary dictionary (any number of buckets, any bucket
 * length, any hash function) that satisfies the representation invariant
 *   - a bucket is NULL or a non-empty array of {key,data} blocks,
 *   - keys are pairwise different and stored in the bucket of their hash.
 * K is the key operated on, W an arbitrary other key (the witness). */
#include "vf.h"
#include <buzz/buzzdict.h>
#include <stdlib.h>
#include <string.h>
//@ assume keys are 4 bytes and data 8 bytes in the white-box units; the hash function is arbitrary but deterministic
//@ assume a bucket holds fewer than 2^26 entries

typedef struct { void* key; void* data; } ent_t;

static uint32_t K, W, HK, HW;
static int g_hashbad;
static uint32_t hashf(const void* key) {
   uint32_t k = *(const uint32_t*)key;
   if(k == K) return HK;
   if(k == W) return HW;
   g_hashbad = 1;
   return vf_u32("otherhash");
}
static int g_cmp;           /* the sign returned for different keys */
static int cmpf(const void* a, const void* b) {
   return *(const uint32_t*)a == *(const uint32_t*)b ? 0 : g_cmp;
}
/* destructor: frees like the default one, and records what it was given */
static uint32_t g_dn; static const void* g_dkey; static void* g_ddata; static void* g_dpar;
static void dstry(const void* key, void* data, void* params) {
   ++g_dn; g_dkey = key; g_ddata = data; g_dpar = params;
   free((void*)key); free(data);
}
static uint32_t* mkkey(uint32_t v) { uint32_t* k = malloc(4); *k = v; return k; }
static uint64_t* mkdata(uint64_t v) { uint64_t* d = malloc(8); *d = v; return d; }
/* entry number i/2 of some bucket: key or data block */
static void* mk_ent(uint64_t i) {
   if(i & 1) return mkdata(vf_u64("d"));
   uint32_t k = vf_u32("key");
   vf_assume(k != K && k != W);
   return mkkey(k);
}
static void on_ed(uint32_t pos, void* data, void* params) {}
static buzzdarray_t mkbucket(const char* ls, const char* lc, const char* ld) {
   buzzdarray_t b = malloc(sizeof(struct buzzdarray_s));
   b->size = vf_u32(ls); b->capacity = vf_u32(lc); b->elem_size = sizeof(ent_t); b->elem_destroy = on_ed;
   vf_assume(b->size > 0 && b->size <= b->capacity && b->capacity < (1u << 26));
   if(vf_bounded()) vf_assume(b->capacity <= 3);
   b->data = vf_lazyptrs(ld, 2 * (uint64_t)b->capacity, mk_ent);
   return b;
}
static void* mk_bucket(uint64_t i) {
   if(vf_choose("null", 2)) return NULL;
   return mkbucket("bsize", "bcap", "bents");
}
static buzzdict_t dt;
static buzzdarray_t bK, bW;
static uint32_t iK, iW, pK, pW, same;    /* bucket index, position, flags */
static int inK, inW;
static uint64_t vK, vW; static void *kK, *dK;

static void any_dict(void) {
   dt = malloc(sizeof(struct buzzdict_s));
   dt->num_buckets = vf_u32("nbuckets");
   vf_assume(dt->num_buckets > 0 && dt->num_buckets < (1u << 20));
   if(vf_bounded()) vf_assume(dt->num_buckets <= 2);
   dt->hashf = hashf; dt->keycmpf = cmpf; dt->dstryf = dstry; dt->key_size = 4; dt->data_size = 8;
   dt->size = vf_u32("size");
   K = vf_u32("K"); W = vf_u32("W"); HK = vf_u32("HK"); HW = vf_u32("HW");
   vf_assume(K != W);
   g_cmp = vf_i32("cmpsign"); vf_assume(g_cmp != 0);
   g_dn = 0; g_hashbad = 0;
   dt->buckets = vf_lazyptrs("buckets", dt->num_buckets, mk_bucket);
   iK = HK % dt->num_buckets; iW = HW % dt->num_buckets;
   same = vf_fork(iK == iW);
   inK = vf_choose("inK", 2); inW = vf_choose("inW", 2);
   bK = (inK || (same && inW) || vf_choose("bK", 2)) ? mkbucket("Ksize", "Kcap", "Kents") : NULL;
   vf_preset(dt->buckets, iK, bK);
   if(same) bW = bK;
   else {
      bW = (inW || vf_choose("bW", 2)) ? mkbucket("Wsize", "Wcap", "Wents") : NULL;
      vf_preset(dt->buckets, iW, bW);
   }
   pK = pW = 0xffffffff;
   vK = vf_u64("vK"); vW = vf_u64("vW");
   if(inK) {
      pK = vf_u32("pK"); vf_assume(pK < bK->size);
      kK = mkkey(K); dK = mkdata(vK);
      vf_preset(bK->data, 2 * (uint64_t)pK, kK); vf_preset(bK->data, 2 * (uint64_t)pK + 1, dK);
   }
   if(inW) {
      pW = vf_u32("pW"); vf_assume(pW < bW->size && IMPLIES(inK && same, pW != pK));
      vf_preset(bW->data, 2 * (uint64_t)pW, mkkey(W)); vf_preset(bW->data, 2 * (uint64_t)pW + 1, mkdata(vW));
   }
   vf_assume(dt->size >= (uint32_t)inK + (uint32_t)inW && dt->size < 0xffffffffu);
   /* consistent total: at least the entries of the two buckets at hand */
   vf_assume(dt->size >= (bK ? bK->size : 0) + (!same && bW ? bW->size : 0));
}
/* position at which the key being looked up sits, or none */
static uint32_t g_at = 0xffffffff;
int vf_inv__buzzdict_rawget__0(uint32_t* i, uint32_t* h) { return IMPLIES(g_at != 0xffffffff, *i <= g_at); }
int vf_inv__buzzdict_set__0(uint32_t* i) { return IMPLIES(g_at != 0xffffffff, *i <= g_at); }
int vf_inv__buzzdict_remove__0(uint32_t* i) { return IMPLIES(g_at != 0xffffffff, *i <= g_at); }
static const uint64_t* lookup(uint32_t k, uint32_t at) {
   g_at = at;
   return buzzdict_get(dt, &k, uint64_t);
}
/* the witness key reads as before; its position may have moved down by one */
static void witness_same(uint32_t at) {
   const uint64_t* r = lookup(W, at);
   if(inW) { ENSURES(r != NULL, "another key that was present is still present");
             ENSURES(*r == vW, "another key keeps its value"); }
   else ENSURES(r == NULL, "a key that was absent stays absent");
}

//@ unit get fn=buzzdict_rawget companion=black split=inK:2,inW:2
UNIT(get) {
   any_dict();
   uint32_t n = dt->size;
   const uint64_t* r = lookup(K, pK);
   if(inK) ENSURES(r == dK && *r == vK, "reading a present key gives its value");
   else ENSURES(r == NULL, "reading an absent key gives nothing");
   ENSURES(buzzdict_exists(dt, &K) == inK, "existence agrees with reading");
   ENSURES(dt->size == n && g_dn == 0, "reading changes nothing");
   witness_same(pW);
   vf_cover("end");
}
//@ unit set fn=buzzdict_set companion=black split=inK:2,inW:2
UNIT(set) {
   any_dict();
   uint32_t n = dt->size, bn = bK ? bK->size : 0;
   uint64_t v = vf_u64("v"), v0 = v; uint32_t k = K;
   g_at = pK;
   buzzdict_set(dt, &k, &v);
   ENSURES(dt->size == n + (inK ? 0 : 1), "the size counts the distinct keys");
   ENSURES(inK ? (g_dn == 1 && g_dkey == kK && g_ddata == dK && g_dpar == dt) : g_dn == 0, "overwriting destroys the old entry once");
   ENSURES(k == K && v == v0, "the caller's key and value are untouched");
   k = ~K; v = ~v0;         /* the dictionary must hold copies */
   const uint64_t* r = lookup(K, inK ? bn - 1 : bn);
   ENSURES(r != NULL && *r == v0, "a written key reads back the written value");
   ENSURES(r != &v, "the dictionary keeps its own copy");
   witness_same(inW ? (same && inK && pK < pW ? pW - 1 : pW) : 0xffffffff);
   vf_cover("end");
}
//@ unit remove fn=buzzdict_remove companion=black split=inK:2,inW:2
UNIT(remove) {
   any_dict();
   uint32_t n = dt->size;
   uint32_t k = K;
   g_at = pK;
   int res = buzzdict_remove(dt, &k);
   ENSURES(res == inK, "removing reports whether the key was present");
   ENSURES(dt->size == n - (inK ? 1 : 0), "removing a present key lowers the size by one");
   ENSURES(inK ? (g_dn == 1 && g_dkey == kK && g_ddata == dK && g_dpar == dt) : g_dn == 0, "removing destroys the entry once");
   ENSURES(lookup(K, 0xffffffff) == NULL, "a removed key reads as absent");
   witness_same(inW ? (same && inK && pK < pW ? pW - 1 : pW) : 0xffffffff);
   vf_cover("end");
}
//@ unit new fn=buzzdict_new
UNIT(new) {
   uint32_t n = vf_u32("n"), ks = vf_u32("ks"), ds = vf_u32("ds"), k = vf_u32("k");
   vf_assume(n > 0 && n < (1u << 28));
   if(vf_bounded()) vf_assume(n <= 3);
   int d = vf_choose("d", 2);
   buzzdict_t t = buzzdict_new(n, ks, ds, hashf, cmpf, d ? dstry : NULL);
   ENSURES(t->size == 0 && buzzdict_isempty(t), "a new dictionary is empty");
   ENSURES(t->key_size == ks && t->data_size == ds && t->hashf == hashf && t->keycmpf == cmpf, "a new dictionary uses the given functions");
   ENSURES(IMPLIES(d, t->dstryf == dstry) && t->dstryf != NULL, "a new dictionary destroys with the given function");
   K = k; W = k + 1; HK = vf_u32("HK");
   ENSURES(buzzdict_rawget(t, &k) == NULL, "a new dictionary has no key");
   vf_cover("end");
}

/* foreach: every entry of every bucket once, in place.  Cut at both loops:
 * entry (wi,wj) is the witness. */
static uint32_t g_wi, g_wj, g_n, g_seen, g_fbad; static void *g_wk, *g_wd, *g_wp;
static void visit(const void* key, void* data, void* params) {
   if(params != g_wp) g_fbad = 1;
   if(key == g_wk) { ++g_seen; if(data != g_wd) g_fbad = 1; }
   else if(data == g_wd) g_fbad = 1;
}
int vf_inv__buzzdict_foreach__0(uint32_t* i) { return *i <= g_n && !g_fbad && g_seen == (g_wi < *i ? 1 : 0); }
void vf_mod__buzzdict_foreach__0(uint32_t* i) { g_seen = vf_u32("l.seen"); g_fbad = vf_u32("l.bad"); }
int vf_inv__buzzdict_foreach__1(uint32_t* i, uint32_t* j) {
   return *i < g_n && *j <= dt->buckets[*i]->size && !g_fbad && g_seen == (g_wi < *i || (g_wi == *i && g_wj < *j) ? 1 : 0);
}
void vf_mod__buzzdict_foreach__1(uint32_t* i, uint32_t* j) { g_seen = vf_u32("l2.seen"); g_fbad = vf_u32("l2.bad"); }
//@ unit foreach fn=buzzdict_foreach companion=black
UNIT(foreach) {
   any_dict();
   vf_assume(inK);
   g_n = dt->num_buckets; g_wi = iK; g_wj = pK; g_wk = kK; g_wd = dK; g_seen = 0; g_fbad = 0;
   g_wp = vf_opaque("params");
   buzzdict_foreach(dt, visit, g_wp);
   ENSURES(g_seen == 1, "foreach visits every entry exactly once");
   ENSURES(!g_fbad, "foreach passes each key with its own value and the caller's parameter");
   vf_cover("end");
}

/* key functions used by the system */
#define KEYFN(T)                                                              \
UNIT(key_##T) {                                                               \
   T##_t* a = vf_buf("a", sizeof(T##_t)); T##_t* b = vf_buf("b", sizeof(T##_t)); \
   int c = buzzdict_##T##keycmp(a, b);                                        \
   ENSURES((c == 0) == (*a == *b), "integer keys compare equal only when equal"); \
   ENSURES(IMPLIES(*a < *b, c < 0) && IMPLIES(*a > *b, c > 0), "integer keys are ordered"); \
   ENSURES(IMPLIES(*a == *b, buzzdict_##T##keyhash(a) == buzzdict_##T##keyhash(b)), "equal keys hash equally"); \
   vf_cover("end");                                                           \
}
//@ unit key_int16 fn=buzzdict_int16keycmp,buzzdict_int16keyhash
KEYFN(int16)
//@ unit key_uint16 fn=buzzdict_uint16keycmp,buzzdict_uint16keyhash
KEYFN(uint16)
//@ unit key_int32 fn=buzzdict_int32keycmp,buzzdict_int32keyhash
KEYFN(int32)
//@ unit key_uint32 fn=buzzdict_uint32keycmp,buzzdict_uint32keyhash
KEYFN(uint32)
//@ unit key_string fn=buzzdict_strkeycmp,buzzdict_strkeyhash mode=bounded note="strings of up to 4 bytes"
UNIT(key_string) {
   char* a = vf_buf("a", 5); char* b = vf_buf("b", 5);
   a[4] = 0; b[4] = 0;
   int c = buzzdict_strkeycmp(&a, &b);
   int eq = 1, i;
   for(i = 0; i < 5; ++i) { if(a[i] != b[i]) { eq = 0; break; } if(!a[i]) break; }
   ENSURES((c == 0) == eq, "string keys compare equal only when equal");
   ENSURES(IMPLIES(c == 0, buzzdict_strkeyhash(&a) == buzzdict_strkeyhash(&b)), "equal strings hash equally");
   vf_cover("end");
}

/* black box: a history of operations through the API against a reference map */
static int32_t rk[4]; static uint8_t rin[4]; static uint16_t rv[4];
static uint32_t bn;
static void bvisit(const void* key, void* data, void* params) {
   int32_t k = *(int32_t*)key; int i, hit = 0;
   for(i = 0; i < 4; ++i) if(rin[i] && rk[i] == k) { hit = 1; vf_assert(*(uint16_t*)data == rv[i], "foreach passes each key with its own value (history)"); }
   vf_assert(hit, "foreach visits only present keys (history)");
   ++bn;
}
//@ unit black fn=buzzdict_set,buzzdict_remove,buzzdict_rawget,buzzdict_foreach,buzzdict_destroy mode=bounded split=nb:3,op:2,op#1:2,op#2:2 note="3 operations then 1 more on keys 0..3, 1-3 buckets"
UNIT(black) {
   uint32_t nb = vf_choose("nb", 3) + 1; int s, i;
   buzzdict_t t = buzzdict_new(nb, sizeof(int32_t), sizeof(uint16_t), buzzdict_int32keyhash, buzzdict_int32keycmp, NULL);
   for(i = 0; i < 4; ++i) { rk[i] = i; rin[i] = 0; }
   uint32_t cnt = 0;
   for(s = 0; s < 4; ++s) {
      int rm = s == 0 ? 0 : s == 3 ? vf_choose("op3", 2) : vf_choose("op", 2);
      int ki = s == 0 ? 0 : s == 1 ? vf_choose("k1", 2) : s == 2 ? vf_choose("k2", 3) : vf_choose("k3", 4);
      int32_t k = rk[ki];
      if(rm) {
         int r = buzzdict_remove(t, &k);
         ENSURES(r == rin[ki], "removing reports whether the key was present (history)");
         if(rin[ki]) --cnt;
         rin[ki] = 0;
      }
      else {
         uint16_t v = vf_u16("v");
         buzzdict_set(t, &k, &v);
         if(!rin[ki]) ++cnt;
         rin[ki] = 1; rv[ki] = v;
      }
      ENSURES(buzzdict_size(t) == cnt, "the size counts the distinct keys (history)");
      for(i = 0; i < 4; ++i) {
         const uint16_t* d = buzzdict_get(t, &rk[i], uint16_t);
         ENSURES((d != NULL) == rin[i], "a key is present exactly if it was last written and not removed (history)");
         if(rin[i]) ENSURES(*d == rv[i], "a key reads its last written value (history)");
      }
   }
   bn = 0;
   buzzdict_foreach(t, bvisit, NULL);
   ENSURES(bn == cnt, "foreach visits every entry exactly once (history)");
   buzzdict_destroy(&t);
   ENSURES(t == NULL, "destroying clears the handle");
   vf_cover("end");
}
//@ unit destroy fn=buzzdict_destroy mode=bounded note="up to 2 buckets of up to 3 entries"
static uint32_t d_n; static buzzdict_t d_t;
static void dcount(const void* key, void* data, void* params) { ++d_n; if(params != d_t) g_fbad = 1; free((void*)key); free(data); }
UNIT(destroy) {
   uint32_t nb = vf_choose("nb", 2) + 1; uint32_t n = vf_choose("n", 4), i;
   buzzdict_t t = buzzdict_new(nb, 4, 8, buzzdict_uint32keyhash, buzzdict_uint32keycmp, dcount);
   for(i = 0; i < n; ++i) { uint64_t v = i; buzzdict_set(t, &i, &v); }
   d_n = 0; d_t = t; g_fbad = 0;
   buzzdict_t c = t; void* b = t->buckets;
   buzzdict_destroy(&t);
   ENSURES(d_n == n && !g_fbad, "destroying destroys every entry once");
   ENSURES(t == NULL && !vf_live(c) && !vf_live(b), "destroying releases the memory");
   vf_cover("end");
}
//@ unit foreach_remove fn=buzzdict_foreach mode=bounded note="up to 3 entries in 1-2 buckets, the visited key removed by the callback"
static uint32_t r_n, r_rm; static buzzdict_t r_t;
static void rvisit(const void* key, void* data, void* params) { int32_t k = *(int32_t*)key; if(r_rm >> k & 1) buzzdict_remove(r_t, &k); ++r_n; }
UNIT(foreach_remove) {
   uint32_t nb = vf_choose("nb", 2) + 1, n = vf_choose("n", 4); int32_t i;
   r_t = buzzdict_new(nb, sizeof(int32_t), sizeof(uint16_t), buzzdict_int32keyhash, buzzdict_int32keycmp, NULL);
   for(i = 0; i < n; ++i) { uint16_t v = i; buzzdict_set(r_t, &i, &v); }
   r_rm = vf_choose("rm", 8); r_n = 0;
   buzzdict_foreach(r_t, rvisit, NULL);
   ENSURES(r_n <= n && (n == 0 || r_n > 0), "foreach survives removals by its function");
   for(i = 0; i < n; ++i) if(!(r_rm >> i & 1)) ENSURES(buzzdict_exists(r_t, &i), "foreach keeps what its function keeps");
   vf_cover("end");
}
#ifdef VF_NATIVE
/* random histories against plain arrays */
static uint32_t s_des, s_seen[200]; static int s_bad; static uint64_t s_val[200]; static uint8_t s_in[200]; static int s_kind; static char s_name[200][16];
static uint32_t s_idx(const void* key) { return s_kind == 2 ? (uint32_t)(strlen(*(char**)key) ? atoi(*(char**)key + 1) : 199) : s_kind ? (uint32_t)(*(uint16_t*)key) / 7 % 200 : (uint32_t)((*(int32_t*)key + 100000) / 1000); }
static void s_dst(const void* k, void* d, void* p) { ++s_des; free((void*)k); free(d); }
static void s_vis(const void* k, void* d, void* p) { uint32_t i = s_idx(k); if(i >= 200 || *(uint64_t*)d != s_val[i]) s_bad = 1; else ++s_seen[i]; }
//@ search history
SEARCH(history) {
   uint32_t i, j, cnt = 0, nk = 1 + vf_rand(200), steps = 10 + vf_rand(1500), nb = 1 + vf_rand(vf_rand(2) ? 8 : 60), rm = 0;
   s_kind = vf_rand(3); memset(s_in, 0, sizeof(s_in));
   for(i = 0; i < 200; ++i) { if(i == 199) s_name[i][0] = 0; else sprintf(s_name[i], "%c%u", 'a' + i % 5, i); }
   buzzdict_t t = s_kind == 2 ? buzzdict_new(nb, sizeof(char*), 8, buzzdict_strkeyhash, buzzdict_strkeycmp, s_dst)
                : s_kind == 1 ? buzzdict_new(nb, 2, 8, buzzdict_uint16keyhash, buzzdict_uint16keycmp, s_dst)
                : buzzdict_new(nb, 4, 8, buzzdict_int32keyhash, buzzdict_int32keycmp, s_dst);
   for(i = 0; i < steps; ++i) {
      uint32_t x = vf_rand(nk); int32_t k4 = (int32_t)x * 1000 - 100000; uint16_t k2 = x * 7; char b[16]; strcpy(b, s_name[x]); char* ks = b, *kk = s_name[x];
      const void* wk = s_kind == 2 ? (void*)&kk : s_kind ? (void*)&k2 : (void*)&k4; const void* rk_ = s_kind == 2 ? (void*)&ks : wk;
      if(i % 100 == 0) rm = vf_rand(80);
      s_des = 0;
      if(vf_rand(100) < rm) { int r = buzzdict_remove(t, rk_); vf_assert(!!r == s_in[x], "search: removing reports whether the key was present"); vf_assert(s_des == s_in[x], "search: a removed entry is destroyed once"); cnt -= s_in[x]; s_in[x] = 0; }
      else { uint64_t v = ((uint64_t)vf_rand(1u << 31) << 20) + i; buzzdict_set(t, wk, &v); vf_assert(s_des == s_in[x], "search: an overwritten entry is destroyed once"); cnt += !s_in[x]; s_in[x] = 1; s_val[x] = v; }
      vf_assert(buzzdict_size(t) == cnt, "search: the size is the number of keys");
      if(i % 8 == 0 || i + 1 == steps) {
         for(j = 0; j < nk; ++j) {
            int32_t q4 = (int32_t)j * 1000 - 100000; uint16_t q2 = j * 7; char c[16]; strcpy(c, s_name[j]); char* cs = c;
            const uint64_t* d = (const uint64_t*)buzzdict_rawget(t, s_kind == 2 ? (void*)&cs : s_kind ? (void*)&q2 : (void*)&q4);
            vf_assert((d != NULL) == s_in[j] && (!d || *d == s_val[j]), "search: a key reads back the value last written"); s_seen[j] = 0; }
         s_bad = 0; buzzdict_foreach(t, s_vis, NULL); vf_assert(!s_bad, "search: iteration gives each key its value");
         for(j = 0; j < nk; ++j) vf_assert(s_seen[j] == s_in[j], "search: iteration visits each key once"); }
   }
   s_des = 0; buzzdict_destroy(&t); vf_assert(!t && s_des == cnt, "search: destroying destroys every entry once");
}
#endif
