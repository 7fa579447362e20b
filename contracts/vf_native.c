/* Native implementation of the specification intrinsics: replays the values
 * of a counterexample against the real code. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
int __asan_address_is_poisoned(void const volatile* p);
#define HAVE_ASAN
#endif
#endif
struct vf_ent { const char* n; void (*f)(void); };
extern struct vf_ent vf_ents[];
static char** lab; static char** val; static size_t nval, cval;
static char prefix[256];
static int bounded;
static struct { char n[256]; int c; } cnt[65536]; static int ncnt;
static const char* find(const char* l) {
   char k[512]; snprintf(k, sizeof k, "%s%s", prefix, l);
   int i; for(i = 0; i < ncnt; ++i) if(!strcmp(cnt[i].n, k)) break;
   if(i == ncnt && ncnt < 65535) { snprintf(cnt[ncnt].n, 256, "%s", k); cnt[ncnt++].c = 0; }
   int c = cnt[i].c++;
   if(c) { char t[32]; snprintf(t, 32, "#%d", c); strcat(k, t); }
   for(size_t j = 0; j < nval; ++j) if(!strcmp(lab[j], k)) return val[j];
   return NULL;
}
static uint64_t num(const char* l) { const char* v = find(l); return v ? strtoull(v, 0, 10) : 0; }
uint8_t vf_u8(const char* l) { return num(l); }
uint16_t vf_u16(const char* l) { return num(l); }
uint32_t vf_u32(const char* l) { return num(l); }
uint64_t vf_u64(const char* l) { return num(l); }
int32_t vf_i32(const char* l) { return (int32_t)(uint32_t)num(l); }
int vf_bool(const char* l) { return (int)num(l); }
uint32_t vf_choose(const char* l, uint32_t n) { uint32_t v = num(l); return v < n ? v : 0; }
float vf_f32(const char* l) { uint32_t v = num(l); float f; memcpy(&f, &v, 4); return f; }
void* vf_opaque(const char* l) { return (void*)num(l); }
void* vf_abstract(const char* l) { vf_assume(0); return 0; }
void* vf_buf(const char* l, uint64_t size) {
   uint8_t* b = calloc(size ? size : 1, 1);
   if(size && size < 16) b = realloc(b, size);
   const char* v = find(l);
   if(v) for(uint64_t i = 0; i < size && v[2*i] && v[2*i+1]; ++i) { unsigned x; sscanf(v + 2*i, "%2x", &x); b[i] = x; }
   return b;
}
void* vf_lazyptrs(const char* l, uint64_t cap, void* (*mk)(uint64_t)) {
   void** a = malloc(cap * sizeof(void*));
   char save[256]; strcpy(save, prefix);
   char me[300]; snprintf(me, 300, "%s%s", save, l);
   for(uint64_t i = 0; i < cap; ++i) {
      /* only elements the counterexample mentions get built in detail */
      snprintf(prefix, 256, "%s@%llu.", me, (unsigned long long)i);
      a[i] = mk(i);
   }
   strcpy(prefix, save);
   return a;
}
void vf_preset(void* arr, uint64_t idx, void* v) { ((void**)arr)[idx] = v; }
void vf_assume(int c) { if(!c) { printf("VF-ASSUME not satisfied natively\n"); fflush(stdout); exit(3); } }
void vf_assert(int c, const char* id) { if(!c) { printf("VF-FAIL %s\n", id); fflush(stdout); exit(1); } }
void vf_cover(const char* id) {}
void vf_note(const char* s) {}
void vf_end(void) { exit(0); }
static int allow_abort;
void vf_allow_abort(int on) { allow_abort = on; }
#include <signal.h>
static void onabrt(int s) { if(allow_abort) _exit(0); printf("VF-FAIL abort\n"); fflush(stdout); _exit(1); }
void vf_unwind(uint32_t n) {}
void vf_muldiv(int on) {}
int vf_sameobj(const void* p, const void* q) { return 0; }
int vf_live(const void* p) {
   if(!p) return 0;
#ifdef HAVE_ASAN
   return !__asan_address_is_poisoned(p);
#else
   return 1;
#endif
}
int vf_bounded(void) { return bounded; }
int vf_fork(int c) { return c; }
void vf_havoc(void* p, uint64_t n) {}
int vf_feq(float a, float b) { return memcmp(&a, &b, 4) == 0 || (a != a && b != b); }
static char file_name[600], file_data[20000];
const char* vf_file_name(void) { return file_name; }
void vf_file_write(const char* text) { FILE* f = fopen(file_name, "w"); if(f) { fputs(text, f); fclose(f); } }
const char* vf_file_read(void) { FILE* f = fopen(file_name, "r"); size_t n = f ? fread(file_data, 1, sizeof(file_data) - 1, f) : 0; file_data[n] = 0; if(f) fclose(f); return file_data; }
#include <unistd.h>
#include <time.h>
#include <sys/resource.h>
#include <sys/wait.h>
/* search for a failing input: random histories from consecutive seeds, each in a process of its own */
static uint64_t rs;
uint32_t vf_rand(uint32_t n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? (uint32_t)((rs >> 16) % n) : 0; }
static int search(void (*f)(void), unsigned long from, unsigned long count, unsigned secs) {
   unsigned long s; time_t t0 = time(NULL);
   for(s = from; s < from + count && time(NULL) - t0 < secs; ++s) {
      fflush(stdout);
      pid_t p = fork();
      if(!p) {
         struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl);
         rs = s * 0x9E3779B97F4A7C15ull + 0x1234567; vf_rand(2); vf_rand(2); vf_rand(2);
         f(); _exit(0);
      }
      int st = 0; waitpid(p, &st, 0);
      if(WIFSIGNALED(st) || WEXITSTATUS(st)) { printf("VF-SEARCH seed=%lu status=%d\n", s, st); return 1; }
   }
   printf("VF-SEARCH none in %lu\n", s - from);
   return 0;
}
int main(int argc, char** argv) {
   snprintf(file_name, sizeof(file_name), "%s.file", argv[0]);     /* in the scratch folder of the run */
   if(argc > 5 && !strcmp(argv[1], "--search")) {
      /* argv: --search name from count seconds */
      signal(SIGABRT, onabrt);
      for(struct vf_ent* e = vf_ents; e->n; ++e)
         if(!strcmp(e->n, argv[2])) return search(e->f, strtoul(argv[3], 0, 10), strtoul(argv[4], 0, 10), atoi(argv[5]));
      return 5;
   }
   /* argv: unit file bounded */
   struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl);
   bounded = argc > 3 ? atoi(argv[3]) : 0;
   signal(SIGABRT, onabrt);
   FILE* f = fopen(argv[2], "r");
   if(!f) return 4;
   char* line = NULL; size_t n = 0; ssize_t r;
   while((r = getline(&line, &n, f)) > 0) {
      if(line[0] == '#' || line[0] == '\n') continue;
      if(line[r-1] == '\n') line[r-1] = 0;
      char* s1 = strchr(line, ' '); if(!s1) continue;
      char* s2 = strchr(s1+1, ' '); if(!s2) continue;
      *s1 = 0;
      if(nval == cval) { cval = cval ? 2*cval : 64; lab = realloc(lab, cval*sizeof(char*)); val = realloc(val, cval*sizeof(char*)); }
      lab[nval] = strdup(line); val[nval++] = strdup(s2+1);
   }
   for(struct vf_ent* e = vf_ents; e->n; ++e)
      if(!strcmp(e->n, argv[1])) { e->f(); printf("VF-OK\n"); return 0; }
   return 5;
}
