/* C text of the string functions, used when a string is symbolic. */
#include <stddef.h>
#include <stdlib.h>
size_t vfl_strlen(const char* s) { size_t n = 0; while(s[n]) ++n; return n; }
int vfl_strcmp(const char* a, const char* b) {
   while(*a && *a == *b) { ++a; ++b; }
   return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int vfl_strncmp(const char* a, const char* b, size_t n) {
   if(n == 0) return 0;
   while(--n && *a && *a == *b) { ++a; ++b; }
   return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
char* vfl_strcpy(char* d, const char* s) { char* r = d; while((*d++ = *s++)); return r; }
char* vfl_strdup(const char* s) { char* r = malloc(vfl_strlen(s) + 1); return vfl_strcpy(r, s); }
char* vfl_strncpy(char* d, const char* s, size_t n) {
   size_t i = 0;
   for(; i < n && s[i]; ++i) d[i] = s[i];
   for(; i < n; ++i) d[i] = 0;
   return d;
}
char* vfl_strncat(char* d, const char* s, size_t n) {
   size_t l = vfl_strlen(d), i = 0;
   for(; i < n && s[i]; ++i) d[l+i] = s[i];
   d[l+i] = 0;
   return d;
}
char* vfl_strcat(char* d, const char* s) { vfl_strcpy(d + vfl_strlen(d), s); return d; }
char* vfl_strchr(const char* s, int c) {
   while(1) { if(*s == (char)c) return (char*)s; if(!*s) return NULL; ++s; }
}
int vfl_memcmp(const void* a, const void* b, size_t n) {
   const unsigned char* x = a; const unsigned char* y = b;
   for(size_t i = 0; i < n; ++i) if(x[i] != y[i]) return (int)x[i] - (int)y[i];
   return 0;
}
/* any correct sort is a valid qsort */
void vfl_qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
   unsigned char* b = base;
   for(size_t i = 1; i < n; ++i)
      for(size_t j = i; j > 0 && cmp(b + (j-1)*w, b + j*w) > 0; --j)
         for(size_t k = 0; k < w; ++k) {
            unsigned char t = b[(j-1)*w + k]; b[(j-1)*w + k] = b[j*w + k]; b[j*w + k] = t;
         }
}
void* vfl_memchr(const void* s, int c, size_t n) {
   const unsigned char* p = s;
   for(size_t i = 0; i < n; ++i) if(p[i] == (unsigned char)c) return (void*)(p + i);
   return NULL;
}
char* vfl_strrchr(const char* s, int c) {
   const char* r = NULL;
   while(1) { if(*s == (char)c) r = s; if(!*s) return (char*)r; ++s; }
}
size_t vfl_strnlen(const char* s, size_t m) { size_t n = 0; while(n < m && s[n]) ++n; return n; }
char* vfl_strndup(const char* s, size_t m) {
   size_t n = vfl_strnlen(s, m), i; char* r = malloc(n + 1);
   for(i = 0; i < n; ++i) r[i] = s[i];
   r[n] = 0;
   return r;
}
char* vfl_strstr(const char* h, const char* n) {
   for(;; ++h) {
      size_t i = 0;
      while(n[i] && h[i] == n[i]) ++i;
      if(!n[i]) return (char*)h;
      if(!*h) return NULL;
   }
}
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vfl_strcasecmp(const char* a, const char* b) {
   while(*a && lower((unsigned char)*a) == lower((unsigned char)*b)) { ++a; ++b; }
   return lower((unsigned char)*a) - lower((unsigned char)*b);
}

static int vfl_errno;
int* vfl_errno_location(void) { return &vfl_errno; }
long vfl_strtol(const char* s, char** end, int base) {
   const char* p = s; int neg = 0, any = 0, over = 0; unsigned long v = 0, lim;
   if(base != 10 && base != 0) __builtin_trap();
   while(*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
   if(*p == '-') { neg = 1; ++p; } else if(*p == '+') ++p;
   if(base == 0 && *p == '0') __builtin_trap();
   lim = neg ? 0x8000000000000000ul : 0x7ffffffffffffffful;
   for(; *p >= '0' && *p <= '9'; ++p) {
      unsigned long d = (unsigned long)(*p - '0'); any = 1;
      if(v > (lim - d) / 10) over = 1; else v = v * 10 + d;
   }
   if(end) *end = (char*)(any ? p : s);
   if(over) { vfl_errno = 34; v = lim; }
   return neg ? (long)(0ul - v) : (long)v;
}

unsigned long vfl_strtoul(const char* s, char** end, int base) { return (unsigned long)vfl_strtol(s, end, base); }   /* values below 2^63 */
int vfl_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
#define CT(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13) ? 0x2000 : (c) >= '0' && (c) <= '9' ? 0xd808 : ((c) | 32) >= 'a' && ((c) | 32) <= 'z' ? 0x400 : 0)
#define CT4(c) CT(c), CT((c) + 1), CT((c) + 2), CT((c) + 3)
#define CT16(c) CT4(c), CT4((c) + 4), CT4((c) + 8), CT4((c) + 12)
static const unsigned short vfl_ct[384] = { [383] = 1, [128] = CT16(0), CT16(16), CT16(32), CT16(48), CT16(64), CT16(80), CT16(96), CT16(112) };
static const unsigned short* vfl_ctp;
const unsigned short** vfl_ctype_b_loc(void) { vfl_ctp = vfl_ct + 128; return &vfl_ctp; }
static int inset(char c, const char* d) { for(; *d; ++d) if(*d == c) return 1; return 0; }
size_t vfl_strspn(const char* s, const char* d) { size_t i = 0; while(s[i] && inset(s[i], d)) ++i; return i; }
size_t vfl_strcspn(const char* s, const char* d) { size_t i = 0; while(s[i] && !inset(s[i], d)) ++i; return i; }
char* vfl_strsep(char** sp, const char* d) {
   char* s = *sp, *p;
   if(!s) return NULL;
   p = s + vfl_strcspn(s, d);
   if(*p) { *p = 0; *sp = p + 1; } else *sp = NULL;
   return s;
}
/* one file, in memory */
struct { unsigned n, pos, open, w; } vfl_file; static char vfl_fdata[16384];
void* vfl_fopen(const char* name, const char* mode) {
   if(mode[0] == 'w') { vfl_file.n = 0; vfl_fdata[0] = 0; }
   vfl_file.pos = 0; vfl_file.open++; vfl_file.w = mode[0] == 'w'; return &vfl_file;
}
int vfl_fclose(void* f) { vfl_file.open--; return 0; }
int vfl_fputs(const char* s, void* f) {
   if(!vfl_file.open || !vfl_file.w) __builtin_trap();
   while(*s) vfl_fdata[vfl_file.n++] = *s++;
   vfl_fdata[vfl_file.n] = 0; return 1;
}
int vfl_fputc(int c, void* f) { char b[2]; b[0] = (char)c; b[1] = 0; vfl_fputs(b, f); return c; }
long vfl_getline(char** line, size_t* n, void* f) {
   size_t k = 0, i;
   if(!vfl_file.open || vfl_file.w) __builtin_trap();
   if(vfl_file.pos >= vfl_file.n) return -1;
   while(vfl_file.pos + k < vfl_file.n) { ++k; if(vfl_fdata[vfl_file.pos + k - 1] == '\n') break; }
   if(!*line || *n < k + 1) { *n = k + 1; *line = realloc(*line, *n); }
   for(i = 0; i < k; ++i) (*line)[i] = vfl_fdata[vfl_file.pos + i];
   (*line)[k] = 0; vfl_file.pos += k; return (long)k;
}
void vf_file_write(const char* text) { vfl_fopen("", "w"); vfl_fputs(text, 0); vfl_fclose(0); }
const char* vf_file_read(void) { return vfl_fdata; }
const char* vf_file_name(void) { return "file"; }
