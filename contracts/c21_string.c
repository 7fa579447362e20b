/* C21: string library */
#include "vm_call.h"
#include <buzz/buzzstring.h>
#include <errno.h>
#include <limits.h>
//@ assume the C library's strlen, strncpy, strcpy, strtol and strtof follow their specification (stubs with contracts in units length, sub, join and number; real in the bounded units)
//@ assume a string registered with the machine reads back as the same text (C05)
//@ assume strings of up to 2^16 characters; integers as text are decimal
static char TB[1]; static int g_on; static char* S; static uint32_t LS;      /* the string and its length */
static char* T; static uint64_t wn; static uint32_t nreg; static char wc, wend; static uint32_t wj, regsid;
static char* SA[3]; static uint32_t LA[3], g_join; static uint64_t wtot;   /* the strings being joined */
static int arg_of(const char* s) { return s == SA[0] ? 0 : s == SA[1] ? 1 : s == SA[2] ? 2 : -1; }
size_t vf_stub__strlen(const char* s) {
   if(!g_on) return strlen(s);
   if(g_join) { int i = arg_of(s); vf_assert(i >= 0, "pre: the length of an argument is taken"); return LA[i]; }
   vf_assert(s == S, "pre: the length of the argument is taken"); return LS;
}
char* vf_stub__strcpy(char* d, const char* s) {
   if(!g_on) return strcpy(d, s);
   int i = arg_of(s); vf_assert(g_join && i >= 0, "pre: an argument is copied");
   memcpy(d, s, (uint64_t)LA[i] + 1); return d;
}
/* the C library's conversions: any result they may give */
static long g_l; static float g_f; static int g_end, g_err;
static void conv(const char* s, char** end) { vf_assert(s == S, "pre: the argument is converted"); if(end) *end = (char*)s + g_end; if(g_err) errno = ERANGE; }
long vf_stub__strtol(const char* s, char** end, int base) { if(!g_on) return strtol(s, end, base); vf_assert(base == 10, "pre: decimal"); conv(s, end); return g_l; }
long vf_stub____isoc23_strtol(const char* s, char** end, int base) { return vf_stub__strtol(s, end, base); }
float vf_stub__strtof(const char* s, char** end) { if(!g_on) return strtof(s, end); conv(s, end); return g_f; }
char* vf_stub__strncpy(char* d, const char* s, size_t n) { if(n) memcpy(d, s, n); return d; }       /* within the text there is no end of string */
uint16_t vf_stub__buzzstrman_register(buzzstrman_t sm, const char* str, int protect) {
   if(!g_on) return buzzstrman_register(sm, str, protect);
   vf_assert(sm == vm->strings && !protect, "pre: a computed string is registered with this machine and can be collected");
   ++nreg; wend = str[wn]; if(wj < wn) wc = str[wj];
   return regsid;
}
const char* vf_stub__buzzstrman_get(buzzstrman_t sm, uint16_t sid) { if(!g_on) return buzzstrman_get(sm, sid); return T; }
static uint32_t d0;
static void lib(void) { vm_ready(1); buzzstring_register(vm); d0 = depth(); g_on = 0; nreg = 0; g_join = 0; }
static buzzobj_t text_obj(void) {
   LS = vf_u16("len"); S = vf_buf("text", (uint64_t)LS + 1); S[LS] = 0; T = TB;
#ifdef VF_NATIVE
   { uint32_t i; for(i = 0; i < LS; ++i) if(!S[i]) S[i] = 'x'; }    /* a text has no end of string inside */
#endif
   regsid = vf_u16("sid");
   buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_STRING); o->s.value.str = S; o->s.value.sid = vf_u16("ssid"); return o;
}
static void sfun(const char* f, uint32_t n) { buzzobj_t c = field(global("string"), f); g_on = !vf_bounded(); call(c, n); g_on = 0; }
static void good(uint16_t t) {
   ENSURES(vm->state == BUZZVM_STATE_READY && depth() == d0 + 1, "a string function gives one value");
   ENSURES(top()->o.type == t, "a string function gives a value of the documented type");
}
static void bad(int e) { ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == e, "a wrong argument is an error"); }
//@ unit length fn=buzzstring_length companion=texts
UNIT(length) {
   lib(); ARG[0] = text_obj(); sfun("length", 1); good(BUZZTYPE_INT);
   ENSURES(top()->i.value == (int32_t)LS, "length is the number of characters");
   vf_cover("end");
}
//@ unit sub fn=buzzstring_sub split=k:2 companion=texts
UNIT(sub) {
   lib(); uint32_t k = vf_choose("k", 2); buzzobj_t o = text_obj(); int32_t n = vf_i32("n"), m = vf_i32("m");
   ARG[0] = o; ARG[1] = newi(n); ARG[2] = newi(m);
   int64_t e = k ? ((int64_t)m > LS ? LS : m) : LS;       /* one past the last character */
   int in = (n >= 0) & (n < (int64_t)LS) & (!k | (m >= n));
   wn = in ? (uint64_t)(e - n) : 0; wj = vf_u32("j");
   sfun("sub", 2 + k);
   if(!in) { good(BUZZTYPE_NIL); ENSURES(nreg == 0, "an index outside the string gives nil"); vf_cover("end"); return; }
   good(BUZZTYPE_STRING);
#ifdef VF_NATIVE
   { const char* r = top()->s.value.str; nreg = 1; regsid = top()->s.value.sid; T = (char*)r; wend = 1; if(strlen(r) == wn) { wend = 0; wc = wj < wn ? r[wj] : 0; } }
#endif
   ENSURES(nreg == 1 && top()->s.value.sid == regsid && top()->s.value.str == T, "the substring is the result");
   ENSURES(wend == 0, "the substring ends where it should");
   if(wj < wn) ENSURES(wc == S[(uint64_t)n + wj], "every character of the substring is the one in the string");
   vf_cover("end");
}
//@ unit join fn=buzzstring_concat split=three:2 soft=1 companion=concat
UNIT(join) {
   lib(); uint32_t n = 2 + vf_choose("three", 2), i; g_join = 1; SA[2] = NULL; wn = 0; T = TB; regsid = vf_u16("sid");
   for(i = 0; i < n; ++i) {
      LA[i] = vf_u16("len"); SA[i] = vf_buf("text", (uint64_t)LA[i] + 1); SA[i][LA[i]] = 0; wn += LA[i];
#ifdef VF_NATIVE
      { uint32_t j; for(j = 0; j < LA[i]; ++j) if(!SA[i][j]) SA[i][j] = 'x'; }
#endif
      ARG[i] = buzzheap_newobj(vm, BUZZTYPE_STRING); ARG[i]->s.value.str = SA[i];
   }
   wj = vf_u32("j");
   sfun("concat", n); good(BUZZTYPE_STRING);
#ifdef VF_NATIVE
   { const char* r = top()->s.value.str; nreg = 1; regsid = top()->s.value.sid; T = (char*)r; wend = 1; if(strlen(r) == wn) { wend = 0; wc = wj < wn ? r[wj] : 0; } }
#endif
   ENSURES(nreg == 1 && top()->s.value.sid == regsid && top()->s.value.str == T, "the joined text is the result");
   ENSURES(wend == 0, "the joined text has the total length");
   if(wj < LA[0]) ENSURES(wc == SA[0][wj], "concat joins the strings in order");
   else if(wj < LA[0] + LA[1]) ENSURES(wc == SA[1][wj - LA[0]], "concat joins the strings in order");
   else if(wj < wn) ENSURES(wc == SA[2][wj - LA[0] - LA[1]], "concat joins the strings in order");
   vf_cover("end");
}
//@ unit number fn=buzzstring_toint,buzzstring_tofloat split=flt:2 soft=1 companion=convert
UNIT(number) {
   lib(); uint32_t fl = vf_choose("flt", 2); buzzobj_t o = text_obj(); vf_assume(LS > 0);
   /* what the C library finds: nothing, a number, or a number out of its range */
   uint32_t k = vf_choose("found", 3); g_end = k ? 1 : 0; g_err = k == 2;
   g_l = k == 0 ? 0 : k == 2 ? (vf_choose("neg", 2) ? LONG_MIN : LONG_MAX) : (long)vf_u64("long");
   g_f = k == 0 ? 0 : vf_f32("float");
   ARG[0] = o; errno = vf_choose("errno", 2) ? 5 : 0; sfun(fl ? "tofloat" : "toint", 1);
   if(fl) {
      if(k == 0) good(BUZZTYPE_NIL);
      else if(k == 1) { good(BUZZTYPE_FLOAT); ENSURES(vf_feq(top()->f.value, g_f), "tofloat reads the float"); }
      else ENSURES(vm->state == BUZZVM_STATE_READY, "a number out of range is no error");
   }
   else if(k == 1 && vf_fork((g_l >= INT32_MIN) & (g_l <= INT32_MAX))) { good(BUZZTYPE_INT); ENSURES(top()->i.value == (int32_t)g_l, "toint reads the integer"); }
   else good(BUZZTYPE_NIL);
   vf_cover("end");
}
static const char* FN[] = { "length", "sub", "concat", "tostring", "toint", "tofloat" };
static buzzobj_t any(uint32_t t) { return t == BUZZTYPE_STRING ? news("12") : buzzheap_newobj(vm, t); }
//@ unit types fn=buzzstring_length,buzzstring_sub,buzzstring_concat,buzzstring_tostring,buzzstring_toint,buzzstring_tofloat mode=bounded split=fn:6,ta:7,tb:7 note="one value per type; sub and concat with 2 and 3 arguments"
UNIT(types) {
   lib(); uint32_t f = vf_choose("fn", 6), ta = vf_choose("ta", 7), tb = vf_choose("tb", 7), tc = vf_choose("tc", 7), n = f == 1 || f == 2 ? (tc ? 3 : 2) : 1, i;
   uint32_t t[3] = { ta, tb, tc }; int ok = 1;
   if(n == 1 && (tb || tc)) { vf_cover("end"); return; }
   for(i = 0; i < n; ++i) { ARG[i] = any(t[i]); ok &= f == 3 || t[i] == (f == 1 && i ? BUZZTYPE_INT : BUZZTYPE_STRING); }
   sfun(FN[f], n);
   if(!ok) bad(BUZZVM_ERROR_TYPE);
   else ENSURES(vm->state == BUZZVM_STATE_READY && depth() == d0 + 1, "right types are no error");
   if(f == 3 && ta != BUZZTYPE_INT && ta != BUZZTYPE_FLOAT) ENSURES(top()->o.type == BUZZTYPE_NIL, "tostring of anything but a number is nil");
   vf_cover("end");
}
//@ unit count fn=buzzstring_length,buzzstring_sub,buzzstring_concat,buzzstring_tostring,buzzstring_toint,buzzstring_tofloat mode=bounded split=fn:6 note="0 to 4 arguments"
UNIT(count) {
   lib(); uint32_t f = vf_choose("fn", 6), n = vf_choose("n", 5), i;
   for(i = 0; i < n; ++i) ARG[i] = f == 1 && i ? newi(0) : news("12");
   sfun(FN[f], n);
   if(f == 1 ? n == 2 || n == 3 : f == 2 ? n >= 2 : n == 1) ENSURES(vm->state == BUZZVM_STATE_READY, "a right number of arguments is no error");
   else bad(BUZZVM_ERROR_LNUM);
   vf_cover("end");
}
static buzzobj_t sym(const char* l, uint32_t n) {      /* any string of n characters */
   char* b = vf_buf(l, n + 1); uint32_t i; for(i = 0; i < n; ++i) vf_assume(b[i] != 0); b[n] = 0;
   buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_STRING); o->s.value.str = b; o->s.value.sid = 9; return o;
}
//@ unit texts fn=buzzstring_length,buzzstring_sub mode=bounded split=ls:4,k:3 note="any string of up to 3 characters, any indexes"
UNIT(texts) {
   lib(); uint32_t ls = vf_choose("ls", 4), k = vf_choose("k", 3), i; buzzobj_t o = sym("s", ls); const char* s = o->s.value.str; int32_t n = vf_i32("n"), m = vf_i32("m");
   ARG[0] = o; ARG[1] = newi(n); ARG[2] = newi(m);
   if(k == 0) { sfun("length", 1); good(BUZZTYPE_INT); ENSURES(top()->i.value == (int32_t)ls, "length is the number of characters"); vf_cover("end"); return; }
   sfun("sub", 1 + k);
   int64_t e = k == 2 ? (m > (int32_t)ls ? (int32_t)ls : m) : (int32_t)ls;
   if(n < 0 || n >= (int32_t)ls || (k == 2 && m < n)) { good(BUZZTYPE_NIL); vf_cover("end"); return; }
   good(BUZZTYPE_STRING); const char* r = top()->s.value.str;
   for(i = 0; i < ls; ++i) if(i < e - n) ENSURES(r[i] == s[n + i], "a substring has the characters of the string");
   ENSURES(r[e - n] == 0, "a substring has the right length");
   vf_cover("end");
}
static const uint32_t LN[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 2, 1, 0 }, { 1, 1, 1 }, { 0, 1, 1 }, { 1, 2, 0 } };
//@ unit concat fn=buzzstring_concat mode=bounded split=l:8,three:2 note="any 2 or 3 strings of up to 2 characters"
UNIT(concat) {
   lib(); uint32_t l = vf_choose("l", 8), n = 2 + vf_choose("three", 2), i, j, p = 0; static char E[8];
   for(i = 0; i < n; ++i) { ARG[i] = sym("s", LN[l][i]); for(j = 0; j < LN[l][i]; ++j) E[p++] = ARG[i]->s.value.str[j]; }
   E[p] = 0; sfun("concat", n); good(BUZZTYPE_STRING); const char* r = top()->s.value.str; int same = 1;
   for(i = 0; i <= p; ++i) same &= r[i] == E[i];
   ENSURES(same, "concat joins the strings in order");
   vf_cover("end");
}
static const int32_t NI[] = { 0, 7, -1, 42, 2147483647, -2147483647 - 1 }; static const char* TI[] = { "0", "7", "-1", "42", "2147483647", "-2147483648" };
static const char* BADI[] = { "", "abc", "-", " ", "2147483648", "-2147483649", "4294967296", "99999999999999999999" };
static const float NF[] = { 0, 0.5f, -2.25f, 1024, 1e6f }; static const char* TF[] = { "0.000000", "0.500000", "-2.250000", "1024.000000", "1000000.000000" };
//@ unit convert fn=buzzstring_tostring,buzzstring_toint,buzzstring_tofloat mode=bounded split=k:8 note="6 integers, 5 floats, 8 texts that are no integer, 4 that are no number"
UNIT(convert) {
   lib(); uint32_t k = vf_choose("k", 8);
   if(k < 6) {
      ARG[0] = newi(NI[k]); sfun("tostring", 1); good(BUZZTYPE_STRING); ENSURES(!strcmp(top()->s.value.str, TI[k]), "tostring writes the integer"); buzzvm_pop(vm);
      ARG[0] = news(TI[k]); sfun("toint", 1); good(BUZZTYPE_INT); ENSURES(top()->i.value == NI[k], "toint reads the integer"); buzzvm_pop(vm);
   }
   if(k < 5) {
      ARG[0] = newf(NF[k]); sfun("tostring", 1); good(BUZZTYPE_STRING); ENSURES(!strcmp(top()->s.value.str, TF[k]), "tostring writes the float"); buzzvm_pop(vm);
      ARG[0] = news(TF[k]); sfun("tofloat", 1); good(BUZZTYPE_FLOAT); ENSURES(top()->f.value == NF[k], "tofloat reads the float"); buzzvm_pop(vm);
   }
   ARG[0] = news(BADI[k]); sfun("toint", 1); good(BUZZTYPE_NIL); buzzvm_pop(vm);
   if(k < 4) { ARG[0] = news(BADI[k]); sfun("tofloat", 1); good(BUZZTYPE_NIL); buzzvm_pop(vm); }
   ARG[0] = news("17"); sfun("tofloat", 1); good(BUZZTYPE_FLOAT); ENSURES(top()->f.value == 17, "tofloat reads an integer");
   vf_cover("end");
}
//@ search history
#ifdef VF_NATIVE
SEARCH(history) {
   static char s[4][9000]; uint32_t i, j, n, k; lib();
   for(k = 0; k < 4; ++k) { n = vf_rand(vf_rand(3) ? 12 : 8000); for(i = 0; i < n; ++i) s[k][i] = 1 + vf_rand(255); s[k][n] = 0; ARG[k] = news(s[k]); }
   static char e[40000]; n = 2 + vf_rand(3); e[0] = 0; for(i = 0; i < n; ++i) strcat(e, s[i]);
   sfun("concat", n); vf_assert(vm->state == BUZZVM_STATE_READY && !strcmp(top()->s.value.str, e), "search: concat joins the strings in order"); buzzvm_pop(vm);
   sfun("length", 1); vf_assert(top()->i.value == (int32_t)strlen(s[0]), "search: length is the number of characters"); buzzvm_pop(vm);
   int32_t L = strlen(s[0]), a = (int32_t)vf_rand(L + 4) - 2, b = (int32_t)vf_rand(L + 6) - 2; int two = vf_rand(2); buzzobj_t t1 = ARG[1]; ARG[1] = newi(a); ARG[2] = newi(b); (void)t1;
   sfun("sub", 2 + two); 
   if(a < 0 || a >= L || (two && b < a)) vf_assert(top()->o.type == BUZZTYPE_NIL, "search: an index outside the string gives nil");
   else { int32_t z = two && b < L ? b : L; vf_assert(top()->o.type == BUZZTYPE_STRING && (int32_t)strlen(top()->s.value.str) == z - a && !strncmp(top()->s.value.str, s[0] + a, z - a), "search: a substring has the characters of the string"); }
   buzzvm_pop(vm);
   for(j = 0; j < 20; ++j) {
      int32_t v = (int32_t)(vf_rand(0xffffffffu) >> vf_rand(32)); if(vf_rand(2)) v = -v; char x[60]; snprintf(x, sizeof(x), "%d", v);
      ARG[0] = newi(v); sfun("tostring", 1); vf_assert(top()->o.type == BUZZTYPE_STRING && !strcmp(top()->s.value.str, x), "search: tostring writes the integer"); buzzvm_pop(vm);
      ARG[0] = news(x); sfun("toint", 1); vf_assert(top()->o.type == BUZZTYPE_INT && top()->i.value == v, "search: toint reads the integer"); buzzvm_pop(vm);
      float f = (float)(int32_t)(vf_rand(0xffffffffu) >> vf_rand(32)) / 64.0f; snprintf(x, sizeof(x), "%f", f);
      ARG[0] = newf(f); sfun("tostring", 1); vf_assert(top()->o.type == BUZZTYPE_STRING && !strcmp(top()->s.value.str, x), "search: tostring writes the float"); buzzvm_pop(vm);
      ARG[0] = news(x); sfun("tofloat", 1); vf_assert(top()->o.type == BUZZTYPE_FLOAT && top()->f.value == f, "search: tofloat reads the float"); buzzvm_pop(vm);
   }
}
#endif
