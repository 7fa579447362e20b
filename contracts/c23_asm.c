/* C23: assembler and disassembler */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <buzz/buzzasm.h>
#include <buzz/buzzdebug.h>
//@ assume the C library's file access, strsep, isspace, strtoul and strtof follow their specification (a file in memory; real ones in a replay); in unit operand strtoul and strtof give any value
//@ assume a listing is written by the compiler or in its form: one string, label or instruction per line
/* the instruction set as documented in buzzvm.h, in order of its operation codes */
static const char* NAME[47] = { "nop", "done", "pushnil", "dup", "pop", "ret0", "ret1", "add", "sub", "mul", "div", "mod", "pow", "unm", "land", "lor", "lnot", "band", "bor", "bnot", "lshift", "rshift", "eq", "neq", "gt", "gte", "lt", "lte", "gload", "gstore", "pusht", "tput", "tget", "callc", "calls", "pushf", "pushi", "pushs", "pushcn", "pushcc", "pushl", "lload", "lstore", "lremove", "jump", "jumpz", "jumpnz" };
#define PUSHF 35
#define JUMP 44
static char T[6000]; static uint32_t tn;
static void put(const char* s) { while(*s) T[tn++] = *s++; T[tn] = 0; }
static void num(uint32_t v) { char b[12]; int k = 0, i; do { b[k++] = '0' + v % 10; v /= 10; } while(v); for(i = k - 1; i >= 0; --i) T[tn++] = b[i]; T[tn] = 0; }
static uint8_t* B; static uint32_t n; static buzzdebug_t dbg; static int rc;
static void assemble(void) { B = NULL; n = 0; vf_file_write(T); rc = buzz_asm(vf_file_name(), &B, &n, &dbg); }
static int32_t word(uint32_t at) { int32_t v; memcpy(&v, B + at, 4); return v; }
static int dbgis(uint32_t off, uint64_t l, uint64_t c, const char* f) {
   if(!buzzdebug_info_exists_offset(dbg, &off)) return 0;
   buzzdebug_entry_t e = *buzzdebug_info_get_fromoffset(dbg, &off);
   return e->line == l && e->col == c && !strcmp(e->fname, f);
}
/* operands: contracts of strtoul and strtof in unit operand */
static int g_any; static uint64_t anyu; static float anyf; static uint32_t nconv;
unsigned long vf_stub__strtoul(const char* s, char** e, int base) {
   if(!g_any) return strtoul(s, e, base);
   vf_assert(!strcmp(s, "17") && base == 10, "pre: the operand is read as a decimal number");
   ++nconv; if(e) *e = (char*)s + 2; return anyu;
}
unsigned long vf_stub____isoc23_strtoul(const char* s, char** e, int base) { return vf_stub__strtoul(s, e, base); }
float vf_stub__strtof(const char* s, char** e) {
   if(!g_any) return strtof(s, e);
   vf_assert(!strcmp(s, "17"), "pre: the operand is read as a number");
   ++nconv; if(e) *e = (char*)s + 2; return anyf;
}
//@ unit operand fn=buzz_asm companion=instr soft=1 split=op:9 note="any value of the operand"
UNIT(operand) {
   uint32_t op = PUSHF + vf_choose("op", 9);
   tn = 0; put("!0\n\tnop\n\t"); put(NAME[op]); put(" 17\n\tdone\n");
   anyu = vf_u64("u"); anyf = vf_f32("f"); g_any = 1; nconv = 0;
   assemble();
   g_any = 0;
   ENSURES(rc == 0 && n == 9, "a program of three instructions, one with an operand, takes nine bytes");
   ENSURES(nconv <= 1 && B[0] == 0 && B[1] == 0 && B[2] == 0 && B[3] == op && B[8] == 1, "the instructions are in their places");
   if(op == PUSHF) { float f; memcpy(&f, B + 4, 4); ENSURES(vf_feq(f, anyf), "the operand is the number read"); }
   else ENSURES((uint32_t)word(4) == (uint32_t)anyu, "the operand is the number read");
   vf_cover("end");
}
//@ unit instr fn=buzz_asm,buzzdebug_info_set mode=bounded split=op:47 note="each of the 47 instructions, with a number or a label, spaces and debug information as chosen, between two others"
UNIT(instr) {
   uint32_t op = vf_choose("op", 47), at = 6, sz = op >= PUSHF ? 5 : 1; int lab = 0; int32_t want = 0;
   tn = 0; put("# a comment\n!1\n'ab\n\n\tnop\n\t"); put(NAME[op]);
   if(op >= PUSHF) {
      put(" ");
      if(op >= JUMP || (op > PUSHF && vf_choose("lab", 2))) { lab = 1; put("@there"); want = at + 5; }
      else if(op == PUSHF) { if(vf_choose("neg", 2)) { put("-2.5"); want = (int32_t)0xC0200000; } else { put("0.25"); want = 0x3E800000; } }
      else switch(vf_choose("arg", 3)) { case 0: put("0"); break; case 1: put("1234567"); want = 1234567; break; default: put("-7"); want = -7; }
   }
   int d = vf_choose("dbg", 3);
   if(d == 1) put("\t|3,14,src.bzz"); else if(d == 2) put("  \t ");
   put("\n@there"); if(d == 1) put("\t|5,6,other.bzz"); else if(d == 2) put(" \t"); put("\n\tdone"); if(vf_choose("nl", 2)) put("\n");
   assemble();
   ENSURES(rc == 0 && n == at + sz + 1, "the program takes the bytes of its strings, instructions and operands");
   ENSURES(B[0] == 1 && B[1] == 0 && B[2] == 'a' && B[3] == 'b' && B[4] == 0, "the strings come first");
   ENSURES(B[5] == 0 && B[6] == op && B[at + sz] == 1, "each instruction is assembled to its operation code");
   if(sz == 5) ENSURES(word(7) == want, "the operand follows the instruction");
   if(d == 1) ENSURES(dbgis(6, 3, 14, "src.bzz") && dbgis(at + sz, 5, 6, "other.bzz") && buzzdebug_info_count(dbg) == 2, "debug information belongs to the offset of its instruction or label");
   else ENSURES(buzzdebug_info_isempty(dbg), "no debug information is invented");
   (void)lab; vf_cover("end");
}
//@ unit labels fn=buzz_asm,buzz_asm_labsub mode=bounded split=k:4 note="1 to 4 labels, forward and backward references to each, strings of 0 to 3 characters"
UNIT(labels) {
   uint32_t k = vf_choose("k", 4) + 1, i, ns = vf_choose("ns", 3), off, pos[4], fw, bw; const char* L[4] = { "@a", "@__label_1", "@__label_10", "@a1" }; const char* S[3] = { "", "x", "y z" };
   tn = 0; put("!"); num(ns); put("\n"); off = 2;
   for(i = 0; i < ns; ++i) { put("'"); put(S[i]); put("\n"); off += i == 0 ? 1 : i == 1 ? 2 : 4; }
   fw = off;
   for(i = 0; i < k; ++i) { put(i % 2 ? "\tjump " : "\tpushcn "); put(L[i]); put("\n"); off += 5; }
   for(i = 0; i < k; ++i) { put(L[i]); put("\n"); pos[i] = off; put("\tpushi 3\n"); off += 5; if(i % 2) { put("\tpop\n"); ++off; } }
   bw = off;
   for(i = 0; i < k; ++i) { put("\tjumpz "); put(L[k - 1 - i]); put("\n"); off += 5; }
   put("\tdone\n"); ++off;
   assemble();
   ENSURES(rc == 0 && n == off && B[off - 1] == 1, "the program takes the bytes of its strings, instructions and operands");
   ENSURES(B[0] == ns && B[1] == 0, "the number of strings comes first");
   if(ns > 2) ENSURES(!strcmp((char*)B + 2, "") && !strcmp((char*)B + 3, "x") && !strcmp((char*)B + 5, "y z"), "the strings are kept as they are");
   for(i = 0; i < k; ++i) {
      ENSURES(B[fw + 5 * i] == (i % 2 ? 44 : 38) && word(fw + 5 * i + 1) == (int32_t)pos[i], "a reference before the label becomes the offset of the label");
      ENSURES(B[bw + 5 * i] == 45 && word(bw + 5 * i + 1) == (int32_t)pos[k - 1 - i], "a reference after the label becomes the offset of the label");
      ENSURES(B[pos[i]] == 36 && word(pos[i] + 1) == 3, "the instruction after the label is at its offset");
   }
   vf_cover("end");
}
//@ unit size fn=buzz_asm mode=bounded split=k:10 note="programs of 250 to 259 and around 512 bytes; strings of up to 300 characters"
UNIT(size) {
   uint32_t k = 250 + vf_choose("k", 10), i, big = vf_choose("big", 3), off; tn = 0;
   put("!1\n'"); off = 3;
   if(big == 1) for(i = 0; i < 300; ++i) { put("c"); ++off; }
   put("\n");
   if(big == 2) k += 256;
   uint32_t at[130], m = 0;
   while(off + 5 < k) { at[m++] = off; put("\tpushi "); num(m); put("\n"); off += 5; }
   while(off + 1 < k) { put("\tdup\n"); ++off; }
   put("@e\n\tjump @e\n"); off += 5;
   assemble();
   ENSURES(rc == 0 && n == off, "a program of any size is assembled in full");
   for(i = 0; i < m; ++i) ENSURES(B[at[i]] == 36 && word(at[i] + 1) == (int32_t)i + 1, "every instruction is in its place");
   ENSURES(B[off - 5] == 44 && word(off - 4) == (int32_t)off - 5, "the last instruction is in its place");
   if(big == 1) { ENSURES(strlen((char*)B + 2) == 300, "a long string is kept whole"); }
   vf_cover("end");
}
//@ unit errors fn=buzz_asm,buzz_asm_labsub mode=bounded split=e:11 note="11 faulty listings"
UNIT(errors) {
   static const char* E[11] = { "\tpushk 1\n", "\tPOP\n", "\tpush\n", "\tpopp\n", "\tpushi\n", "\tpushf\n", "\tjump\n", "\tjump @nowhere\n", "\tpushcn @b\n@a\n", "\tpop\n@end\n\tjump @en\n", "\tjump @a\n\tpop\n@a\n" };
   uint32_t e = vf_choose("e", 11);
   tn = 0; put("!0\n\tnop\n"); put(E[e]);
   assemble();
   ENSURES(rc != 0, "a listing with an unknown instruction, a missing operand, an unknown label or a label past the end is refused");
   vf_cover("end");
}
static int has(const char* out, const char* want) { return !strcmp(out, want); }
//@ unit deasm fn=buzz_deasm mode=bounded split=op:47 note="each of the 47 instructions with 3 operands, with and without debug information, after 0 to 2 strings"
UNIT(deasm) {
   uint32_t op = vf_choose("op", 47), i = 0, ns = vf_choose("ns", 3), at; uint8_t* P = (uint8_t*)malloc(40);
   int d = vf_choose("dbg", 2), a = op >= PUSHF ? vf_choose("arg", 3) : 0; int32_t v; float f;
   tn = 0; put("!"); num(ns); put("\n");
   P[i++] = ns; P[i++] = 0;
   if(ns > 0) { P[i++] = 'h'; P[i++] = 'i'; P[i++] = 0; put("'hi\n"); }
   if(ns > 1) { P[i++] = 0; put("'\n"); }
   num(i); put(":\tdup\n"); P[i++] = 3; at = i;
   num(i); put(":\t"); put(NAME[op]); P[i++] = op;
   if(op == PUSHF) { f = a == 0 ? 0.f : a == 1 ? 2.5f : -1.25f; put(a == 0 ? " 0.000000" : a == 1 ? " 2.500000" : " -1.250000"); memcpy(P + i, &f, 4); i += 4; }
   else if(op > PUSHF) { v = a == 0 ? 0 : a == 1 ? 70000 : -3; put(a == 0 ? " 0" : a == 1 ? " 70000" : " -3"); memcpy(P + i, &v, 4); i += 4; }
   dbg = buzzdebug_new(); if(d) { buzzdebug_info_set(dbg, at, 12, 5, "s.bzz"); put("\t|12,5,s.bzz"); }
   put("\n"); num(i); put(":\tdone\n"); P[i++] = 1;
   rc = buzz_deasm(P, i, dbg, vf_file_name());
   ENSURES(rc == 0, "a well-formed program is disassembled");
   ENSURES(has(vf_file_read(), T), "the listing gives strings, then offset, name, operand and debug information of each instruction");
   vf_cover("end");
}
//@ unit refuse fn=buzz_deasm mode=bounded note="operation codes beyond the last, operands cut after 0 to 3 bytes, fewer strings than announced"
UNIT(refuse) {
   uint32_t w = vf_choose("w", 3), i = 0; uint8_t* P = (uint8_t*)malloc(20); dbg = buzzdebug_new();
   P[i++] = w == 2 ? 3 : 0; P[i++] = 0;
   if(w == 2) { P[i++] = 'a'; P[i++] = 0; P[i++] = 0; }
   else { P[i++] = 0;
   if(w == 0) { P[i++] = 47 + vf_choose("o", 209); P[i++] = 1; }
   else { P[i++] = PUSHF + vf_choose("o", 12); uint32_t k = vf_choose("cut", 4); while(k--) P[i++] = 1; } }
   rc = buzz_deasm(P, i, dbg, vf_file_name());
   ENSURES(rc != 0, "unknown operation codes, cut operands and missing strings are refused");
   vf_cover("end");
}
//@ search programs
#ifdef VF_NATIVE
static char LT[200000], DT[200000]; static uint8_t X[20000];
SEARCH(programs) {
   uint32_t N = vf_rand(4) ? 1 + vf_rand(30) : 1 + vf_rand(1500), ns = vf_rand(3) ? vf_rand(4) : vf_rand(300), nl = 1 + vf_rand(40), i, x = 0, ndb = 0; char* p = LT; char* q = DT;
   int32_t lab[40]; uint32_t ref[2000], rl[2000], nr = 0; uint32_t doff[2000], dl[2000], dc[2000]; memset(lab, -1, sizeof(lab));
   uint32_t off2[2000]; int32_t opn[2000]; float opf[2000]; uint8_t opc[2000];
   p += sprintf(p, "!%u\n", ns); X[x++] = ns & 255; X[x++] = ns >> 8; q += sprintf(q, "!%u\n", ns);
   for(i = 0; i < ns; ++i) { int l = vf_rand(3) ? vf_rand(8) : vf_rand(40), j; *p++ = '\''; *q++ = '\''; for(j = 0; j < l; ++j) { char c = "abz @!#'|,.\t_"[j == l - 1 ? vf_rand(3) : vf_rand(13)]; *p++ = c; *q++ = c; X[x++] = c; } X[x++] = 0; *p++ = '\n'; *q++ = '\n'; }
   *p = *q = 0;
   for(i = 0; i < N; ++i) {
      if(!vf_rand(6)) { uint32_t l = vf_rand(nl); if(lab[l] < 0) { lab[l] = x; p += sprintf(p, "@l%u%s\n", l, vf_rand(2) ? "" : "  "); } }
      if(!vf_rand(20)) p += sprintf(p, vf_rand(2) ? "\n" : "\t# comment\n");
      uint8_t op = vf_rand(47); off2[i] = x; opc[i] = op; opn[i] = 0; opf[i] = 0; X[x++] = op; p += sprintf(p, "\t%s", NAME[op]);
      if(op >= PUSHF) {
         if(op >= JUMP || (op > PUSHF && !vf_rand(4))) { ref[nr] = x; rl[nr] = vf_rand(nl); p += sprintf(p, " @l%u", rl[nr]); ++nr; }
         else if(op == PUSHF) { opf[i] = ((float)vf_rand(100000) - 50000) / 8; p += sprintf(p, " %f", opf[i]); memcpy(X + x, &opf[i], 4); }
         else { opn[i] = vf_rand(2) ? (int32_t)vf_rand(300) - 100 : (int32_t)(vf_rand(65536) * 32768u); p += sprintf(p, " %d", opn[i]); memcpy(X + x, &opn[i], 4); }
         x += 4;
      }
      doff[ndb] = off2[i]; dl[ndb] = vf_rand(100000); dc[ndb] = vf_rand(300);
      if(!vf_rand(3)) { p += sprintf(p, "\t|%u,%u,f%u.bzz", dl[ndb], dc[ndb], ndb); ++ndb; }
      p += sprintf(p, "\n");
   }
   for(i = 0; i < nl; ++i) if(lab[i] < 0) { p += sprintf(p, "@l%u\n", i); lab[i] = x; }
   p += sprintf(p, "\tdone\n"); off2[N] = x; opc[N] = 1; X[x++] = 1;
   for(i = 0; i < nr; ++i) memcpy(X + ref[i], &lab[rl[i]], 4);
   vf_file_write(LT); rc = buzz_asm(vf_file_name(), &B, &n, &dbg);
   vf_assert(rc == 0 && n == x, "a program is assembled in full");
   vf_assert(!memcmp(B, X, x), "strings, instructions, operands and labels are in their places");
   char f[20];
   for(i = 0; i < ndb; ++i) { sprintf(f, "f%u.bzz", i); vf_assert(dbgis(doff[i], dl[i], dc[i], f), "debug information belongs to its instruction"); }
   vf_assert(buzzdebug_info_count(dbg) == ndb, "no debug information is invented");
   uint32_t d = 0;
   for(i = 0; i <= N; ++i) {
      q += sprintf(q, "%u:\t%s", off2[i], NAME[opc[i]]);
      if(opc[i] == PUSHF) q += sprintf(q, " %f", opf[i]);
      else if(opc[i] > PUSHF) { int32_t v; memcpy(&v, X + off2[i] + 1, 4); q += sprintf(q, " %d", v); }
      if(d < ndb && doff[d] == off2[i]) { q += sprintf(q, "\t|%u,%u,f%u.bzz", dl[d], dc[d], d); ++d; }
      q += sprintf(q, "\n");
   }
   vf_assert(buzz_deasm(B, n, dbg, vf_file_name()) == 0, "a program is disassembled");
   FILE* in = fopen(vf_file_name(), "r"); static char got[200000]; size_t k = fread(got, 1, sizeof(got) - 1, in); got[k] = 0; fclose(in);
   vf_assert(!strcmp(got, DT), "the listing gives strings, then offset, name, operand and debug information of each instruction");
}
#endif
