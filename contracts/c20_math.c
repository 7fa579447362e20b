/* C20: math library and random numbers */
#include "vm_call.h"
#include <buzz/buzzmath.h>
#include <math.h>
//@ assume the C library's log, log2, log10, exp, sqrt, sin, cos, tan, asin, acos and atan2 compute those functions (uninterpreted in the proofs, evaluated in unit values)
//@ assume the absolute value of -2147483648 and the rounding of a float outside the integers are unspecified
//@ assume a native function sees its arguments as locals of a fresh activation (C10)
extern void mt_setseed(buzzvm_t vm, uint32_t seed) __attribute__((weak));
extern uint32_t mt_uniform32(buzzvm_t vm) __attribute__((weak));
#define NFN 17
static const char* FN[] = { "log", "log2", "log10", "exp", "sqrt", "sin", "cos", "tan", "asin", "acos", "abs", "floor", "ceil", "round", "atan", "min", "max" };
static uint32_t d0;
static void lib(void) {
   vm_ready(1); buzzmath_register(vm); d0 = depth();
}
static buzzobj_t val(uint32_t t, const char* lv) {
   buzzobj_t o = t == BUZZTYPE_STRING ? news("4") : buzzheap_newobj(vm, t);
   if(t == BUZZTYPE_INT) o->i.value = vf_i32(lv);
   else if(t == BUZZTYPE_FLOAT) o->f.value = vf_f32(lv);
   return o;
}
static int isnum(buzzobj_t o) { return o->o.type == BUZZTYPE_INT || o->o.type == BUZZTYPE_FLOAT; }
static float num(buzzobj_t o) { return o->o.type == BUZZTYPE_INT ? (float)o->i.value : o->f.value; }
static void good(uint16_t t) {
   ENSURES(vm->state == BUZZVM_STATE_READY && depth() == d0 + 1, "a math function gives one value");
   ENSURES(top()->o.type == t, "a math function gives a value of the documented type");
}
static void bad(int e) { ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == e, "a wrong argument is an error"); }
//@ unit fun1 fn=buzzmath_log,buzzmath_log2,buzzmath_log10,buzzmath_exp,buzzmath_sqrt,buzzmath_sin,buzzmath_cos,buzzmath_tan,buzzmath_asin,buzzmath_acos split=fn:10,ta:7 companion=values
UNIT(fun1) {
   lib(); uint32_t k = vf_choose("fn", 10); buzzobj_t a = val(vf_choose("ta", 7), "a"); float x = isnum(a) ? num(a) : 0, e;
   ARG[0] = a; method(global("math"), FN[k], 1);
   if(!isnum(a)) { bad(BUZZVM_ERROR_TYPE); vf_cover("end"); return; }
   good(BUZZTYPE_FLOAT);
   switch(k) {
      case 0: e = logf(x); break;  case 1: e = log2f(x); break; case 2: e = log10f(x); break; case 3: e = expf(x); break; case 4: e = sqrtf(x); break;
      case 5: e = sinf(x); break;  case 6: e = cosf(x); break;  case 7: e = tanf(x); break;   case 8: e = asinf(x); break; default: e = acosf(x); break;
   }
   ENSURES(vf_feq(top()->f.value, e), "a math function computes its function");
   vf_cover("end");
}
//@ unit round fn=buzzmath_abs,buzzmath_floor,buzzmath_ceil,buzzmath_round split=fn:4,ta:7
UNIT(round) {
   lib(); uint32_t k = vf_choose("fn", 4); buzzobj_t a = val(vf_choose("ta", 7), "a");
   if(a->o.type == BUZZTYPE_INT) vf_assume(a->i.value != -2147483647 - 1);
   float x = a->f.value; int32_t v = a->i.value;
   if(a->o.type == BUZZTYPE_FLOAT && k != 0) vf_assume(x > -2147483648.0f && x < 2147483648.0f);
   ARG[0] = a; method(global("math"), FN[10 + k], 1);
   if(!isnum(a)) { bad(BUZZVM_ERROR_TYPE); vf_cover("end"); return; }
   good(k == 0 ? a->o.type : BUZZTYPE_INT);
   buzzobj_t r = top(); double y = r->i.value, z = x;
   if(a->o.type == BUZZTYPE_INT) ENSURES(r->i.value == (k == 0 && v < 0 ? -v : v), "an integer is rounded to itself; its absolute value is right");
   else switch(k) {
      case 0: ENSURES(x != x || r->f.value == (x < 0 ? -x : x), "the absolute value of a float is right"); break;
      case 1: ENSURES(y <= z && z < y + 1, "floor gives the largest integer below"); break;
      case 2: ENSURES(y >= z && z > y - 1, "ceil gives the smallest integer above"); break;
      default: ENSURES(y - 0.5 <= z && z <= y + 0.5 && (z - y != 0.5 || z < 0) && (z - y != -0.5 || z > 0), "round gives the nearest integer, halves away from zero"); break;
   }
   vf_cover("end");
}
//@ unit two fn=buzzmath_atan,buzzmath_min,buzzmath_max split=fn:3,ta:7,tb:7
UNIT(two) {
   lib(); uint32_t k = vf_choose("fn", 3); buzzobj_t a = val(vf_choose("ta", 7), "a"), b = val(vf_choose("tb", 7), "b");
   int n = isnum(a) && isnum(b); float x = n ? num(a) : 0, y = n ? num(b) : 0;
   if(k && !n) { vf_cover("end"); return; }            /* not documented */
   ARG[0] = a; ARG[1] = b; method(global("math"), FN[14 + k], 2);
   if(!n) { if(k == 0) bad(BUZZVM_ERROR_TYPE); vf_cover("end"); return; }
   if(k == 0) { good(BUZZTYPE_FLOAT); ENSURES(vf_feq(top()->f.value, atan2f(x, y)), "atan gives the angle of (x,y) from atan(y,x)"); }
   else {
      double p = a->o.type == BUZZTYPE_INT ? (double)a->i.value : a->f.value, q = b->o.type == BUZZTYPE_INT ? (double)b->i.value : b->f.value;
      vf_assume(p == p && q == q);
      good(top()->o.type); buzzobj_t r = top();
      double m = r->o.type == BUZZTYPE_INT ? (double)r->i.value : r->f.value;
      ENSURES(isnum(r) && (k == 1 ? m == (p < q ? p : q) : m == (p > q ? p : q)), "min and max give the smaller and the larger argument");
      if(p != q) ENSURES(r->o.type == ((k == 1) == (p < q) ? a : b)->o.type, "min and max keep the type");
   }
   vf_cover("end");
}
//@ unit args fn=buzzmath_log,buzzmath_abs,buzzmath_atan,buzzmath_min,buzzmath_max,buzzmath_rng_setseed,buzzmath_rng_uniform,buzzmath_rng_gaussian,buzzmath_rng_exponential split=fn:21
UNIT(args) {
   lib(); uint32_t k = vf_choose("fn", 21), n = vf_choose("n", 4), i; static const char* R[] = { "setseed", "uniform", "gaussian", "exponential" };
   uint32_t lo = k < 14 ? 1 : k < 17 ? 2 : k == 17 ? 1 : k < 20 ? 0 : 1, hi = k < 14 ? 1 : k < 17 ? 2 : k == 17 ? 1 : k < 20 ? 2 : 1;
   for(i = 0; i < n; ++i) ARG[i] = newi(1);
   if(n >= lo && n <= hi) { vf_cover("end"); return; }
   buzzobj_t m = global("math"); if(k < 17) method(m, FN[k], n); else method(field(m, "rng"), R[k - 17], n);
   bad(BUZZVM_ERROR_LNUM);
   vf_cover("end");
}
static int close_to(float x, float y) { float d = x - y; return d < 1e-5f && d > -1e-5f; }
static const float VX[] = { 0.5f, 0.25f, 1.0f };
static const float VE[10][3] = { { -0.6931472f, -1.3862944f, 0 }, { -1, -2, 0 }, { -0.30103f, -0.60206f, 0 }, { 1.6487213f, 1.2840254f, 2.7182818f }, { 0.70710678f, 0.5f, 1 },
   { 0.47942554f, 0.24740396f, 0.84147098f }, { 0.87758256f, 0.96891242f, 0.54030231f }, { 0.54630249f, 0.25534192f, 1.5574077f }, { 0.52359878f, 0.25268026f, 1.5707963f }, { 1.0471976f, 1.3181161f, 0 } };
//@ unit values fn=buzzmath_log,buzzmath_log2,buzzmath_log10,buzzmath_exp,buzzmath_sqrt,buzzmath_sin,buzzmath_cos,buzzmath_tan,buzzmath_asin,buzzmath_acos,buzzmath_atan mode=bounded split=fn:11,x:4 note="3 floats and 1 integer per function"
UNIT(values) {
   lib(); uint32_t k = vf_choose("fn", 11), x = vf_choose("x", 4);
   if(k == 10) { ARG[0] = x & 1 ? newi(2) : newf(2.0f); ARG[1] = x & 2 ? newi(-1) : newf(-1.0f); method(global("math"), "atan", 2); good(BUZZTYPE_FLOAT); ENSURES(close_to(top()->f.value, 2.0344439f), "atan is right"); vf_cover("end"); return; }
   ARG[0] = x == 3 ? newi(1) : newf(VX[x]); method(global("math"), FN[k], 1); good(BUZZTYPE_FLOAT);
   ENSURES(close_to(top()->f.value, VE[k][x == 3 ? 2 : x]), "a math function is right");
   vf_cover("end");
}
/* ---- random numbers ---- */
#define MTN 624
static buzzvm_t mt_vm(const char* l) {        /* a generator in any state */
   buzzvm_t m = buzzvm_new(1); m->rngstate = (int32_t*)vf_buf(l, MTN * 4); m->rngidx = vf_i32(l);
   return m;
}
//@ unit seed fn=mt_setseed companion=rng_b
UNIT(seed) {
   buzzvm_t p = mt_vm("p"), q = mt_vm("q"); uint32_t s = vf_u32("seed"), i;
   vf_unwind(MTN + 2);
   mt_setseed(p, s); mt_setseed(q, s);
   int same = p->rngidx == q->rngidx; for(i = 0; i < MTN; ++i) same &= p->rngstate[i] == q->rngstate[i];
   ENSURES(same, "the state of the generator depends on the seed only");
   ENSURES(p->rngidx >= 0 && p->rngidx <= MTN + 1, "the generator is ready to draw");
   vf_cover("end");
}
//@ unit draw fn=mt_uniform32 companion=rng_b split=k:3
UNIT(draw) {
   buzzvm_t p = mt_vm("p"), q = buzzvm_new(2); uint32_t i, k = vf_choose("k", 3);
   vf_unwind(MTN + 2);
   if(k) p->rngidx = MTN - 1 + k; else vf_assume((p->rngidx >= 0) & (p->rngidx < MTN)); q->rngidx = p->rngidx;
   q->rngstate = (int32_t*)malloc(MTN * 4); memcpy(q->rngstate, p->rngstate, MTN * 4);
   uint32_t x = mt_uniform32(p), y = mt_uniform32(q);
   ENSURES(x == y, "a draw depends on the state of the generator only");
   int same = p->rngidx == q->rngidx; for(i = 0; i < MTN; ++i) same &= p->rngstate[i] == q->rngstate[i];
   ENSURES(same && p->rngidx >= 0 && p->rngidx <= MTN, "the next state depends on the state only");
   vf_cover("end");
}
static uint32_t rnd, nrnd;
uint32_t vf_stub__mt_uniform32(buzzvm_t m) { vf_assert(m == vm, "pre: the generator of this machine"); ++nrnd; return rnd; }
//@ unit uniform_i fn=buzzmath_rng_uniform split=n:3 companion=rng_b
UNIT(uniform_i) {
   lib(); uint32_t n = vf_choose("n", 3), i; int32_t v[2]; rnd = vf_u32("rnd"); nrnd = 0;
   for(i = 0; i < n; ++i) { v[i] = vf_i32("v"); ARG[i] = newi(v[i]); }
   vf_muldiv(1);
   method(field(global("math"), "rng"), "uniform", n);
   good(BUZZTYPE_INT); int32_t r = top()->i.value;
   int32_t a = n == 2 ? v[0] : 0, b = n == 2 ? v[1] : n == 1 ? v[0] : 0;
   if(n == 0) ENSURES((uint32_t)r == rnd, "a draw without bounds is any integer");
   else ENSURES(a <= b ? a <= r && r <= b : b <= r && r <= a, "an integer draw lies between the bounds");
   vf_cover("end");
}
//@ unit uniform_f fn=buzzmath_rng_uniform split=n:2,ta:2,tb:2 companion=rng_b
UNIT(uniform_f) {
   lib(); uint32_t n = 1 + vf_choose("n", 2), i; float v[2]; rnd = vf_u32("rnd"); nrnd = 0;
   uint32_t t[2] = { BUZZTYPE_INT + vf_choose("ta", 2), BUZZTYPE_INT + vf_choose("tb", 2) }; if(n == 1) t[1] = t[0];
   if(t[0] == BUZZTYPE_INT && t[1] == BUZZTYPE_INT) { vf_cover("end"); return; }
   for(i = 0; i < n; ++i) { ARG[i] = val(t[i], "v"); v[i] = num(ARG[i]); vf_assume(v[i] >= -3.4028235e38f && v[i] <= 3.4028235e38f); }
   vf_muldiv(1);
   method(field(global("math"), "rng"), "uniform", n);
   good(BUZZTYPE_FLOAT); float r = top()->f.value;
   float a = n == 2 ? v[0] : 0, b = n == 2 ? v[1] : v[0];
   ENSURES(((a <= r) & (r <= b)) | ((b <= r) & (r <= a)), "a float draw lies between the bounds");
   vf_cover("end");
}
//@ unit rng_types fn=buzzmath_rng_uniform,buzzmath_rng_setseed,buzzmath_rng_gaussian,buzzmath_rng_exponential split=fn:4,ta:7,tb:7
UNIT(rng_types) {
   static const char* R[] = { "setseed", "exponential", "uniform", "gaussian" };
   lib(); uint32_t k = vf_choose("fn", 4), ta = vf_choose("ta", 7), tb = vf_choose("tb", 7); nrnd = 0; rnd = 0x90000000;
   if((ta == BUZZTYPE_INT || (k && ta == BUZZTYPE_FLOAT)) && (k < 2 || tb == BUZZTYPE_INT || tb == BUZZTYPE_FLOAT)) { vf_cover("end"); return; }
   ARG[0] = val(ta, "a"); ARG[1] = val(tb, "b");
   method(field(global("math"), "rng"), R[k], k < 2 ? 1 : 2);
   bad(BUZZVM_ERROR_TYPE);
   vf_cover("end");
}
/* ---- the real generator ---- */
static void rng(const char* f, uint32_t n) { buzzobj_t r = field(field(global("math"), "rng"), f); call(r, n); ENSURES(vm->state == BUZZVM_STATE_READY, "random functions work"); }
static buzzobj_t pull(void) { buzzobj_t o = top(); buzzvm_pop(vm); return o; }
static void reseed(int32_t s) { ARG[0] = newi(s); rng("setseed", 1); pull(); }
static float drawf(const char* f, uint32_t n) { rng(f, n); buzzobj_t o = pull(); ENSURES(o->o.type == BUZZTYPE_FLOAT, "a float draw is a float"); return o->f.value; }
static const int32_t SEED[] = { 0, 1, -5, 123456 };
static const int32_t BI[][2] = { { 0, 10 }, { -10, 10 }, { 10, -10 }, { -2147483647 - 1, 2147483647 }, { -7, -7 }, { 2000000000, -2000000000 } };
static const float BF[][2] = { { 0, 1 }, { -1.5f, 2.5f }, { 3, -3 }, { -3e38f, 3e38f }, { -1e30f, 1e14f }, { 1e-3f, 1 } };
//@ unit rng_b fn=mt_setseed,mt_uniform32,buzzmath_rng_uniform,buzzmath_rng_gaussian,buzzmath_rng_exponential mode=bounded split=s:4,b:6 note="4 seeds, 6 integer and 6 float intervals, 4 draws each"
UNIT(rng_b) {
   lib(); vf_unwind(4000); int32_t s = SEED[vf_choose("s", 4)]; uint32_t b = vf_choose("b", 6), i; int32_t x[6]; float g[3], e[3];
   reseed(s);
   for(i = 0; i < 6; ++i) { rng("uniform", 0); x[i] = pull()->i.value; }
   ENSURES(x[0] != x[1] || x[1] != x[2], "draws differ");
   reseed(s + 1); rng("uniform", 0); pull(); reseed(s);
   for(i = 0; i < 6; ++i) { rng("uniform", 0); ENSURES(pull()->i.value == x[i], "the same seed gives the same numbers"); }
   int32_t lo = BI[b][0] < BI[b][1] ? BI[b][0] : BI[b][1], hi = BI[b][0] < BI[b][1] ? BI[b][1] : BI[b][0];
   float flo = BF[b][0] < BF[b][1] ? BF[b][0] : BF[b][1], fhi = BF[b][0] < BF[b][1] ? BF[b][1] : BF[b][0];
   for(i = 0; i < 4; ++i) {
      ARG[0] = newi(BI[b][0]); ARG[1] = newi(BI[b][1]); rng("uniform", 2); buzzobj_t o = pull();
      ENSURES(o->o.type == BUZZTYPE_INT && o->i.value >= lo && o->i.value <= hi, "an integer draw lies between the bounds");
      ARG[0] = newi(BI[b][0]); rng("uniform", 1); o = pull();
      ENSURES(o->o.type == BUZZTYPE_INT && (BI[b][0] < 0 ? o->i.value <= 0 && o->i.value >= BI[b][0] : o->i.value >= 0 && o->i.value <= BI[b][0]), "an integer draw lies between zero and the bound");
      ARG[0] = newf(BF[b][0]); ARG[1] = newf(BF[b][1]); float f = drawf("uniform", 2);
      ENSURES(f >= flo && f <= fhi, "a float draw lies between the bounds");
      ARG[0] = newf(BF[b][1]); f = drawf("uniform", 1);
      ENSURES(BF[b][1] < 0 ? f <= 0 && f >= BF[b][1] : f >= 0 && f <= BF[b][1], "a float draw lies between zero and the bound");
      ARG[0] = newi(1); ARG[1] = newf(4.5f); f = drawf("uniform", 2); ENSURES(f >= 1 && f <= 4.5f, "a mixed draw lies between the bounds");
      ARG[0] = newf(-4.5f); ARG[1] = newi(2); f = drawf("uniform", 2); ENSURES(f >= -4.5f && f <= 2, "a mixed draw lies between the bounds");
   }
   if(b == 0) {
      reseed(s); g[0] = drawf("gaussian", 0);
      reseed(s); ARG[0] = newf(2); g[1] = drawf("gaussian", 1);
      reseed(s); ARG[0] = newi(2); ARG[1] = newf(3); g[2] = drawf("gaussian", 2);
      ENSURES(g[0] - g[0] == 0, "a gaussian draw is a number");
      ENSURES(close_to(g[1], 2 * g[0]), "the first argument of gaussian is the standard deviation");
      ENSURES(close_to(g[2], 3 + 2 * g[0]), "the second argument of gaussian is the mean");
      reseed(s); ARG[0] = newi(1); e[0] = drawf("exponential", 1);
      reseed(s); ARG[0] = newf(4); e[1] = drawf("exponential", 1);
      ENSURES(e[0] >= 0 && close_to(e[1], 4 * e[0]), "the argument of exponential is the mean");
   }
   vf_cover("end");
}
