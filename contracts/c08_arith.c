/* C08 - arithmetic, logic and comparison instructions. */
#include "vm_state.h"
#include <math.h>
//@ assume integer arithmetic wraps at 32 bits (compiled behaviour); shift amounts outside 0..31 are unspecified
//@ assume the libm functions powf and fmodf are what the C library computes (uninterpreted)

static buzzobj_t a, b, r;     /* left operand (#2), right operand (#1), result */
static uint16_t ta, tb; static int32_t ia, ib; static float fa, fb;
static uint32_t hn;

static buzzobj_t operand_obj(const char* lt, const char* lv) {
   buzzobj_t o = any_obj(lt, lv);
   return o;
}
static int start2(void) {
   any_vm();
   hn = vm->heap->objs->size;
   if(!vf_fork(N >= 2)) { witness(N); return 0; }
   a = operand_obj("ta", "a"); b = operand_obj("tb", "b");
   operand(2, a); operand(1, b);
   witness(2);
   ta = a->o.type; tb = b->o.type;
   ia = a->i.value; ib = b->i.value; fa = a->f.value; fb = b->f.value;
   return 1;
}
static int num(uint16_t t) { return t == BUZZTYPE_INT || t == BUZZTYPE_FLOAT; }
static float fl(uint16_t t, int32_t i, float f) { return t == BUZZTYPE_INT ? (float)i : f; }
static void operands_kept(void) {
   ENSURES(a->o.type == ta && b->o.type == tb, "operands keep their type");
   ENSURES(IMPLIES(ta == BUZZTYPE_INT, a->i.value == ia) && IMPLIES(tb == BUZZTYPE_INT, b->i.value == ib), "integer operands are not modified");
   ENSURES(IMPLIES(ta == BUZZTYPE_FLOAT, a->i.value == ia) && IMPLIES(tb == BUZZTYPE_FLOAT, b->i.value == ib), "float operands are not modified");
}
/* one fresh result replaced the n operands */
static buzzobj_t result(uint32_t n, uint16_t type) {
   ENSURES(vm->state == BUZZVM_STATE_READY, "valid operands leave the machine ready");
   ENSURES(vm->stack->size == (int64_t)N - n + 1, "the result replaces the operands");
   r = buzzvm_stack_at(vm, 1);
   ENSURES(r->o.type == type, "the result has the documented type");
   ENSURES(r != a && r != b && IMPLIES(haveW, r != W), "the result is a new value");
   ENSURES(vm->heap->objs->size == (int64_t)hn + 1 && buzzdarray_last(vm->heap->objs, buzzobj_t) == r, "the result is tracked by the heap");
   ENSURES(r->o.marker == vm->heap->marker, "the result carries the current collection mark");
   witness_kept();
   return r;
}
static int underflow(buzzvm_state s) {
   is_error(BUZZVM_ERROR_STACK);
   ENSURES(s == BUZZVM_STATE_ERROR, "the error state is returned");
   ENSURES(vm->stack->size == N, "a missing operand leaves the stack alone");
   witness_kept();
   return 0;
}
/* the two exceptional integer quotients */
static int bad_div(void) { return ib == 0 || (ib == -1 && ia == INT32_MIN); }

#define ARITH(name, IEXPR, FEXPR)                                             \
UNIT(name) {                                                                  \
   int ok = start2();                                                         \
   buzzvm_state s = buzzvm_##name(vm);                                        \
   if(!ok) { underflow(s); vf_cover("end"); return; }                         \
   operands_kept();                                                           \
   if(!num(ta) || !num(tb)) {                                                 \
      is_error(BUZZVM_ERROR_TYPE);                                            \
      ENSURES(s == BUZZVM_STATE_ERROR, "the error state is returned");        \
      witness_kept();                                                         \
   }                                                                          \
   else if(ta == BUZZTYPE_INT && tb == BUZZTYPE_INT) {                        \
      result(2, BUZZTYPE_INT);                                                \
      ENSURES(r->i.value == (int32_t)(IEXPR), "integer operands give the integer result"); \
   }                                                                          \
   else {                                                                     \
      float x = fl(ta, ia, fa), y = fl(tb, ib, fb);                           \
      result(2, BUZZTYPE_FLOAT);                                              \
      ENSURES(vf_feq(r->f.value, FEXPR), "a float operand gives the float result"); \
   }                                                                          \
   vf_cover("end");                                                           \
}
//@ unit add fn=buzzvm_add split=ta:7
ARITH(add, (uint32_t)ia + (uint32_t)ib, x + y)
//@ unit sub fn=buzzvm_sub split=ta:7
ARITH(sub, (uint32_t)ia - (uint32_t)ib, x - y)
//@ unit mul fn=buzzvm_mul split=ta:7
ARITH(mul, (uint32_t)ia * (uint32_t)ib, x * y)

//@ unit div fn=buzzvm_div split=ta:7
UNIT(div) {
   int ok = start2();
   buzzvm_state s = buzzvm_div(vm);
   if(!ok) { underflow(s); vf_cover("end"); return; }
   operands_kept();
   if(!num(ta) || !num(tb)) { is_error(BUZZVM_ERROR_TYPE); witness_kept(); }
   else if(ta == BUZZTYPE_INT && tb == BUZZTYPE_INT) {
      if(bad_div()) { ENSURES(vm->state == BUZZVM_STATE_ERROR && s == BUZZVM_STATE_ERROR, "an undefined integer quotient is an error"); witness_kept(); }
      else {
         result(2, BUZZTYPE_INT);
         ENSURES(r->i.value == ia / ib, "integer operands give the integer quotient");
      }
   }
   else {
      float x = fl(ta, ia, fa), y = fl(tb, ib, fb);
      result(2, BUZZTYPE_FLOAT);
      ENSURES(vf_feq(r->f.value, x / y), "a float operand gives the float quotient");
   }
   vf_cover("end");
}
//@ unit mod fn=buzzvm_mod split=ta:7
UNIT(mod) {
   int ok = start2();
   buzzvm_state s = buzzvm_mod(vm);
   if(!ok) { underflow(s); vf_cover("end"); return; }
   operands_kept();
   if(!num(ta) || !num(tb)) { is_error(BUZZVM_ERROR_TYPE); witness_kept(); }
   else if(ta == BUZZTYPE_INT && tb == BUZZTYPE_INT) {
      if(bad_div()) { ENSURES(vm->state == BUZZVM_STATE_ERROR && s == BUZZVM_STATE_ERROR, "an undefined integer remainder is an error"); witness_kept(); }
      else {
         result(2, BUZZTYPE_INT);
         int32_t m = ia % ib;
         ENSURES(r->i.value == (m < 0 ? m + ib : m), "integer operands give the integer remainder, non-negative for a positive divisor");
      }
   }
   else {
      float x = fl(ta, ia, fa), y = fl(tb, ib, fb);
      float m = fmodf(x, y);
      result(2, BUZZTYPE_FLOAT);
      ENSURES(vf_feq(r->f.value, m < 0 ? m + y : m), "a float operand gives the float remainder");
   }
   vf_cover("end");
}
//@ unit pow fn=buzzvm_pow split=ta:7
UNIT(pow) {
   int ok = start2();
   buzzvm_state s = buzzvm_pow(vm);
   if(!ok) { underflow(s); vf_cover("end"); return; }
   operands_kept();
   if(!num(ta) || !num(tb)) { is_error(BUZZVM_ERROR_TYPE); witness_kept(); }
   else {
      result(2, BUZZTYPE_FLOAT);
      ENSURES(vf_feq(r->f.value, powf(fl(ta, ia, fa), fl(tb, ib, fb))), "the result is the left operand to the power of the right one");
   }
   vf_cover("end");
}
#define BITWISE(name, EXPR, COND)                                             \
UNIT(name) {                                                                  \
   int ok = start2();                                                         \
   if(ok) vf_assume(COND);                                                    \
   buzzvm_state s = buzzvm_##name(vm);                                        \
   if(!ok) { underflow(s); vf_cover("end"); return; }                         \
   operands_kept();                                                           \
   if(ta != BUZZTYPE_INT || tb != BUZZTYPE_INT) { is_error(BUZZVM_ERROR_TYPE); witness_kept(); } \
   else {                                                                     \
      result(2, BUZZTYPE_INT);                                                \
      ENSURES(r->i.value == (int32_t)(EXPR), "the bitwise result is right");  \
   }                                                                          \
   vf_cover("end");                                                           \
}
//@ unit band fn=buzzvm_band split=ta:7
BITWISE(band, ia & ib, 1)
//@ unit bor fn=buzzvm_bor split=ta:7
BITWISE(bor, ia | ib, 1)
//@ unit lshift fn=buzzvm_lshift split=ta:7
BITWISE(lshift, (uint32_t)ia << (ib & 31), ib >= 0 && ib < 32)
//@ unit rshift fn=buzzvm_rshift split=ta:7
BITWISE(rshift, ia >> (ib & 31), ib >= 0 && ib < 32)

static int truth(uint16_t t, int32_t i) { return !(t == BUZZTYPE_NIL || (t == BUZZTYPE_INT && i == 0)); }
#define LOGIC(name, EXPR)                                                     \
UNIT(name) {                                                                  \
   int ok = start2();                                                         \
   buzzvm_state s = buzzvm_##name(vm);                                        \
   if(!ok) { underflow(s); vf_cover("end"); return; }                         \
   operands_kept();                                                           \
   result(2, BUZZTYPE_INT);                                                   \
   ENSURES(r->i.value == (EXPR), "the boolean result is right");              \
   vf_cover("end");                                                           \
}
//@ unit land fn=buzzvm_land split=ta:7
LOGIC(land, (truth(ta, ia) && truth(tb, ib)) ? 1 : 0)
//@ unit lor fn=buzzvm_lor split=ta:7
LOGIC(lor, (truth(ta, ia) || truth(tb, ib)) ? 1 : 0)

static int start1(void) {
   any_vm();
   hn = vm->heap->objs->size;
   if(!vf_fork(N >= 1)) { witness(N); return 0; }
   a = b = operand_obj("ta", "a");
   operand(1, a);
   witness(1);
   ta = tb = a->o.type; ia = ib = a->i.value; fa = fb = a->f.value;
   return 1;
}
//@ unit lnot fn=buzzvm_lnot
UNIT(lnot) {
   int ok = start1();
   buzzvm_state s = buzzvm_lnot(vm);
   if(!ok) { underflow(s); vf_cover("end"); return; }
   operands_kept();
   result(1, BUZZTYPE_INT);
   ENSURES(r->i.value == (truth(ta, ia) ? 0 : 1), "the boolean result is right");
   vf_cover("end");
}
//@ unit bnot fn=buzzvm_bnot
UNIT(bnot) {
   int ok = start1();
   buzzvm_state s = buzzvm_bnot(vm);
   if(!ok) { underflow(s); vf_cover("end"); return; }
   operands_kept();
   if(ta != BUZZTYPE_INT) { is_error(BUZZVM_ERROR_TYPE); witness_kept(); }
   else { result(1, BUZZTYPE_INT); ENSURES(r->i.value == ~ia, "the bitwise result is right"); }
   vf_cover("end");
}
//@ unit unm fn=buzzvm_unm
UNIT(unm) {
   int ok = start1();
   buzzvm_state s = buzzvm_unm(vm);
   if(!ok) { underflow(s); vf_cover("end"); return; }
   operands_kept();
   if(!num(ta)) { is_error(BUZZVM_ERROR_TYPE); witness_kept(); }
   else if(ta == BUZZTYPE_INT) { result(1, BUZZTYPE_INT); ENSURES(r->i.value == (int32_t)(0u - (uint32_t)ia), "negation of an integer"); }
   else { result(1, BUZZTYPE_FLOAT); ENSURES(vf_feq(r->f.value, -fa), "negation of a float"); }
   vf_cover("end");
}

/* comparisons: nil and numbers in full; strings in a bounded unit */
static int sgn(void) {        /* -1 0 1, 2 incomparable */
   if(ta == BUZZTYPE_NIL || tb == BUZZTYPE_NIL) return ta == tb ? 0 : 2;
   if(ta == BUZZTYPE_INT && tb == BUZZTYPE_INT) return ia < ib ? -1 : ia > ib;
   double x = ta == BUZZTYPE_INT ? (double)ia : (double)fa, y = tb == BUZZTYPE_INT ? (double)ib : (double)fb;
   return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2;
}
static const uint16_t T3[] = { BUZZTYPE_NIL, BUZZTYPE_INT, BUZZTYPE_FLOAT };
static buzzobj_t num_obj(const char* lt, const char* lv) {
   uint16_t t = T3[vf_choose(lt, 3)];
   buzzobj_t o = raw_obj(t);
   if(t == BUZZTYPE_INT) o->i.value = vf_i32(lv);
   else if(t == BUZZTYPE_FLOAT) o->f.value = vf_f32(lv);
   return o;
}
#define CMP(name, OP, INC)                                                    \
UNIT(name) {                                                                  \
   any_vm();                                                                  \
   hn = vm->heap->objs->size;                                                 \
   if(!vf_fork(N >= 2)) { witness(N); underflow(buzzvm_##name(vm)); vf_cover("end"); return; } \
   a = num_obj("ta", "a"); b = num_obj("tb", "b");                            \
   operand(2, a); operand(1, b); witness(2);                                  \
   ta = a->o.type; tb = b->o.type;                                            \
   ia = a->i.value; ib = b->i.value; fa = a->f.value; fb = b->f.value;        \
   buzzvm_##name(vm);                                                         \
   operands_kept();                                                           \
   result(2, BUZZTYPE_INT);                                                   \
   int c = sgn();                                                             \
   ENSURES(r->i.value == (c == 2 ? INC : ((c OP 0) ? 1 : 0)), "the comparison result is right"); \
   vf_cover("end");                                                           \
}
//@ unit eq fn=buzzvm_eq,buzzobj_cmp
CMP(eq, ==, 0)
//@ unit neq fn=buzzvm_neq,buzzobj_cmp
CMP(neq, !=, 1)
//@ unit gt fn=buzzvm_gt,buzzobj_cmp
CMP(gt, >, 0)
//@ unit gte fn=buzzvm_gte,buzzobj_cmp
CMP(gte, >=, 0)
//@ unit lt fn=buzzvm_lt,buzzobj_cmp
CMP(lt, <, 0)
//@ unit lte fn=buzzvm_lte,buzzobj_cmp
CMP(lte, <=, 0)

static int refcmp(const char* x, const char* y) {
   int i;
   for(i = 0; ; ++i) {
      if((uint8_t)x[i] != (uint8_t)y[i]) return (uint8_t)x[i] < (uint8_t)y[i] ? -1 : 1;
      if(!x[i]) return 0;
   }
}
//@ unit cmp_string fn=buzzvm_eq,buzzvm_neq,buzzvm_lt,buzzvm_lte,buzzvm_gt,buzzvm_gte,buzzobj_cmp mode=bounded split=op:6 note="strings of up to 3 bytes"
UNIT(cmp_string) {
   char* x = vf_buf("x", 4); char* y = vf_buf("y", 4); x[3] = 0; y[3] = 0;
   vm = buzzvm_new(1); vm->state = BUZZVM_STATE_READY;
   N = 0; haveW = 0;
   a = raw_obj(BUZZTYPE_STRING); a->s.value.str = x;
   b = raw_obj(BUZZTYPE_STRING); b->s.value.str = y;
   ta = tb = BUZZTYPE_STRING;
   buzzvm_push(vm, a); buzzvm_push(vm, b); N = 2; hn = 0;
   int c = refcmp(x, y), e;
   switch(vf_choose("op", 6)) {
      case 0: buzzvm_eq(vm); e = c == 0; break;
      case 1: buzzvm_neq(vm); e = c != 0; break;
      case 2: buzzvm_lt(vm); e = c < 0; break;
      case 3: buzzvm_lte(vm); e = c <= 0; break;
      case 4: buzzvm_gt(vm); e = c > 0; break;
      default: buzzvm_gte(vm); e = c >= 0; break;
   }
   result(2, BUZZTYPE_INT);
   ENSURES(r->i.value == e, "strings compare by their text");
   vf_cover("end");
}
