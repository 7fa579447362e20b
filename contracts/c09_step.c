/* C09 - fetch, dispatch and machine state.
 * The program is a byte buffer of any size and content, the program counter
 * any integer, the stack any size. */
#include "vm_state.h"
#include <math.h>
//@ assume a collection does not change what the machine state means (that is C12): the machine is observed between two collections here
//@ assume programs are shorter than 2^31 bytes

static uint8_t* code; static uint32_t S; static int32_t PC0;
static uint32_t hn, op;
/* the machine is about to execute instruction o at PC0 inside the program */
static void at_instr(uint32_t o) {
   any_vm();
   S = vf_u32("codesize");
   vf_assume(S > 0 && S < 0x7fffffffu);
   if(vf_bounded()) vf_assume(S <= 16);
   code = vf_buf("code", S);
   PC0 = vf_i32("at"); vf_assume(PC0 >= 0 && (uint32_t)PC0 < S);
   code[PC0] = (uint8_t)o; op = o;
   vm->bcode = code; vm->bcode_size = S; vm->pc = PC0; vm->oldpc = PC0;
   hn = vm->heap->objs->size;
}
static void pc_in_range(void) {
   ENSURES(IMPLIES(vm->state == BUZZVM_STATE_READY, vm->pc >= 0 && (uint32_t)vm->pc < S), "a ready machine has its next instruction inside the program");
}
/* an instruction without operand: falls through to the next byte, if any */
static int fell_through(void) {
   pc_in_range();
   if((uint32_t)PC0 + 1 >= S) {
      ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_PC, "running off the end of the program is an error");
      return 0;
   }
   ENSURES(vm->pc == PC0 + 1, "an instruction without operand advances by one byte");
   return 1;
}
static void same_rest(void) {
   ENSURES(vm->bcode == code && vm->bcode_size == S, "the program stays loaded");
}

//@ unit idle fn=buzzvm_step
UNIT(idle) {
   any_vm();
   S = vf_u32("codesize"); vf_assume(S > 0 && S < 0x7fffffffu);
   if(vf_bounded()) vf_assume(S <= 16);
   code = vf_buf("code", S);
   vm->bcode = code; vm->bcode_size = S;
   hn = vm->heap->objs->size;
   witness(0);
   int32_t pc = vm->pc, opc = vm->oldpc; buzzdarray_t stk = vm->stack;
   uint32_t st = vf_choose("state", 4);
   vm->state = st >= BUZZVM_STATE_READY ? st + 1 : st;
   buzzvm_error e = vm->error = vf_choose("error", 9);
   buzzvm_state s0 = vm->state, s = buzzvm_step(vm);
   ENSURES(s == s0 && vm->state == s0, "a machine that is not ready stays in its state");
   ENSURES(vm->pc == pc && vm->oldpc == opc && vm->error == e, "a machine that is not ready keeps its program counter and error");
   ENSURES(vm->stack == stk && vm->stack->size == N && vm->heap->objs->size == hn, "a machine that is not ready executes nothing");
   witness_kept(); same_rest();
   vf_cover("end");
}
//@ unit outside fn=buzzvm_step
UNIT(outside) {
   any_vm();
   S = vf_u32("codesize"); vf_assume(S < 0x7fffffffu);
   if(vf_bounded()) vf_assume(S <= 16);
   code = vf_buf("code", S);
   vm->bcode = code; vm->bcode_size = S;
   vf_assume(vm->pc < 0 || (uint32_t)vm->pc >= S);
   witness(0);
   hn = vm->heap->objs->size;
   buzzvm_state s = buzzvm_step(vm);
   ENSURES(s == BUZZVM_STATE_ERROR && vm->state == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_PC, "a program counter outside the program is an error");
   ENSURES(vm->stack->size == N && vm->heap->objs->size == hn, "nothing outside the program is executed");
   witness_kept(); same_rest();
   vf_cover("end");
}
//@ unit unknown fn=buzzvm_step
UNIT(unknown) {
   uint8_t o = vf_u8("opcode"); vf_assume(o >= BUZZVM_INSTR_COUNT);
   at_instr(o);
   witness(0);
   buzzvm_step(vm);
   ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_INSTR, "an unknown instruction is an error");
   ENSURES(vm->stack->size == N && vm->heap->objs->size == hn, "an unknown instruction executes nothing");
   witness_kept(); same_rest();
   vf_cover("end");
}
/* binary instructions on integers, by the documented instruction set */
static const uint8_t BIN[] = { BUZZVM_INSTR_ADD, BUZZVM_INSTR_SUB, BUZZVM_INSTR_MUL, BUZZVM_INSTR_DIV, BUZZVM_INSTR_MOD,
   BUZZVM_INSTR_POW, BUZZVM_INSTR_LAND, BUZZVM_INSTR_LOR, BUZZVM_INSTR_BAND, BUZZVM_INSTR_BOR, BUZZVM_INSTR_LSHIFT, BUZZVM_INSTR_RSHIFT,
   BUZZVM_INSTR_EQ, BUZZVM_INSTR_NEQ, BUZZVM_INSTR_GT, BUZZVM_INSTR_GTE, BUZZVM_INSTR_LT, BUZZVM_INSTR_LTE };
//@ unit binary fn=buzzvm_step split=op:18
UNIT(binary) {
   uint32_t o = BIN[vf_choose("op", 18)];
   at_instr(o);
   int32_t x = vf_i32("x"), y = vf_i32("y");
   if(!vf_fork(N >= 2)) {
      buzzvm_step(vm);
      ENSURES(vm->state == BUZZVM_STATE_ERROR, "too few operands are an error");
      ENSURES(vm->stack->size == N, "too few operands leave the stack alone");
      vf_cover("end"); return;
   }
   operand(2, int_obj(x)); operand(1, int_obj(y)); witness(2);
   if(o == BUZZVM_INSTR_DIV || o == BUZZVM_INSTR_MOD) vf_assume(y != 0 && !(y == -1 && x == INT32_MIN));
   if(o == BUZZVM_INSTR_LSHIFT || o == BUZZVM_INSTR_RSHIFT) vf_assume(y >= 0 && y < 32);
   buzzvm_step(vm);
   same_rest(); witness_kept();
   if(!fell_through()) { vf_cover("end"); return; }
   ENSURES(vm->state == BUZZVM_STATE_READY, "valid operands leave the machine ready");
   ENSURES(vm->stack->size == (int64_t)N - 1, "the result replaces the operands");
   buzzobj_t r = buzzvm_stack_at(vm, 1);
   int32_t e = 0, m;
   if(o == BUZZVM_INSTR_POW) {
      ENSURES(r->o.type == BUZZTYPE_FLOAT && vf_feq(r->f.value, powf(x, y)), "the instruction computes its documented operation");
      vf_cover("end"); return;
   }
   switch(o) {
      case BUZZVM_INSTR_ADD: e = (int32_t)((uint32_t)x + (uint32_t)y); break;
      case BUZZVM_INSTR_SUB: e = (int32_t)((uint32_t)x - (uint32_t)y); break;
      case BUZZVM_INSTR_MUL: e = (int32_t)((uint32_t)x * (uint32_t)y); break;
      case BUZZVM_INSTR_DIV: e = x / y; break;
      case BUZZVM_INSTR_MOD: m = x % y; e = m < 0 ? m + y : m; break;
      case BUZZVM_INSTR_LAND: e = x && y; break;
      case BUZZVM_INSTR_LOR: e = x || y; break;
      case BUZZVM_INSTR_BAND: e = x & y; break;
      case BUZZVM_INSTR_BOR: e = x | y; break;
      case BUZZVM_INSTR_LSHIFT: e = (int32_t)((uint32_t)x << y); break;
      case BUZZVM_INSTR_RSHIFT: e = x >> y; break;
      case BUZZVM_INSTR_EQ: e = x == y; break;
      case BUZZVM_INSTR_NEQ: e = x != y; break;
      case BUZZVM_INSTR_GT: e = x > y; break;
      case BUZZVM_INSTR_GTE: e = x >= y; break;
      case BUZZVM_INSTR_LT: e = x < y; break;
      case BUZZVM_INSTR_LTE: e = x <= y; break;
   }
   ENSURES(r->o.type == BUZZTYPE_INT && r->i.value == e, "the instruction computes its documented operation");
   vf_cover("end");
}
static const uint8_t UN[] = { BUZZVM_INSTR_UNM, BUZZVM_INSTR_LNOT, BUZZVM_INSTR_BNOT, BUZZVM_INSTR_DUP, BUZZVM_INSTR_POP };
//@ unit unary fn=buzzvm_step,buzzvm_dup,buzzvm_pop split=op:5
UNIT(unary) {
   uint32_t o = UN[vf_choose("op", 5)];
   at_instr(o);
   int32_t x = vf_i32("x");
   if(!vf_fork(N >= 1)) {
      buzzvm_step(vm);
      ENSURES(vm->state == BUZZVM_STATE_ERROR, "too few operands are an error");
      ENSURES(vm->stack->size == N, "too few operands leave the stack alone");
      vf_cover("end"); return;
   }
   buzzobj_t a = int_obj(x);
   operand(1, a); witness(1);
   buzzvm_step(vm);
   same_rest(); witness_kept();
   if(!fell_through()) { vf_cover("end"); return; }
   ENSURES(vm->state == BUZZVM_STATE_READY, "valid operands leave the machine ready");
   ENSURES(a->o.type == BUZZTYPE_INT && a->i.value == x, "the operand is not modified");
   if(o == BUZZVM_INSTR_POP) ENSURES(vm->stack->size == (int64_t)N - 1, "pop removes one value");
   else if(o == BUZZVM_INSTR_DUP) ENSURES(vm->stack->size == (int64_t)N + 1 && buzzvm_stack_at(vm, 1) == a && buzzvm_stack_at(vm, 2) == a, "dup repeats the top value");
   else {
      ENSURES(vm->stack->size == N, "the result replaces the operand");
      buzzobj_t r = buzzvm_stack_at(vm, 1);
      int32_t e = o == BUZZVM_INSTR_UNM ? (int32_t)(0u - (uint32_t)x) : o == BUZZVM_INSTR_LNOT ? !x : ~x;
      ENSURES(r->o.type == BUZZTYPE_INT && r->i.value == e, "the instruction computes its documented operation");
   }
   vf_cover("end");
}
static const uint8_t NUL[] = { BUZZVM_INSTR_NOP, BUZZVM_INSTR_DONE, BUZZVM_INSTR_PUSHNIL, BUZZVM_INSTR_PUSHT };
//@ unit nullary fn=buzzvm_step,buzzvm_pushnil split=op:4
UNIT(nullary) {
   uint32_t o = NUL[vf_choose("op", 4)];
   at_instr(o);
   witness(0);
   buzzvm_state s = buzzvm_step(vm);
   same_rest(); witness_kept();
   if(o == BUZZVM_INSTR_DONE) {
      ENSURES(s == BUZZVM_STATE_DONE && vm->state == BUZZVM_STATE_DONE && vm->pc == PC0 && vm->stack->size == N, "done finishes the program");
      vf_cover("end"); return;
   }
   if(!fell_through()) { vf_cover("end"); return; }
   ENSURES(vm->state == BUZZVM_STATE_READY, "the machine stays ready");
   if(o == BUZZVM_INSTR_NOP) ENSURES(vm->stack->size == N && vm->heap->objs->size == hn, "nop does nothing");
   else {
      ENSURES(vm->stack->size == (int64_t)N + 1, "push adds one value");
      buzzobj_t r = buzzvm_stack_at(vm, 1);
      ENSURES(vm->heap->objs->size == (int64_t)hn + 1 && buzzdarray_last(vm->heap->objs, buzzobj_t) == r, "the pushed value is tracked by the heap");
      if(o == BUZZVM_INSTR_PUSHNIL) ENSURES(r->o.type == BUZZTYPE_NIL, "pushnil pushes nil");
      else ENSURES(r->o.type == BUZZTYPE_TABLE && buzzdict_isempty(r->t.value), "pusht pushes an empty table");
   }
   vf_cover("end");
}
/* instructions with an operand */
static uint32_t arg;
static int truncated(void) { return (uint32_t)PC0 + 5 >= S; }
static void get_operand(void) { if(!truncated()) memcpy(&arg, code + PC0 + 1, 4); }
static void refused_truncated(void) {
   ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_PC, "an operand outside the program is an error");
   ENSURES(vm->stack->size == N, "a truncated instruction executes nothing");
}
static const uint8_t PUSH[] = { BUZZVM_INSTR_PUSHF, BUZZVM_INSTR_PUSHI, BUZZVM_INSTR_PUSHCN, BUZZVM_INSTR_PUSHCC, BUZZVM_INSTR_PUSHL, BUZZVM_INSTR_PUSHS };
//@ unit push fn=buzzvm_step,buzzvm_pushf,buzzvm_pushi,buzzvm_pushc,buzzvm_pushl,buzzvm_pushs split=op:6
UNIT(push) {
   uint32_t o = PUSH[vf_choose("op", 6)];
   at_instr(o);
   witness(0);
   if(o == BUZZVM_INSTR_PUSHS) {
      buzzstrman_register(vm->strings, "one", 1);
      buzzstrman_register(vm->strings, "two", 1);
   }
   get_operand();
   int tr = vf_fork(truncated());
   buzzvm_step(vm);
   same_rest(); witness_kept(); pc_in_range();
   if(tr) { refused_truncated(); vf_cover("end"); return; }
   if(o == BUZZVM_INSTR_PUSHS && (uint16_t)arg >= 2) {
      ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_STRING && vm->stack->size == N, "an unknown string is an error");
      vf_cover("end"); return;
   }
   ENSURES(vm->state == BUZZVM_STATE_READY, "the machine stays ready");
   ENSURES(vm->pc == PC0 + 5, "an instruction with operand advances by five bytes");
   ENSURES(vm->stack->size == (int64_t)N + 1, "push adds one value");
   buzzobj_t r = buzzvm_stack_at(vm, 1);
   if(o == BUZZVM_INSTR_PUSHF) { float v; memcpy(&v, &arg, 4); ENSURES(r->o.type == BUZZTYPE_FLOAT && vf_feq(r->f.value, v), "pushf pushes its operand"); }
   else if(o == BUZZVM_INSTR_PUSHI) ENSURES(r->o.type == BUZZTYPE_INT && r->i.value == (int32_t)arg, "pushi pushes its operand");
   else if(o == BUZZVM_INSTR_PUSHS) ENSURES(r->o.type == BUZZTYPE_STRING && r->s.value.sid == (uint16_t)arg && !strcmp(r->s.value.str, (uint16_t)arg ? "two" : "one"), "pushs pushes its string");
   else {
      ENSURES(r->o.type == BUZZTYPE_CLOSURE && (uint32_t)r->c.value.ref == arg, "a closure refers to its operand");
      ENSURES((r->c.value.isnative != 0) == (o != BUZZVM_INSTR_PUSHCC), "a closure has its kind");
      ENSURES(r->c.value.actrec->size == 1 && buzzdarray_get(r->c.value.actrec, 0, buzzobj_t)->o.type == BUZZTYPE_NIL, "a closure created outside functions captures only an empty self");
   }
   vf_cover("end");
}
static const uint8_t JMP[] = { BUZZVM_INSTR_JUMP, BUZZVM_INSTR_JUMPZ, BUZZVM_INSTR_JUMPNZ };
//@ unit jump fn=buzzvm_step split=op:3
UNIT(jump) {
   uint32_t o = JMP[vf_choose("op", 3)];
   at_instr(o);
   get_operand();
   int tr = vf_fork(truncated());
   int cond = o != BUZZVM_INSTR_JUMP, taken = 1;
   if(cond && !tr) {
      if(!vf_fork(N >= 1)) {
         buzzvm_step(vm);
         ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->stack->size == N, "too few operands are an error");
         vf_cover("end"); return;
      }
      buzzobj_t a = any_obj("ta", "a");
      operand(1, a);
      int z = a->o.type == BUZZTYPE_NIL || (a->o.type == BUZZTYPE_INT && a->i.value == 0);
      taken = o == BUZZVM_INSTR_JUMPZ ? z : !z;
   }
   witness(cond ? 1 : 0);
   buzzvm_step(vm);
   same_rest(); witness_kept(); pc_in_range();
   if(tr) { refused_truncated(); vf_cover("end"); return; }
   if(taken && arg >= S) {
      ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_PC, "a jump outside the program is an error");
      vf_cover("end"); return;
   }
   ENSURES(vm->state == BUZZVM_STATE_READY, "the machine stays ready");
   ENSURES(vm->pc == (taken ? (int32_t)arg : PC0 + 5), "a jump is taken exactly when its condition holds");
   ENSURES(vm->stack->size == (int64_t)N - cond, "a conditional jump consumes its operand");
   vf_cover("end");
}
/* table, global and call instructions: only control and underflow here (C10, C11) */
static const uint8_t OTH[] = { BUZZVM_INSTR_TPUT, BUZZVM_INSTR_TGET, BUZZVM_INSTR_GLOAD, BUZZVM_INSTR_GSTORE, BUZZVM_INSTR_CALLC, BUZZVM_INSTR_CALLS };
static const uint8_t NEED[] = { 3, 2, 1, 2, 1, 1 };
//@ unit under fn=buzzvm_step,buzzvm_tput,buzzvm_tget,buzzvm_gload,buzzvm_gstore,buzzvm_call split=op:6
UNIT(under) {
   uint32_t c = vf_choose("op", 6), o = OTH[c];
   at_instr(o);
   vf_assume(N < NEED[c]);
   witness(0);
   buzzvm_step(vm);
   ENSURES(vm->state == BUZZVM_STATE_ERROR && (vm->error == BUZZVM_ERROR_STACK || vm->error == BUZZVM_ERROR_PC), "too few operands are an error");
   ENSURES(vm->stack->size == N, "too few operands leave the stack alone");
   witness_kept();
   vf_cover("end");
}
//@ unit wrongtype fn=buzzvm_step,buzzvm_tput,buzzvm_tget,buzzvm_gload,buzzvm_gstore,buzzvm_call split=op:6
UNIT(wrongtype) {
   uint32_t c = vf_choose("op", 6), o = OTH[c];
   at_instr(o);
   vf_assume(N >= 3 && (uint32_t)PC0 + 1 < S);
   buzzobj_t x = any_obj("ta", "a");
   operand(NEED[c], x);
   if(c < 2) vf_assume(x->o.type != BUZZTYPE_TABLE);
   else if(c < 4) vf_assume(x->o.type != BUZZTYPE_STRING);
   else vf_assume(x->o.type != BUZZTYPE_INT);
   witness(3);
   buzzvm_step(vm);
   ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_TYPE, "an operand of the wrong type is an error");
   witness_kept();
   vf_cover("end");
}
/* control transfer: whatever address the closure or the return address names */
//@ unit callret fn=buzzvm_step,buzzvm_call,buzzvm_ret0,buzzvm_ret1 split=op:4
UNIT(callret) {
   static const uint8_t CR[] = { BUZZVM_INSTR_CALLC, BUZZVM_INSTR_CALLS, BUZZVM_INSTR_RET0, BUZZVM_INSTR_RET1 };
   uint32_t c = vf_choose("op", 4);
   at_instr(CR[c]);
   int32_t to = vf_i32("target");
   witness(3);
   if(c < 2) {
      vf_assume(N >= 3);
      buzzobj_t f = raw_obj(BUZZTYPE_CLOSURE), self = raw_obj(BUZZTYPE_NIL);
      f->c.value.isnative = 1; f->c.value.ref = to;
      f->c.value.actrec = buzzdarray_new(1, sizeof(buzzobj_t), NULL);
      buzzdarray_push(f->c.value.actrec, &self);
      operand(1, int_obj(0)); operand(2, f); operand(3, self);
      buzzvm_step(vm);
      if((uint32_t)PC0 + 1 >= S) { ENSURES(vm->state == BUZZVM_STATE_ERROR, "a call at the end of the program is an error"); vf_cover("end"); return; }
   }
   else {
      vf_assume(N >= 1);
      if(vf_choose("toplevel", 2)) {
         buzzvm_step(vm);
         ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->stack->size == N && vm->stacks->size == 1, "returning outside of any function is an error");
         vf_cover("end"); return;
      }
      operand(1, int_obj(to));
      buzzdarray_t stk = buzzdarray_new(4, sizeof(buzzobj_t), NULL), syms = buzzdarray_new(1, sizeof(buzzobj_t), NULL);
      buzzobj_t v = int_obj(7), self = raw_obj(BUZZTYPE_NIL);
      buzzdarray_push(stk, &v); buzzdarray_push(syms, &self);
      vm->stack = stk; buzzdarray_push(vm->stacks, &stk);
      vm->lsyms = buzzvm_lsyms_new(0, syms); buzzdarray_push(vm->lsymts, &vm->lsyms);
      buzzvm_step(vm);
   }
   same_rest(); pc_in_range();
   if(to < 0 || (uint32_t)to >= S) ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_PC, "a control transfer outside the program is an error");
   else ENSURES(vm->state == BUZZVM_STATE_READY && vm->pc == to, "control goes to the given address");
   vf_cover("end");
}
/* local variables */
static buzzobj_t L; static uint32_t lpos, LN;
static void any_lsyms(void) {
   buzzdarray_t syms = buzzdarray_new(1, sizeof(buzzobj_t), NULL);
   any_size(syms, "loc.size", "loc.cap", "loc", mk_stk);
   vm->lsyms = buzzvm_lsyms_new(0, syms); buzzdarray_push(vm->lsymts, &vm->lsyms);
   LN = syms->size;
   vf_assume(LN >= 1);
   lpos = vf_u32("lpos"); vf_assume(lpos < LN);
   L = int_obj(vf_i32("lval"));
   vf_preset(syms->data, lpos, L);
}
static uint32_t g_num;
int vf_inv__buzzvm_lremove__0(uint32_t* i) { return *i <= g_num && vm->lsyms->syms->size == (int64_t)LN - *i; }
void vf_mod__buzzvm_lremove__0(uint32_t* i) { vm->lsyms->syms->size = vf_u32("l.size"); }
static const uint8_t LOC[] = { BUZZVM_INSTR_LLOAD, BUZZVM_INSTR_LSTORE, BUZZVM_INSTR_LREMOVE };
//@ unit local fn=buzzvm_step,buzzvm_lload,buzzvm_lstore,buzzvm_lremove split=op:3,global:2
UNIT(local) {
   uint32_t o = LOC[vf_choose("op", 3)];
   at_instr(o);
   get_operand(); vf_assume(!truncated());
   int glob = vf_choose("global", 2);
   if(!glob) any_lsyms();
   g_num = arg;
   buzzobj_t x = int_obj(5);
   if(o == BUZZVM_INSTR_LSTORE) { if(vf_fork(N >= 1)) operand(1, x); }
   witness(1);
   if(!glob && vf_bounded()) vf_assume(arg < 8);
   buzzvm_step(vm);
   same_rest(); witness_kept(); pc_in_range();
   if(glob) {
      ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->stack->size == N, "local variables outside of any function are an error");
      vf_cover("end"); return;
   }
   int bad = o == BUZZVM_INSTR_LLOAD ? arg >= LN : o == BUZZVM_INSTR_LSTORE ? (arg > LN || N < 1) : arg > LN - 1;
   buzzdarray_t syms = vm->lsyms->syms;
   if(bad) {
      ENSURES(vm->state == BUZZVM_STATE_ERROR, "a missing local variable is an error");
      ENSURES(syms->size == LN && vm->stack->size == N && buzzdarray_get(syms, lpos, buzzobj_t) == L, "a refused access changes nothing");
      vf_cover("end"); return;
   }
   ENSURES(vm->state == BUZZVM_STATE_READY && vm->pc == PC0 + 5, "local variable instructions advance by five bytes");
   if(o == BUZZVM_INSTR_LLOAD) {
      ENSURES(vm->stack->size == (int64_t)N + 1 && syms->size == LN, "loading pushes one value");
      ENSURES(IMPLIES(arg == lpos, buzzvm_stack_at(vm, 1) == L), "loading pushes the variable");
      ENSURES(buzzdarray_get(syms, lpos, buzzobj_t) == L, "loading changes no variable");
   }
   else if(o == BUZZVM_INSTR_LSTORE) {
      ENSURES(vm->stack->size == (int64_t)N - 1 && syms->size == (int64_t)LN + (arg == LN), "storing consumes one value");
      ENSURES(buzzdarray_get(syms, arg, buzzobj_t) == x, "storing sets the variable");
      ENSURES(IMPLIES(arg != lpos, buzzdarray_get(syms, lpos, buzzobj_t) == L), "storing changes no other variable");
   }
   else {
      ENSURES(vm->stack->size == N && syms->size == (int64_t)LN - arg, "removing drops the last variables");
      ENSURES(IMPLIES(lpos < LN - arg, buzzdarray_get(syms, lpos, buzzobj_t) == L), "removing keeps the others");
   }
   vf_cover("end");
}

/* loading: any bytes.  The library registrations run real code only natively */
#define NOLIB(f) int vf_always__##f(struct buzzvm_s* v) { return v->state; }
NOLIB(buzzobj_register) NOLIB(buzzvstig_register) NOLIB(buzzswarm_register) NOLIB(buzzmath_register)
NOLIB(buzzio_register) NOLIB(buzzstring_register) NOLIB(buzzneighbors_new)
//@ unit load fn=buzzvm_set_bcode mode=bounded split=n:6 note="programs of up to 5 bytes"
UNIT(load) {
   S = vf_choose("n", 6);
   code = vf_buf("code", S);
   vm = buzzvm_new(1);
   int s = buzzvm_set_bcode(vm, code, S);
   ENSURES(s == BUZZVM_STATE_READY || s == BUZZVM_STATE_ERROR || s == BUZZVM_STATE_DONE, "loading reports a state");
   ENSURES(IMPLIES(vm->state == BUZZVM_STATE_READY, vm->bcode == code && vm->bcode_size == S && vm->pc >= 0 && (uint32_t)vm->pc < S), "a ready machine has its next instruction inside the program");
   vf_cover("end");
}
