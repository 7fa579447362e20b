/* C10 - calls and returns.
 * Proof units: any stack depth, number of arguments, captured variables and
 * nesting depth; "every argument" is proved for an arbitrary one. */
#include "vm_call.h"
#include <buzz/buzzswarm.h>
//@ assume the array contract proved in C01 (proof units); memory allocation succeeds; fewer than 2^16 stacked values, arguments, captured variables and nested calls
static uint32_t argn, AN, LS, ST; static buzzdarray_t act; static uint32_t aw, w; static buzzobj_t AW, GW, C, self; static int32_t PC0; static int haveA, haveG;
static uint32_t base;                  /* stack position of the first argument */
static void* mk_any(uint64_t i) { return vf_opaque("elem"); }
/* like any_size, below 2^16 elements */
static void size16(buzzdarray_t a, const char* ls, const char* ld, void* (*mk)(uint64_t)) {
   free(a->data);
   a->size = vf_u16(ls); a->capacity = a->size + 16;
   if(vf_bounded()) vf_assume(a->size <= 6);
   a->data = vf_lazyptrs(ld, a->capacity, mk);
}
/* any number of enclosing calls */
static buzzdarray_t callers; static buzzvm_lsyms_t LCUR;
static void nest(void) {
   any_size(vm->stacks, "stacks.size", "stacks.cap", "stacks", mk_any);
   ST = vm->stacks->size; vf_assume(ST >= 1 && ST < (1u << 20));
   vf_preset(vm->stacks->data, ST - 1, vm->stack);
   any_size(vm->lsymts, "lsymts.size", "lsymts.cap", "lsymts", mk_any);
   LS = vm->lsymts->size; vf_assume(LS < (1u << 20));
   LCUR = NULL;
   if(vf_choose("nested", 2) == 0) vf_assume(LS == 0);
   else { vf_assume(LS > 0);
      LCUR = buzzvm_lsyms_new(vf_bool("inswarm") != 0, buzzdarray_new(1, sizeof(buzzobj_t), NULL));
      vf_preset(vm->lsymts->data, LS - 1, LCUR);
   }
   vm->lsyms = LCUR;
}
static void captured(buzzobj_t c) {
   act = buzzdarray_new(1, sizeof(buzzobj_t), NULL);
   size16(act, "act.size", "act", mk_stk);
   AN = act->size; vf_assume(AN >= 1);
   aw = vf_u16("aw"); vf_assume(aw < AN);
   AW = int_obj(vf_i32("awval")); vf_preset(act->data, aw, AW);
   c->c.value.actrec = act;
}
/* the loops of buzzvm_call */
static buzzdarray_t syms(void) { return vm->lsyms->syms; }
int vf_inv__buzzvm_call__0(int32_t* i) {
   buzzdarray_t s = syms();
   if(!(*i >= 0 && *i <= (int32_t)argn && s->size == (int64_t)AN + argn - *i && s->capacity >= s->size)) return 0;
   if(buzzdarray_get(s, aw, buzzobj_t) != AW) return 0;
   return IMPLIES(haveG && w < argn - *i, buzzdarray_get(s, AN + w, buzzobj_t) == GW);
}
void vf_mod__buzzvm_call__0(int32_t* i) {
   buzzdarray_t s = syms();
   uint32_t done = vf_u16("l.done"); vf_assume(done <= argn); *i = argn - done;
   s->size = AN + done; s->capacity = AN + done + 16;
   s->data = vf_lazyptrs("l.syms", s->capacity, mk_any);
   vf_assume(aw < s->size); vf_preset(s->data, aw, AW);
   if(haveG && vf_fork(w < done)) { vf_preset(s->data, AN + w, GW); }
}
static uint32_t N1;
int vf_inv__buzzvm_call__1(int32_t* i) { return *i >= 0 && *i <= (int32_t)argn + 1 && vm->stack->size == (int64_t)N1 - (argn + 1 - *i); }
void vf_mod__buzzvm_call__1(int32_t* i) { uint32_t gone = vf_u16("p.gone"); vf_assume(gone <= argn + 1); *i = argn + 1 - gone; vm->stack->size = N1 - gone; }
static buzzdarray_t caller; static uint32_t p_runs; static int p_ok; static int swrm;
static int entered(void) {
   buzzdarray_t s;
   if(vm->stack == caller || vm->stack->size != 0) return 0;
   if(vm->stacks->size != (int64_t)ST + 1 || buzzdarray_get(vm->stacks, ST, buzzdarray_t) != vm->stack) return 0;
   if(vm->lsymts->size != (int64_t)LS + 1 || buzzdarray_get(vm->lsymts, LS, buzzvm_lsyms_t) != vm->lsyms || vm->lsyms == LCUR) return 0;
   return vm->lsyms->isswarm == swrm;
}
static int locals(void) {
   buzzdarray_t s = syms();
   if(s == act || s->size != (int64_t)AN + argn) return 0;
   if(buzzdarray_get(s, aw, buzzobj_t) != AW) return 0;
   return !haveG || buzzdarray_get(s, AN + w, buzzobj_t) == GW;
}
static int caller_left(void) {
   if(caller->size != (int64_t)N1 - argn - 2 + 1) return 0;
   buzzobj_t r = buzzdarray_get(caller, caller->size - 1, buzzobj_t);
   return r->o.type == BUZZTYPE_INT && r->i.value == PC0;
}
static int probe_fn(buzzvm_t m) { ++p_runs; p_ok = entered() && locals() && caller_left(); return m->state; }
static void prepare(int nat) {
   any_vm(); size16(vm->stack, "stack.size", "stack", mk_stk); N = vm->stack->size;
   nest();
   caller = vm->stack; PC0 = vm->pc;
   argn = vf_u16("argn");
   if(vf_bounded()) vf_assume(argn <= 3);
   vf_assume(N >= argn + 3);
   N1 = N - 1;
   operand(1, int_obj(argn));
   C = raw_obj(BUZZTYPE_CLOSURE); C->c.value.isnative = nat; C->c.value.ref = vf_u32("ref"); captured(C);
   self = int_obj(0);
   vf_preset(vm->stack->data, N - 2 - argn, C);
   vf_preset(vm->stack->data, N - 3 - argn, self);
   base = N - 1 - argn;
   haveG = 0;
   if(vf_choose("args", 2) == 0) vf_assume(argn == 0);
   else { haveG = 1; w = vf_u16("w"); vf_assume(w < argn); GW = int_obj(vf_i32("argval")); vf_preset(vm->stack->data, base + w, GW); }
   haveA = 0; wpos = vf_u16("wpos");
   if(vf_choose("below", 2)) { haveA = 1; vf_assume(wpos < N - 3 - argn); wval = vf_i32("wval"); W = int_obj(wval); vf_preset(vm->stack->data, wpos, W); }
   swrm = vf_bool("swarm") != 0;
}
static void frame(void) {
   ENSURES(act->size == AN && buzzdarray_get(act, aw, buzzobj_t) == AW && C->c.value.actrec == act, "a call leaves the function itself unchanged");
   if(haveA) ENSURES(buzzdarray_get(caller, wpos, buzzobj_t) == W && W->i.value == wval, "the caller's stack below the call is untouched");
}
//@ unit call_script fn=buzzvm_call companion=hist split=args:2,nested:2,below:2
UNIT(call_script) {
   prepare(1);
   ENSURES(buzzvm_call(vm, swrm) == BUZZVM_STATE_READY, "a call succeeds");
   ENSURES(entered(), "a call opens a fresh stack and fresh locals on top of the enclosing ones");
   ENSURES(locals(), "the locals are what the function captured, then the arguments in order");
   ENSURES(caller_left(), "the caller's stack loses the operands and holds the return address");
   ENSURES(vm->pc == (int32_t)C->c.value.ref && vm->oldpc == PC0, "execution continues at the function");
   frame();
   vf_cover("end");
}
//@ unit call_c fn=buzzvm_call companion=hist split=args:2,nested:2,below:2
UNIT(call_c) {
   prepare(0);
   any_size(vm->flist, "flist.size", "flist.cap", "flist", mk_any);
   vf_assume(C->c.value.ref < (uint32_t)vm->flist->size && C->c.value.ref < (1u << 20));
   vf_preset(vm->flist->data, C->c.value.ref, (void*)probe_fn);
   p_runs = 0; p_ok = 0;
   ENSURES(buzzvm_call(vm, swrm) == BUZZVM_STATE_READY, "a call of a C function succeeds");
   ENSURES(p_runs == 1, "the C function registered under the reference runs once");
   ENSURES(p_ok, "a C function finds its own stack, captured variables and arguments");
   ENSURES(vm->pc == PC0, "calling a C function does not move the script");
   frame();
   vf_cover("end");
}
/* returns: the arrays of a finished activation hold values, which have no destructor */
void vf_stub__buzzdarray_destroy(buzzdarray_t* da) { free((*da)->data); free(*da); *da = NULL; }
static void ret_state(int swarm) {
   any_vm(); nest();
   vf_assume(ST >= 2 && LS >= 1);
   caller = buzzdarray_new(1, sizeof(buzzobj_t), NULL);
   any_size(caller, "caller.size", "caller.cap", "caller", mk_stk);
   N1 = caller->size; vf_assume(N1 >= 1);
   PC0 = vf_i32("retaddr");
   vf_preset(caller->data, N1 - 1, int_obj(PC0));
   vf_preset(vm->stacks->data, ST - 2, caller);
   haveA = 0; wpos = vf_u32("wpos2");
   if(vf_fork(wpos < N1 - 1)) { haveA = 1; wval = vf_i32("wval"); W = int_obj(wval); vf_preset(caller->data, wpos, W); }
}
static buzzvm_lsyms_t LPREV; static buzzdarray_t callee; static uint32_t SS;
static void prev_lsyms(void) {
   LPREV = NULL;
   if(vf_fork(LS > 1)) { LPREV = buzzvm_lsyms_new(0, buzzdarray_new(1, sizeof(buzzobj_t), NULL)); vf_preset(vm->lsymts->data, LS - 2, LPREV); }
   uint32_t i, n = 1 + vf_choose("swarms", 2); uint16_t s;
   for(i = 0; i < n; ++i) { s = 100 + i; buzzdarray_push(vm->swarmstack, &s); }
   SS = n;
}
static void returned(int sw) {
   ENSURES(vm->state == BUZZVM_STATE_READY, "a return succeeds");
   ENSURES(vm->stack == caller && vm->stacks->size == (int64_t)ST - 1, "a return restores the caller's stack");
   ENSURES(vm->lsyms == LPREV && vm->lsymts->size == (int64_t)LS - 1, "a return restores the caller's locals");
   ENSURES(vm->pc == PC0, "a return continues at the return address");
   ENSURES(caller->size == N1, "a return replaces the return address by the result");
   ENSURES(buzzdarray_size(vm->swarmstack) == (int64_t)SS - sw, "returning from a swarm call leaves the swarm, other returns do not");
   if(haveA) ENSURES(buzzdarray_get(caller, wpos, buzzobj_t) == W && W->i.value == wval, "the caller's stack below is untouched");
   ENSURES(!vf_live(callee), "the callee's stack is released");
}
//@ unit ret0 fn=buzzvm_ret0 companion=hist split=nested:2
UNIT(ret0) {
   ret_state(0); prev_lsyms(); callee = vm->stack; int sw = vm->lsyms->isswarm;
   buzzvm_ret0(vm);
   returned(sw);
   ENSURES(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_NIL, "a return without value gives nil");
   vf_cover("end");
}
//@ unit ret1 fn=buzzvm_ret1 companion=hist split=nested:2
UNIT(ret1) {
   ret_state(0); vf_assume(N >= 1); prev_lsyms(); callee = vm->stack; int sw = vm->lsyms->isswarm;
   buzzobj_t r = int_obj(vf_i32("ret")); operand(1, r);
   buzzvm_ret1(vm);
   returned(sw);
   ENSURES(buzzvm_stack_at(vm, 1) == r, "a return gives the value on top of the callee's stack");
   vf_cover("end");
}
/* closures capture the locals */
static uint32_t PLN, pl; static buzzobj_t PL, PO;
int vf_inv__buzzvm_pushl__0(int* i, buzzobj_t* o) {
   buzzdarray_t s = (*o)->c.value.actrec;
   if(!(*i >= 0 && *i <= (int)PLN && s->size == *i && s->capacity >= s->size)) return 0;
   return IMPLIES((int)pl < *i, buzzdarray_get(s, pl, buzzobj_t) == PL);
}
void vf_mod__buzzvm_pushl__0(int* i, buzzobj_t* o) {
   buzzdarray_t s = (*o)->c.value.actrec;
   s->size = vf_u32("l.size"); s->capacity = vf_u32("l.cap"); vf_assume(s->size < (1u << 20) && s->capacity == s->size + 16);
   s->data = vf_lazyptrs("l.act", s->capacity, mk_any);
   if(vf_fork(pl < s->size)) vf_preset(s->data, pl, PL);
}
//@ unit pushl fn=buzzvm_pushl companion=hist
UNIT(pushl) {
   any_vm();
   int glob = vf_choose("global", 2); buzzdarray_t s = NULL; PLN = 0;
   if(!glob) {
      s = buzzdarray_new(1, sizeof(buzzobj_t), NULL);
      any_size(s, "ls.size", "ls.cap", "ls", mk_stk);
      PLN = s->size; vf_assume(PLN >= 1 && PLN < (1u << 20));
      pl = vf_u32("pl"); vf_assume(pl < PLN); PL = int_obj(3); vf_preset(s->data, pl, PL);
      vm->lsyms = buzzvm_lsyms_new(0, s);
   }
   witness(0); uint32_t addr = vf_u32("addr");
   ENSURES(buzzvm_pushl(vm, addr) == BUZZVM_STATE_READY && vm->stack->size == (int64_t)N + 1, "creating a function pushes it");
   buzzobj_t c = buzzvm_stack_at(vm, 1); buzzdarray_t a = c->c.value.actrec;
   ENSURES(c->o.type == BUZZTYPE_CLOSURE && c->c.value.isnative && (uint32_t)c->c.value.ref == addr, "the function starts at its address");
   if(glob) ENSURES(a->size == 1 && buzzdarray_get(a, 0, buzzobj_t)->o.type == BUZZTYPE_NIL, "a function made outside of any function captures nothing");
   else {
      ENSURES(a != s && a->size == PLN && buzzdarray_get(a, pl, buzzobj_t) == PL, "a function captures the locals where it is made, in order");
      ENSURES(s->size == PLN && buzzdarray_get(s, pl, buzzobj_t) == PL, "capturing leaves the locals alone");
   }
   witness_kept();
   vf_cover("end");
}
/* ---- bounded: through the public API ---- */
static int f0(buzzvm_t m) { return buzzvm_ret0(m); }
static int f1(buzzvm_t m) { buzzvm_pushi(m, 1); return buzzvm_ret1(m); }
static int f2(buzzvm_t m) { return buzzvm_ret0(m); }
//@ unit fregister fn=buzzvm_function_register mode=bounded split=a:3,a#1:3 note="4 registrations of up to 3 functions"
UNIT(fregister) {
   vm_ready(1);
   static const buzzvm_funp F[3] = { f0, f1, f2 };
   uint32_t i, j, id[4], f[4]; int64_t n0 = vm->flist->size, distinct = 0;
   for(i = 0; i < 4; ++i) {
      f[i] = vf_choose("a", 3);
      id[i] = buzzvm_function_register(vm, F[f[i]]);
      int seen = 0;
      for(j = 0; j < i; ++j) {
         ENSURES((id[j] == id[i]) == (f[j] == f[i]), "a function is registered once, different functions get different references");
         if(f[j] == f[i]) seen = 1;
      }
      distinct += !seen;
      for(j = 0; j <= i; ++j) ENSURES(buzzdarray_get(vm->flist, id[j], buzzvm_funp) == F[f[j]], "a reference stays that of its function");
   }
   ENSURES(vm->flist->size == n0 + distinct, "registering adds each function once");
   vf_cover("end");
}
static uint32_t h_n, h_argc; static buzzobj_t h_arg[4]; static int h_ret; static int32_t h_val; static int h_bad; static buzzobj_t h_self;
static int h_probe(buzzvm_t m) {
   uint32_t i;
   ++h_n; h_argc = buzzvm_lnum(m);
   for(i = 0; i < h_argc && i < 4; ++i) { buzzvm_lload(m, i + 1); h_arg[i] = buzzvm_stack_at(m, 1); }
   buzzvm_lload(m, 0); h_self = buzzvm_stack_at(m, 1);
   if(!h_ret) return buzzvm_ret0(m);
   buzzvm_pushi(m, h_val);
   return buzzvm_ret1(m);
}
/* a script function that hands its arguments on to h_probe and returns what it returns */
static uint32_t relay(uint32_t argc, int tailnil) {
   uint32_t at = PN, i;
   op(BUZZVM_INSTR_PUSHNIL); opi(BUZZVM_INSTR_PUSHCC, buzzvm_function_register(vm, h_probe));
   for(i = 1; i <= argc; ++i) opi(BUZZVM_INSTR_LLOAD, i);
   opi(BUZZVM_INSTR_PUSHI, argc); op(BUZZVM_INSTR_CALLC);
   op(tailnil ? BUZZVM_INSTR_RET0 : BUZZVM_INSTR_RET1);
   return at;
}
//@ unit hist fn=buzzvm_closure_call,buzzvm_function_call,buzzvm_call,buzzvm_ret0,buzzvm_ret1,buzzvm_step mode=bounded split=argc:4,how:4 note="up to 3 arguments; C and script functions called from C by closure and by name, also nested"
UNIT(hist) {
   vm_ready(1);
   uint32_t argc = vf_choose("argc", 4), how = vf_choose("how", 4), i; h_ret = vf_choose("ret", 2); h_val = vf_i32("val");
   PN = 0; op(BUZZVM_INSTR_NOP); uint32_t at = relay(argc, 0); uint32_t below = vf_choose("below", 2); int32_t bv = vf_i32("below");
   opi(BUZZVM_INSTR_PUSHI, 66); op(BUZZVM_INSTR_POP); op(BUZZVM_INSTR_DONE);
   program();
   vm->pc = 0; uint32_t other = below ? buzzvm_function_register(vm, f1) : 0;
   if(below) buzzvm_pushi(vm, bv);
   buzzobj_t f = how & 1 ? newcn(at) : newcc(h_probe);
   int32_t av[3]; for(i = 0; i < argc; ++i) { av[i] = vf_i32("av"); ARG[i] = newi(av[i]); }
   uint32_t d = depth(), ls = vm->lsymts->size, st = vm->stacks->size; int r;
   h_n = 0; int32_t pc = vm->pc;
   if(how < 2) r = call(f, argc);
   else {
      buzzvm_pushs(vm, buzzvm_string_register(vm, "fun", 1)); buzzvm_push(vm, f); buzzvm_gstore(vm);
      for(i = 0; i < argc; ++i) buzzvm_push(vm, ARG[i]);
      r = buzzvm_function_call(vm, "fun", argc);
   }
   ENSURES(r == BUZZVM_STATE_READY && vm->state == BUZZVM_STATE_READY, "calling a function from C succeeds");
   ENSURES(h_n == 1 && h_argc == argc, "the function runs once with all its arguments");
   for(i = 0; i < argc; ++i) ENSURES(h_arg[i]->o.type == BUZZTYPE_INT && h_arg[i]->i.value == av[i], "the arguments arrive in order");
   ENSURES(vm->pc == pc, "the caller continues where it was");
   ENSURES(depth() == (int64_t)d + 1 && vm->lsymts->size == ls && vm->stacks->size == st, "a call from C leaves exactly its result");
   if(h_ret) ENSURES(top()->o.type == BUZZTYPE_INT && top()->i.value == h_val, "the result is the value returned");
   else ENSURES(top()->o.type == BUZZTYPE_NIL, "no returned value gives nil");
   buzzvm_pop(vm);
   if(below) ENSURES(top()->o.type == BUZZTYPE_INT && top()->i.value == bv, "the caller's values stay below the result");
   vf_cover("end");
}
//@ unit noname fn=buzzvm_function_call mode=bounded note="a name that is undefined or not a function"
UNIT(noname) {
   vm_ready(1); int def = vf_choose("def", 2);
   if(def) { buzzvm_pushs(vm, buzzvm_string_register(vm, "fun", 1)); buzzvm_pushi(vm, 3); buzzvm_gstore(vm); }
   ENSURES(buzzvm_function_call(vm, "fun", 0) == BUZZVM_STATE_ERROR && vm->error == BUZZVM_ERROR_TYPE, "calling what is not a function is reported");
   ENSURES(buzzvm_function_call(vm, "fun", 0) == BUZZVM_STATE_ERROR, "a machine in error calls nothing");
   vf_cover("end");
}
static uint32_t n_depth, n_bad;
static int recur(buzzvm_t m) {          /* f(n) = n == 0 ? 0 : n + f(n-1) */
   buzzvm_lload(m, 1); int32_t n = buzzvm_stack_at(m, 1)->i.value;
   if(n == 0) { buzzvm_pushi(m, 0); return buzzvm_ret1(m); }
   ARG[0] = newi(n - 1); uint32_t d = depth();
   if(call(newcc(recur), 1) != BUZZVM_STATE_READY) return m->state;
   if(depth() != d + 1) n_bad = 1;
   int32_t r = top()->i.value;
   buzzvm_lload(m, 1); if(top()->i.value != n) n_bad = 1;
   buzzvm_pushi(m, n + r);
   return buzzvm_ret1(m);
}
//@ unit nested fn=buzzvm_call,buzzvm_ret1,buzzvm_closure_call,buzzvm_step mode=bounded note="recursion of depth 5 in C and in a script"
UNIT(nested) {
   vm_ready(1); n_bad = 0; int script = vf_choose("script", 2); buzzobj_t f;
   if(!script) f = newcc(recur);
   else {
      /* function f(n) { if(n == 0) return 0; return n + f(n-1) } */
      uint16_t sid = buzzvm_string_register(vm, "f", 1);
      PN = 0; op(BUZZVM_INSTR_NOP);
      opi(BUZZVM_INSTR_LLOAD, 1); opi(BUZZVM_INSTR_JUMPNZ, 17); opi(BUZZVM_INSTR_PUSHI, 0); op(BUZZVM_INSTR_RET1);   /* 1,6,11,16 */
      opi(BUZZVM_INSTR_LLOAD, 1); op(BUZZVM_INSTR_PUSHNIL); opi(BUZZVM_INSTR_PUSHS, sid); op(BUZZVM_INSTR_GLOAD);
      opi(BUZZVM_INSTR_LLOAD, 1); opi(BUZZVM_INSTR_PUSHI, 1); op(BUZZVM_INSTR_SUB); opi(BUZZVM_INSTR_PUSHI, 1); op(BUZZVM_INSTR_CALLC);
      op(BUZZVM_INSTR_ADD); op(BUZZVM_INSTR_RET1);
      program(); f = newcn(1);
      buzzvm_pushs(vm, sid); buzzvm_push(vm, f); buzzvm_gstore(vm);
   }
   ARG[0] = newi(5);
   ENSURES(call(f, 1) == BUZZVM_STATE_READY && !n_bad, "nested calls succeed");
   ENSURES(top()->o.type == BUZZTYPE_INT && top()->i.value == 15, "every activation has its own locals and stack");
   ENSURES(vm->stacks->size == 1 && vm->lsymts->size == 0 && vm->lsyms == NULL, "after nested calls no activation is left");
   vf_cover("end");
}
#ifdef VF_NATIVE
static uint32_t s_argc, s_left, s_bad, s_runs; static int32_t s_av[64];
static int s_fun(buzzvm_t m) {
   uint32_t i, argc = s_argc, my = ++s_runs; int32_t av[64]; memcpy(av, s_av, sizeof(av));
   if((uint32_t)buzzvm_lnum(m) != argc || buzzvm_stack_top(m) != 0) s_bad = 1;
   for(i = 0; i < argc; ++i) { buzzvm_lload(m, i + 1); if(buzzvm_stack_at(m, 1)->i.value != av[i]) s_bad = 1; }
   if(s_left) {
      --s_left; int32_t loc = vf_rand(1000); uint32_t d = vf_rand(6); for(i = 0; i < d; ++i) buzzvm_pushi(m, loc + i);
      int32_t pc = m->pc; uint32_t before = buzzvm_stack_top(m);
      buzzvm_push(m, newcc(s_fun)); s_argc = vf_rand(vf_rand(4) ? 5 : 60); for(i = 0; i < s_argc; ++i) { s_av[i] = vf_rand(1u << 31); buzzvm_pushi(m, s_av[i]); }
      if(buzzvm_closure_call(m, s_argc) != BUZZVM_STATE_READY) { s_bad = 1; return m->state; }
      if(m->pc != pc || (uint32_t)buzzvm_stack_top(m) != before + 1) s_bad = 1;
      buzzobj_t r = buzzvm_stack_at(m, 1); if(r->o.type == BUZZTYPE_INT ? (uint32_t)r->i.value != my + 1 : r->o.type != BUZZTYPE_NIL) s_bad = 1;
      buzzvm_pop(m);
      for(i = 0; i < d; ++i) if(buzzvm_stack_at(m, d - i)->i.value != loc + (int32_t)i) s_bad = 1;
      for(i = 0; i < argc; ++i) { buzzvm_lload(m, i + 1); if(buzzvm_stack_at(m, 1)->i.value != av[i]) s_bad = 1; }
   }
   if(vf_rand(3) == 0) return buzzvm_ret0(m);
   for(i = vf_rand(5); i > 0; --i) buzzvm_pushi(m, 5);
   buzzvm_pushi(m, my);
   return buzzvm_ret1(m);
}
//@ search history
SEARCH(history) {
   uint32_t i, k, below = vf_rand(20); vm_ready(1); int32_t pc = vf_rand(50); static uint8_t prog[64]; vm->bcode = prog; vm->bcode_size = 64; vm->pc = pc; vm->heap->max_objs = 1000000;
   for(i = 0; i < below; ++i) buzzvm_pushi(vm, i);
   for(k = 0; k < 3; ++k) {
      s_left = vf_rand(40); s_bad = s_runs = 0; s_argc = vf_rand(vf_rand(4) ? 5 : 60);
      buzzvm_push(vm, newcc(s_fun)); for(i = 0; i < s_argc; ++i) { s_av[i] = vf_rand(1u << 31); buzzvm_pushi(vm, s_av[i]); }
      vf_assert(buzzvm_closure_call(vm, s_argc) == BUZZVM_STATE_READY && !s_bad, "search: every activation gets its arguments, stack and locals");
      vf_assert(depth() == below + 1 && vm->pc == pc && vm->stacks->size == 1 && vm->lsymts->size == 0, "search: a call leaves exactly its result");
      vf_assert(top()->o.type == BUZZTYPE_NIL || (top()->o.type == BUZZTYPE_INT && top()->i.value == 1), "search: the result is the value returned or nil");
      buzzvm_pop(vm); for(i = 0; i < below; ++i) vf_assert(buzzvm_stack_at(vm, below - i)->i.value == (int32_t)i, "search: the caller's values stay");
   }
}
#endif
