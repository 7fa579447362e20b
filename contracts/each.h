/* Iterating a dictionary of Buzz values with a user's function: the dictionary
 * is used through its iteration contract (C02: every entry is visited once with
 * its own value), the user's function through the call contract (C10: function
 * and arguments are replaced with one value, or the machine is in error). One
 * arbitrary entry K, D stands for every entry; before and after it the
 * accumulator of a reduction is arbitrary. */
#ifndef EACH_H
#define EACH_H
#include "vm_call.h"
extern uint32_t buzzobj_table_hash(const void* key) __attribute__((weak));
static buzzdict_t PD;                 /* the dictionary that is iterated */
static buzzobj_t K, D, CL, INIT, A, R, FIN;
static int g_red, g_iter, g_calls, g_fail, g_some;
static int g_anyint; static int g_set; static buzzdict_t g_dict; static buzzobj_t g_key, g_val;
static int (*g_hook)(buzzvm_t, uint32_t); static buzzdict_t g_hookdict; static void (*g_sethook)(const void*, const void*);   /* other uses of these contracts */
static void swap_top(buzzobj_t o) { buzzvm_pop(vm); buzzvm_push(vm, o); }
void vf_stub__buzzdict_foreach(buzzdict_t dt, buzzdict_elem_funp fun, void* params) {
   if(dt != PD) { buzzdict_foreach(dt, fun, params); return; }
   ++g_iter;
   int64_t d = buzzvm_stack_top(vm);
   if(g_red) vf_assert(top() == INIT, "the reduction starts from the initial value");
   if(!g_some) return;
   if(g_red) { A = any_obj("acc.type", "acc"); swap_top(A); }
   fun(&K, &D, params);
   if(vm->state != BUZZVM_STATE_READY) {
      int c = g_calls, s = g_set; fun(&K, &D, params);
      vf_assert(g_calls == c && g_set == s, "nothing is called after an error");
      return;
   }
   if(g_red) { vf_assert(buzzvm_stack_top(vm) == d && top() == R, "the function's result is the next accumulator"); FIN = int_obj(vf_i32("fin")); swap_top(FIN); }
}
int vf_stub__buzzvm_closure_call(buzzvm_t m, uint32_t argc) {
   if(g_hook) return g_hook(m, argc);
   ++g_calls;
   vf_assert(argc == 2 + g_red && buzzvm_stack_top(m) > argc, "the function is called with the key and the value, and the accumulator of a reduction");
   buzzobj_t k = buzzvm_stack_at(m, argc);
   vf_assert(buzzvm_stack_at(m, argc + 1) == CL, "the user's function is called");
   vf_assert(k == K || (K->o.type == BUZZTYPE_INT && k->o.type == BUZZTYPE_INT && k->i.value == K->i.value), "the function gets the key");
   vf_assert(buzzvm_stack_at(m, argc - 1) == D, "the function gets the value");
   if(g_red) vf_assert(buzzvm_stack_at(m, 1) == A, "the function gets the accumulator");
   if(g_fail) { buzzvm_seterror(m, BUZZVM_ERROR_TYPE, NULL); return m->state; }
   while(argc + 1) { buzzvm_pop(m); --argc; }
   buzzvm_push(m, R);
   return m->state;
}
void vf_stub__buzzdict_set(buzzdict_t dt, const void* key, const void* data) {
   if(g_hookdict && dt == g_hookdict) { g_sethook(key, data); return; }
   if((void*)dt->hashf != (void*)buzzobj_table_hash || (*(buzzobj_t*)key != K && !(g_anyint && (*(buzzobj_t*)key)->o.type == BUZZTYPE_INT))) { buzzdict_set(dt, key, data); return; }
   ++g_set; g_dict = dt; g_key = *(buzzobj_t*)key; g_val = *(buzzobj_t*)data;
}
static int truth(buzzobj_t o) { return o->o.type != BUZZTYPE_NIL && (o->o.type != BUZZTYPE_INT || o->i.value != 0); }
/* an arbitrary entry, a function and its result, which may be an error */
static void each_setup(void) {
   g_red = g_iter = g_calls = g_set = 0; g_dict = NULL;
   g_some = vf_choose("some", 2); g_fail = g_some ? vf_choose("fail", 2) : 0;
   R = g_some && !g_fail ? any_obj("r", "result") : NULL;
}
#endif
