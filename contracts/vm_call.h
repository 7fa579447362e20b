/* Calling functions of the Buzz library through the public machine API, and
 * assembling small programs. */
#ifndef VM_CALL_H
#define VM_CALL_H
#include "vm_state.h"
static void vm_ready(uint16_t robot) { vm = buzzvm_new(robot); vm->state = BUZZVM_STATE_READY; }
static buzzobj_t top(void) { return buzzvm_stack_at(vm, 1); }
static uint32_t depth(void) { return buzzvm_stack_top(vm); }
static buzzobj_t newi(int32_t v) { buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_INT); o->i.value = v; return o; }
static buzzobj_t newf(float v) { buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_FLOAT); o->f.value = v; return o; }
static buzzobj_t newnil(void) { return buzzheap_newobj(vm, BUZZTYPE_NIL); }
static buzzobj_t newt(void) { return buzzheap_newobj(vm, BUZZTYPE_TABLE); }
static buzzobj_t news(const char* s) {
   buzzvm_pushs(vm, buzzvm_string_register(vm, s, 0));
   buzzobj_t o = top(); buzzvm_pop(vm); return o;
}
static buzzobj_t newcc(buzzvm_funp f) {
   buzzvm_pushcc(vm, buzzvm_function_register(vm, f));
   buzzobj_t o = top(); buzzvm_pop(vm); return o;
}
/* t[name] as a script reads it */
static buzzobj_t field(buzzobj_t t, const char* name) {
   buzzvm_push(vm, t);
   buzzvm_pushs(vm, buzzvm_string_register(vm, name, 1));
   buzzvm_tget(vm);
   buzzobj_t o = top(); buzzvm_pop(vm); return o;
}
static buzzobj_t global(const char* name) {
   buzzvm_pushs(vm, buzzvm_string_register(vm, name, 1));
   buzzvm_gload(vm);
   buzzobj_t o = top(); buzzvm_pop(vm); return o;
}
static buzzobj_t ARG[6];
/* f(ARG[0], ..., ARG[argc-1]); the result is left on the stack */
static buzzvm_state call(buzzobj_t f, uint32_t argc) {
   uint32_t i;
   buzzvm_push(vm, f);
   for(i = 0; i < argc; ++i) buzzvm_push(vm, ARG[i]);
   return buzzvm_closure_call(vm, argc);
}
static buzzvm_state method(buzzobj_t t, const char* name, uint32_t argc) { return call(field(t, name), argc); }
/* programs */
static uint8_t PROG[256]; static uint32_t PN;
static void op(uint8_t i) { PROG[PN++] = i; }
static void opi(uint8_t i, uint32_t v) { PROG[PN++] = i; memcpy(PROG + PN, &v, 4); PN += 4; }
static void program(void) { vm->bcode = PROG; vm->bcode_size = PN; }
/* a script function starting at offset at */
static buzzobj_t newcn(uint32_t at) {
   buzzvm_pushcn(vm, at);
   buzzobj_t o = top(); buzzvm_pop(vm); return o;
}
#endif
