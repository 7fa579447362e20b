/* An arbitrary virtual machine state: real machine from buzzvm_new() whose
 * operand stack and heap list are replaced by ones of any size and content. */
#ifndef VM_STATE_H
#define VM_STATE_H
#include "vf.h"
#include <buzz/buzzvm.h>
#include <stdlib.h>
#include <string.h>
#ifndef VM_OWN_STUBS
/* Callers are checked against the array contract (proved in C01): an element
 * is appended or removed, the others stay; when and how the buffer is resized is
 * not visible to them, except that a pointer into the array must not be passed in. */
void vf_stub__buzzdarray_insert(buzzdarray_t da, uint32_t pos, const void* data) {
   vf_assert(!vf_sameobj(data, da->data), "pre: the inserted element does not lie inside the array itself");
   vf_assert(pos <= da->size, "pre: the insertion position is at most the size");
   if(pos == da->size && da->size < da->capacity) {
      memcpy((uint8_t*)da->data + (uint64_t)da->size * da->elem_size, data, da->elem_size);
      ++da->size;
   }
   else buzzdarray_insert(da, pos, data);
}
void vf_stub__buzzdarray_remove(buzzdarray_t da, uint32_t pos) {
   if(pos >= da->size) return;
   uint8_t* p = (uint8_t*)da->data + (uint64_t)pos * da->elem_size;
   da->elem_destroy(pos, p, NULL);
   if(pos != da->size - 1) memmove(p, p + da->elem_size, (uint64_t)(da->size - pos - 1) * da->elem_size);
   --da->size;
}
#endif
static buzzvm_t vm;
static uint32_t N;            /* stack depth on entry */
static uint32_t wpos; static buzzobj_t W; static int32_t wval; static int haveW;  /* witness below the operands */

static buzzobj_t raw_obj(uint16_t type) {
   buzzobj_t o = (buzzobj_t)calloc(1, sizeof(union buzzobj_u));
   o->o.type = type; o->o.marker = vf_u16("marker");
   return o;
}
static buzzobj_t int_obj(int32_t v) { buzzobj_t o = raw_obj(BUZZTYPE_INT); o->i.value = v; return o; }
static buzzobj_t float_obj(float v) { buzzobj_t o = raw_obj(BUZZTYPE_FLOAT); o->f.value = v; return o; }
/* a value of any type; composite parts are opaque */
static buzzobj_t any_obj(const char* lt, const char* lv) {
   uint32_t t = vf_choose(lt, 7);
   buzzobj_t o = raw_obj(t);
   switch(t) {
      case BUZZTYPE_INT: o->i.value = vf_i32(lv); break;
      case BUZZTYPE_FLOAT: o->f.value = vf_f32(lv); break;
      case BUZZTYPE_STRING: o->s.value.sid = vf_u16(lv); o->s.value.str = vf_opaque(lv); break;
      case BUZZTYPE_TABLE: o->t.value = vf_opaque(lv); break;
      case BUZZTYPE_CLOSURE: o->c.value.isnative = 1; o->c.value.ref = vf_i32(lv); o->c.value.actrec = vf_opaque(lv); break;
      case BUZZTYPE_USERDATA: o->u.value = vf_opaque(lv); break;
   }
   return o;
}
static void* mk_stk(uint64_t i) { return any_obj("stk.type", "stk.val"); }
/* an array of pointers of any size, with real destructor */
static void any_size(buzzdarray_t a, const char* ls, const char* lc, const char* ld, void* (*mk)(uint64_t)) {
   free(a->data);
   a->size = vf_u32(ls); a->capacity = vf_u32(lc);
   vf_assume(a->size < (1u << 26) && a->capacity == a->size + 16);
   if(vf_bounded()) vf_assume(a->size <= 6);
   a->data = vf_lazyptrs(ld, a->capacity, mk);
}
static void any_vm(void) {
   vm = buzzvm_new(vf_u16("robot"));
   vm->state = BUZZVM_STATE_READY;
   vm->pc = vf_i32("pc"); vm->oldpc = vf_i32("oldpc");
   vm->heap->marker = vf_u16("hmarker");
   any_size(vm->stack, "stk.size", "stk.cap", "stk", mk_stk);
   any_size(vm->heap->objs, "heap.size", "heap.cap", "heap", mk_stk);
   vm->heap->max_objs = 0xffffffffu;    /* no collection is due (C12) */
   N = vm->stack->size;
}
/* operand idx (1 = top) is o */
static void operand(uint32_t idx, buzzobj_t o) { vf_preset(vm->stack->data, N - idx, o); }
/* an arbitrary element below the topmost n */
static void witness(uint32_t n) {
   haveW = 0;
   wpos = vf_u32("wpos");
   if(N < n || !vf_fork(wpos < N - n)) return;
   haveW = 1;
   wval = vf_i32("wval");
   W = int_obj(wval);
   vf_preset(vm->stack->data, wpos, W);
}
static void witness_kept(void) {
   if(!haveW) return;
   ENSURES(buzzdarray_get(vm->stack, wpos, buzzobj_t) == W, "the stack below the operands is untouched");
   ENSURES(W->o.type == BUZZTYPE_INT && W->i.value == wval, "values below the operands are untouched");
}
static void is_error(int err) {
   ENSURES(vm->state == BUZZVM_STATE_ERROR && vm->error == (buzzvm_error)err, "a bad operand puts the machine in the documented error state");
}
#endif
