/* Specification intrinsics: understood by the verifier (engine/vfe.py) and,
 * for replaying a counterexample, implemented natively in vf_native.c. */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
uint8_t  vf_u8 (const char* label);
uint16_t vf_u16(const char* label);
uint32_t vf_u32(const char* label);
uint64_t vf_u64(const char* label);
int32_t  vf_i32(const char* label);
float    vf_f32(const char* label);
int      vf_bool(const char* label);
uint32_t vf_choose(const char* label, uint32_t n);           /* 0..n-1, split */
void*    vf_opaque(const char* label);                       /* never dereferenced */
void*    vf_abstract(const char* label);                     /* block known only through contracts */
void*    vf_buf(const char* label, uint64_t size);           /* heap block, arbitrary bytes */
void*    vf_lazyptrs(const char* label, uint64_t cap, void* (*mk)(uint64_t)); /* cap pointers */
void     vf_preset(void* arr, uint64_t idx, void* val);
void     vf_assume(int c);
void     vf_assert(int c, const char* id);
void     vf_cover(const char* id);
void     vf_note(const char* s);
void     vf_end(void);
void     vf_allow_abort(int on);
void     vf_unwind(uint32_t n);
void     vf_muldiv(int on);                                    /* products and quotients known by lemmas only */
int      vf_live(const void* p);
int      vf_sameobj(const void* p, const void* q);            /* same memory block */
int      vf_bounded(void);
int      vf_fork(int c);
void     vf_havoc(void* p, uint64_t n);
int      vf_feq(float a, float b);
void vf_file_write(const char* text);                         /* the one file of a unit */
const char* vf_file_read(void);
const char* vf_file_name(void);
#define REQUIRES(c)      vf_assume(c)
#define ENSURES(c, id)   vf_assert(c, id)
#define IMPLIES(a, b)    (!(a) || (b))
/* a unit: verified for all inputs; UNIT_B: bounded stand-in */
#define UNIT(name)       void vfu_##name(void)
/* native only: concrete histories, run to look for a failing input after an obligation failed */
#ifdef VF_NATIVE
#include <stdio.h>
#define VF_AT(DA, I) ((void*)((uint8_t*)(DA)->data + (size_t)(I) * (DA)->elem_size))
#endif
uint32_t vf_rand(uint32_t n);
#define SEARCH(name)     void vfs_##name(void)
#endif
