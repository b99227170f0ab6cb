/* Contract language.  The same contract files are executed symbolically by the verification-condition generator (where
   the functions below are intrinsics) and compiled natively against the real objects, to replay counterexamples and to
   search for failing inputs (spec_native.c). */
#ifndef SPEC_H
#define SPEC_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

uint8_t  nd_u8(const char *name);           /* arbitrary values */
uint16_t nd_u16(const char *name);
uint32_t nd_u32(const char *name);
uint64_t nd_u64(const char *name);
bool     nd_bool(const char *name);
int      nd_range(const char *name, int lo, int hi);
int      spec_dim(const char *name, int lo, int hi);    /* an arbitrary size; fixed in bounded re-runs */
int      spec_case(void);                   /* number of the static case being run */
int      spec_symbolic(void);               /* 1 under the verifier, 0 natively */
int      spec_proof(void);                  /* 1 under the verifier with unbounded sizes */
int      spec_replay(void);                 /* 1 natively when replaying a counterexample */
int      spec_concrete(uint32_t x);          /* 1 when the verifier knows the value */
void     spec_assume(bool c);
void     spec_fact(bool c);                 /* a proved fact about an uninterpreted function */
void     spec_check(bool c, const char *label);
void     spec_cover(const char *label);
void     spec_scale(int s);                 /* products with s are handled by the multiplication lemmas */
void    *spec_array(const char *name, unsigned n, unsigned stride, const char *fields);
void     spec_havoc_array(void *arr);       /* arbitrary new content */
void    *spec_block(const char *name, unsigned size);
void     spec_on_touch(void *arr, bool (*pred)(void *arr, unsigned i));
void    *spec_snapshot(void *p);
uint32_t spec_uf1(const char *name, uint32_t x);
void     spec_ghost_step(void (*step)(void));
void     spec_loop_inv(bool (*inv)(void));
#endif
