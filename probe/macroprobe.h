#pragma once
#include <stdint.h>
enum { MP_MIN, MP_MAX, MP_BOUND };
/* on shared variables that others change meanwhile */
int32_t mp_i32(int op, volatile int32_t *a, volatile int32_t *m, volatile int32_t *M);
uint32_t mp_u32(int op, volatile uint32_t *a, volatile uint32_t *m, volatile uint32_t *M);
int64_t mp_i64(int op, volatile int64_t *a, volatile int64_t *m, volatile int64_t *M);
uint64_t mp_u64(int op, volatile uint64_t *a, volatile uint64_t *m, volatile uint64_t *M);
double mp_dbl(int op, volatile double *a, volatile double *m, volatile double *M);
int8_t mp_i8(int op, volatile int8_t *a, volatile int8_t *m, volatile int8_t *M);
uint16_t mp_u16(int op, volatile uint16_t *a, volatile uint16_t *m, volatile uint16_t *M);
/* on calls */
int64_t mp_call(int op, int64_t (*f)(int, void *), void *arg);
/* on operands of different types; the common type holds all their values */
enum { MP_MIXED = 16 };
long double mp_mixed(int k, int64_t (*f)(int, void *), void *arg);
/* the rest: 0 or the number of the one that is wrong */
int mp_const(unsigned k);
