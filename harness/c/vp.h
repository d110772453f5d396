/* Harness support: symbolic inputs under CBMC, recorded values in the native replay. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#ifdef VP_CBMC
uint8_t nondet_u8(void); uint16_t nondet_u16(void); uint32_t nondet_u32(void); uint64_t nondet_u64(void);
static inline uint8_t  vp_u8(void)  { uint8_t v = nondet_u8();   __CPROVER_input("vp", v); return v; }
static inline uint16_t vp_u16(void) { uint16_t v = nondet_u16(); __CPROVER_input("vp", v); return v; }
static inline uint32_t vp_u32(void) { uint32_t v = nondet_u32(); __CPROVER_input("vp", v); return v; }
static inline uint64_t vp_u64(void) { uint64_t v = nondet_u64(); __CPROVER_input("vp", v); return v; }
#define CHECK(c, m)   __CPROVER_assert((c), m)
#define ASSUME(c)     __CPROVER_assume(c)
#define WITNESS(c, m) __CPROVER_assert(!(c), "WITNESS " m)
#elif defined(VP_LL)
extern uint32_t vp_conc(uint32_t v);     /* forks until v is concrete */
extern uint64_t vp_conc64(uint64_t v);
extern uint8_t vp_u8(void); extern uint16_t vp_u16(void); extern uint32_t vp_u32(void); extern uint64_t vp_u64(void);
extern void vp_check(int ok, const char *m); extern void vp_assume(int ok); extern void vp_witness(int hit, const char *m);
#define CHECK(c, m)   vp_check(!!(c), m)
#define ASSUME(c)     vp_assume(!!(c))
#define WITNESS(c, m) vp_witness(!!(c), "WITNESS " m)
#else
#include <stdio.h>
#include <stdlib.h>
#define vp_conc(v) ((uint32_t)(v))
#define vp_conc64(v) ((uint64_t)(v))
extern uint64_t vp_next(void);
extern void vp_check(int ok, const char *m);
extern void vp_assume(int ok);
extern void vp_witness(int hit, const char *m);
static inline uint8_t  vp_u8(void)  { return (uint8_t)vp_next(); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_next(); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_next(); }
static inline uint64_t vp_u64(void) { return vp_next(); }
#define CHECK(c, m)   vp_check(!!(c), m)
#define ASSUME(c)     vp_assume(!!(c))
#define WITNESS(c, m) vp_witness(!!(c), "WITNESS " m)
#endif
static inline int8_t  vp_i8(void)  { return (int8_t)vp_u8(); }
static inline int16_t vp_i16(void) { return (int16_t)vp_u16(); }
static inline int32_t vp_i32(void) { return (int32_t)vp_u32(); }
#endif
