// Harness interface of the symbolic executor (see rt.cpp)
#ifndef SYMX_ND_H
#define SYMX_ND_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

uint64_t symx_nd(uint64_t lo, uint64_t hi);
int64_t symx_nds(int64_t lo, int64_t hi);
void symx_assume(uint32_t c, uint32_t line);
void symx_check(uint32_t c, const char *msg, uint32_t line);
void symx_reach(const char *msg);
void symx_end(void) __attribute__((noreturn));
void symx_fail(const char *msg) __attribute__((noreturn));
void symx_reject(const char *msg) __attribute__((noreturn));
// called instead of reporting a violation when the program exits
void symx_on_exit(void (*fn)(int));
// while on, values that are only printed in messages are not fixed: only for
// code whose later behaviour cannot depend on the text
void symx_quiet(uint32_t on);
int symx_is_symbolic(uint64_t v);
uint64_t symx_pick(uint64_t v);        // one value per path
uint32_t symx_and(uint32_t a, uint32_t b);
uint32_t symx_or(uint32_t a, uint32_t b);
uint64_t symx_ite(uint32_t c, uint64_t t, uint64_t f);

#define ND __attribute__((unused)) static inline
ND uint64_t nd_u64(void) { return symx_nd(0, UINT64_MAX); }
ND int64_t nd_i64(void) { return (int64_t)symx_nd(0, UINT64_MAX); }
ND uint32_t nd_u32(void) { return symx_nd(0, UINT32_MAX); }
ND int32_t nd_i32(void) { return (int32_t)symx_nd(0, UINT32_MAX); }
ND uint16_t nd_u16(void) { return symx_nd(0, UINT16_MAX); }
ND uint8_t nd_u8(void) { return symx_nd(0, UINT8_MAX); }
ND bool nd_bool(void) { return symx_nd(0, 1) != 0; }
ND double nd_double(void) { union { uint64_t u; double d; } c; c.u = nd_u64(); return c.d; }
#define nd_range(lo, hi) symx_nd((lo), (hi))
#define nd_srange(lo, hi) symx_nds((lo), (hi))

#define ASSUME(c) symx_assume(!!(c), __LINE__)
#define CHECK(c, msg) symx_check(!!(c), msg, __LINE__)
#define REACH(msg) symx_reach(msg)
#define REACH_IF(c, msg) do { if (c) symx_reach(msg); } while (0)
#define AND(a, b) symx_and(!!(a), !!(b))
#define OR(a, b) symx_or(!!(a), !!(b))
#define ITE(c, t, f) symx_ite(!!(c), (uint64_t)(t), (uint64_t)(f))
#endif
