// Harness interface shared by the symbolic executor and the native replay runtime.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#else
#include <stdbool.h>
#endif
uint64_t sx_u64(const char *name);
uint32_t sx_u32(const char *name);
uint16_t sx_u16(const char *name);
uint8_t sx_u8(const char *name);
bool sx_bool(const char *name);
uint64_t sx_range(const char *name, uint64_t lo, uint64_t hi);   // lo <= result <= hi
void sx_bytes(void *p, size_t n, const char *name);
uint32_t sx_choice(const char *name, uint32_t n);                // one path per value 0..n-1
void sx_assume(bool c);
void sx_assert(bool c, const char *msg);
void sx_fail(const char *msg);
uint64_t sx_concretize(uint64_t v);
void sx_observe(const char *name, uint64_t v);
void sx_cover(const char *name);
void sx_end(void);
void sx_allow_throw(int on);
void sx_uninit_zero(int on);
bool sx_is_symbolic(uint64_t v);
bool sx_is_native(void);
int sx_spawn(void (*f)(void *), void *arg);
void sx_run(int preemptions);
int sx_thread(void);
void sx_nosched(int d);
void sx_sched_point(void *p, uint64_t n, uint32_t kind);
void sx_yield(void);
#ifdef __cplusplus
}
#define SX_INL inline __attribute__((always_inline))
#endif
