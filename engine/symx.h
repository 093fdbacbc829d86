// Harness interface (shared by the symbolic build and the native replay build).
#ifndef SYMX_H
#define SYMX_H
#include <cstdint>
#include <cstring>
extern "C" {
int sx_int(const char* name, int lo, int hi);
uint64_t sx_u64(const char* name);
uint32_t sx_u32(const char* name);
unsigned char sx_byte(const char* name);
bool sx_bool(const char* name);
float sx_real(const char* name, int lo, int hi, int k);    // integer in [lo,hi] divided by 2^k
double sx_reald(const char* name, int lo, int hi, int k);
int sx_pin(int v);          // fork on every feasible value
float sx_pinf(float v);
void sx_fail(const char* msg) __attribute__((noreturn));
void sx_prune() __attribute__((noreturn));
void sx_cover(const char* name);
void sx_observe(uint64_t v);
void sx_fpexact(int on);
void sx_steplimit(uint64_t n);
extern long (*sx_clock_fn)();
void sx_test();
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_check(c, msg) do { if (!(c)) sx_fail(msg); } while (0)
#define sx_assume(c) do { if (!(c)) sx_prune(); } while (0)
static inline void obs(float f) { uint32_t u; std::memcpy(&u, &f, 4); sx_observe(u); }
static inline void obs(double f) { uint64_t u; std::memcpy(&u, &f, 8); sx_observe(u); }
template <class T> static inline void obs(T v) { sx_observe((uint64_t)v); }
#endif
