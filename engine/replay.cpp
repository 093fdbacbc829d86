// Native counterpart of the symbolic runtime: reads the input values of one path from a file.
#include "symx.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <new>
#include <vector>
#include <sys/resource.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
static std::vector<int64_t> in; static size_t pos; static uint64_t h = 1;
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15UL + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdUL; return h ^ (h >> 32); }
static int64_t nx(int64_t lo, int64_t hi) { int64_t v = pos < in.size() ? in[pos] : (lo > 0 ? lo : hi < 0 ? hi : 0); ++pos; return v < lo ? lo : v > hi ? hi : v; }
static const char* trace = getenv("SX_TRACE");
#define TR(fmt, ...) if (trace) fprintf(stderr, fmt "\n", __VA_ARGS__)
extern "C" {
int sx_int(const char* n, int lo, int hi) { int v = nx(lo, hi); TR("%s = %d", n, v); return v; }
uint64_t sx_u64(const char* n) { uint64_t v = nx(INT64_MIN, INT64_MAX); TR("%s = %lu", n, v); return v; }
uint32_t sx_u32(const char* n) { uint32_t v = nx(0, 0xffffffff); TR("%s = %u", n, v); return v; }
unsigned char sx_byte(const char* n) { unsigned char v = nx(0, 255); TR("%s = 0x%02x '%c'", n, v, v >= 32 && v < 127 ? v : '?'); return v; }
bool sx_bool(const char* n) { bool v = nx(0, 1); TR("%s = %d", n, v); return v; }
float sx_real(const char* n, int lo, int hi, int k) { float v = ldexpf((float)nx(lo, hi), -k); TR("%s = %.9g", n, v); return v; }
double sx_reald(const char* n, int lo, int hi, int k) { double v = ldexp((double)nx(lo, hi), -k); TR("%s = %.17g", n, v); return v; }
int sx_pin(int v) { return v; } float sx_pinf(float v) { return v; }
void sx_fail(const char* m) { printf("FAIL %s\n", m); fflush(stdout); _exit(1); }
void sx_prune() { printf("PRUNE\n"); fflush(stdout); _exit(0); }
void sx_cover(const char* n) { TR("cover %s", n); }
void sx_observe(uint64_t v) { h = mix(h, v); TR("observe %lx", v); }
void sx_fpexact(int) {} void sx_steplimit(uint64_t) {}
long (*sx_clock_fn)() = 0;
const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=64"; }
}
static uint64_t allocs;
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0x80 | (++allocs * 37 & 0x7f), n); return p; }
void* operator new(size_t n) { return take(n); } void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
static long clk = 1000000000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_clock_fn ? sx_clock_fn() : (clk += 1000))); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock_fn ? sx_clock_fn() : (clk += 1000))); }
}}}
static void onAlarm(int) { static const char m[] = "FAIL step limit exceeded (does not terminate within the bound)\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
int main(int argc, char** argv) {
    if (argc > 1) { FILE* f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 2; } long v; while (fscanf(f, "%ld", &v) == 1) in.push_back(v); fclose(f); }
    signal(SIGALRM, onAlarm); alarm(getenv("SX_ALARM") ? atoi(getenv("SX_ALARM")) : 20);
    allocs = 0; try { sx_test(); } catch (std::exception& e) { printf("FAIL uncaught exception %s\n", e.what()); fflush(stdout); return 1; }
    printf("OBS %lx\n", h); return 0;
}
