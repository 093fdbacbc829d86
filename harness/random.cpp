// C16: generators against an independent transcription of SplitMix64 / xoshiro, distributions for every draw.
#include <cmath>
#include <limits>
#include <type_traits>
#include "utils/random.hpp"
#include "core/cft.hpp"
#include "ck.h"
using namespace cft;
#ifndef HX
#define HX 0
#endif
template <class T> T rotl(T x, int k) { int w = sizeof(T) * 8; return (T)((x << k) | (x >> (w - k))); }
// published algorithms (prng.di.unimi.it)
template <class T> T refNext(T s[4], bool pp, int pr, int sh, int rot) {
    T r = pp ? (T)(rotl<T>((T)(s[0] + s[3]), pr) + s[0]) : (T)(s[0] + s[3]); T t = (T)(s[1] << sh); s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl<T>(s[3], rot); return r;
}
static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
template <class G> void generator(bool pp) {
    using T = typename G::result_type; bool w = sizeof(T) == 8; uint64_t seed = sx_u64("seed"), x = seed; G g(seed); T s[4]; for (T& v : s) v = (T)splitmix(x);
    for (int i = 0; i < 3 + 2 * HX; ++i) { T r = refNext<T>(s, pp, w ? 23 : 7, w ? 17 : 9, w ? 45 : 11); CK(16, g() == r, "generator differs from the published sequence"); }
    CK(16, G::min() == 0 && G::max() == std::numeric_limits<T>::max(), "generator range"); G a(seed), b(seed); for (int i = 0; i < 3; ++i) CK(16, a() == b(), "equal seeds give different sequences"); G c = a; CK(16, c() == a(), "copied generator continues differently"); sx_cover("sequence");
}
template <class G> void anyState(bool pp) { using T = typename G::result_type; bool w = sizeof(T) == 8; G g(0); T s[4]; for (int i = 0; i < 4; ++i) g.state[i] = s[i] = w ? (T)sx_u64("state") : (T)sx_u32("state"); for (int i = 0; i < 2; ++i) { T r = refNext<T>(s, pp, w ? 23 : 7, w ? 17 : 9, w ? 45 : 11); CK(16, g() == r, "generator differs from the published sequence"); } for (int i = 0; i < 4; ++i) CK(16, g.state[i] == s[i], "generator state differs"); sx_cover("state"); }
template <class T> struct Draw { using result_type = T; T v; T operator()() { return v; } };
template <class T> T drawn() { return sizeof(T) == 8 ? (T)sx_u64("draw") : (T)sx_u32("draw"); }
template <class F, class T> void canonical() { Draw<T> d{drawn<T>()}; F c = canonical_gen<F>(d); CK(16, c >= (F)0 && c < (F)1, "canonical draw outside [0, 1)"); sx_cover("canonical"); }
template <class F, class T> void canonEdge() { Draw<T> d{sx_bool("top") ? (T)~(T)0 : (T)0}; F c = canonical_gen<F>(d); CK(16, c >= (F)0 && c < (F)1, "canonical draw outside [0, 1)"); sx_cover("canonical edge"); }
template <class T> void realRange() { // IEEE arithmetic: every draw, several ranges including adjacent numbers
    sx_fpexact(1); static const float R[][2] = {{0.9f, 1.1f}, {0, 1}, {1, 1.0000001f}, {-1, 1}, {-3, -2.9999998f}, {1e6f, 1000000.1f}, {0.1f, 0.3f}, {-1e30f, 1e30f}, {5, 5.5f}};
    int k = sx_pin(sx_int("range", 0, HX ? 8 : 3)); Draw<T> d{drawn<T>()}; float r = rnd_real<float>(d, R[k][0], R[k][1]); CK(16, r >= R[k][0], "real draw below the range"); CK(16, r < R[k][1], "real draw not below the upper end of the range"); sx_cover("real range"); 
}
template <class F, class T> void realEdge() { // largest and smallest draws with ranges up to the limits of the type
    static const F inf = std::numeric_limits<F>::infinity(); Draw<T> d{sx_bool("top") ? (T)~(T)0 : (T)(sx_int("low", 0, 3) * 1024)}; d.v = (T)(unsigned)0 + d.v; F lo, hi;
    switch (sx_pin(sx_int("range", 0, 5))) { case 0: lo = 1; hi = std::nextafter((F)1, inf); break; case 1: lo = (F)0.9; hi = (F)1.1; break; case 2: lo = 0; hi = std::numeric_limits<F>::denorm_min(); break; case 3: lo = -7; hi = (F)-6.5; break; case 4: lo = (F)1e15; hi = std::nextafter((F)1e15, inf); break; default: lo = 0; hi = std::numeric_limits<F>::max(); }
    d.v = (T)(sx_pin((int)(d.v & 0xffff)) | (d.v & ~(T)0xffff)); F r = rnd_real<F>(d, lo, hi); CK(16, r >= lo, "real draw below the range"); CK(16, r < hi, "real draw not below the upper end of the range"); sx_cover("real edge");
}
template <class I, class T> void dice(int width) { // any draw; ranges at the bottom, around zero and at the top of the type, spans up to the whole type
    using L = std::numeric_limits<I>; I lo = L::min(), hi = L::max();
    if (width >= 0) { static const uint64_t W[] = {0, 1, 2, 4, 5, 6, 9, 12, 99, 254, 255, 256, 1000}; uint64_t w = W[sx_pin(sx_int("span", 0, width))]; int at = sx_pin(sx_int("at", 0, 3)); lo = at == 0 ? L::min() : at == 1 ? (I)((uint64_t)L::max() - w) : at == 2 ? (L::min() < 0 ? (I)-3 : (I)3) : (I)7; hi = (I)((uint64_t)lo + w); sx_assume(lo <= hi); }
    Draw<T> d{drawn<T>()}; I r = roll_dice<I>(d, lo, hi); CK(16, lo <= r && r <= hi, "dice roll outside the range"); sx_cover("dice");
}
template <class I, class T> void diceAll() { // every face can come up
    I lo = (I)sx_int("min", -100, 100), n = (I)sx_pin(sx_int("faces", 1, 6)), k = (I)sx_pin(sx_int("face", 0, n - 1)); Draw<T> d{(T)k}; I seen = 0; bool hit = false; for (T q = 0; q < (T)n; ++q) { Draw<T> e{q}; if (roll_dice<I>(e, lo, (I)(lo + n - 1)) == lo + k) hit = true; } CK(16, hit, "a face never comes up"); sx_cover("faces"); }
template <class T> void wide64() { // ranges whose size is a multiple of the generator's range
    static const int64_t R[][2] = {{0, 0xffffffffll}, {-5, 0xfffffffall}, {INT64_MIN, INT64_MAX}, {INT64_MIN, -1}, {0, INT64_MAX}, {1, 0x200000000ll}}; int k = sx_pin(sx_int("range", 0, 5)); Draw<T> d{drawn<T>()}; int64_t r = roll_dice<int64_t>(d, R[k][0], R[k][1]); CK(16, R[k][0] <= r && r <= R[k][1], "dice roll outside the range"); sx_cover("wide"); }
template <class T> void coin() { Draw<T> d{drawn<T>()}; Draw<T> e = d; CK(16, !coin_flip(d, 0.0), "coin with probability 0 comes up true"); CK(16, coin_flip(e, 1.0), "coin with probability 1 comes up false"); sx_cover("coin"); }
template <class T> void coinMid() { Draw<T> d{drawn<T>()}; Draw<T> z{0}, t{(T)~(T)0}; CK(16, coin_flip(z, 0.5) && !coin_flip(t, 0.5), "fair coin is stuck"); bool b = coin_flip(d, 0.25), c = coin_flip(d, 0.75); CK(16, !b || c, "a larger probability comes up true less often"); sx_cover("coin mid"); }
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 35))
#endif
void sx_test() { switch (HT) {
    case 0: generator<Xoshiro256P>(false); break; case 1: generator<Xoshiro256PP>(true); break; case 2: generator<Xoshiro128P>(false); break; case 3: generator<Xoshiro128PP>(true); break; case 4: anyState<Xoshiro256P>(false); break; case 5: anyState<Xoshiro256PP>(true); break; case 6: anyState<Xoshiro128P>(false); break; case 7: anyState<Xoshiro128PP>(true); break;
    case 8: canonical<float, uint32_t>(); break; case 9: canonical<float, uint64_t>(); break; case 10: canonical<double, uint32_t>(); break; case 11: canonical<double, uint64_t>(); break; case 12: canonEdge<long double, uint32_t>(); break; case 13: canonEdge<long double, uint64_t>(); break;
    case 14: realRange<uint32_t>(); break; case 15: realRange<uint64_t>(); break; case 16: realEdge<float, uint32_t>(); break; case 17: realEdge<double, uint64_t>(); break; case 18: realEdge<double, uint32_t>(); break;
    case 19: dice<int16_t, uint32_t>(9); break; case 20: dice<int32_t, uint32_t>(-1); break; case 21: dice<int32_t, uint32_t>(6 + 6 * HX); break; case 22: dice<int64_t, uint64_t>(-1); break; case 23: dice<uint8_t, uint64_t>(10); break; case 24: dice<int64_t, uint64_t>(4 + 8 * HX); break; case 25: dice<uint64_t, uint64_t>(-1); break; case 26: dice<uint32_t, uint32_t>(-1); break;
    case 27: diceAll<int32_t, uint32_t>(); break; case 28: diceAll<int64_t, uint64_t>(); break; case 29: wide64<uint32_t>(); break; case 30: wide64<uint64_t>(); break; case 31: coin<uint32_t>(); break; case 32: coin<uint64_t>(); break; case 33: coinMid<uint32_t>(); break; case 34: coinMid<uint64_t>(); break;
    case 35: { CK(16, (std::is_same<prng_picker<float>::type, Xoshiro128P>::value && std::is_same<prng_picker<double>::type, Xoshiro256P>::value && std::is_same<prng_picker<uint32_t>::type, Xoshiro128PP>::value && std::is_same<prng_picker<uint64_t>::type, Xoshiro256PP>::value), "wrong generator for the type"); break; } } }
