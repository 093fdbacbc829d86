// fmt::print to the in-memory files: "{}" prints integers, texts and dyadic reals exactly (the shortest text that reads back as the same
// value has that meaning); other replacement fields are formatted by the real library on the value the solver picks.
#ifndef SX_STUB_FMT_OSTREAM
#define SX_STUB_FMT_OSTREAM
#include <fmt/format.h>
#include <fstream>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#include "symx.h"
namespace sxfmt {
inline bool& fresh() { static bool f = false; return f; }   // digits as new unknowns with the right sum (instead of divisions)
inline bool& real() { static bool f = false; return f; }    // reals formatted by the real library
// values whose text the harness knows (it built them from digits): the same value prints as that text
struct Told { std::vector<std::pair<unsigned long, std::string>> i; std::vector<std::pair<double, std::string>> r; };
inline Told*& told() { static Told* t = nullptr; return t; }
inline void tell(long v, std::string const& s) { if (!told()) told() = new Told(); told()->i.push_back(std::make_pair((unsigned long)v, s)); }
inline void tell(float v, std::string const& s) { if (!told()) told() = new Told(); told()->r.push_back(std::make_pair((double)v, s)); }
inline void tell(double v, std::string const& s) { if (!told()) told() = new Told(); told()->r.push_back(std::make_pair(v, s)); }
inline void putInt(std::string& o, unsigned long v) {
    if (told()) for (auto& p : told()->i) if (p.first == v) { o += p.second; return; }
    if (fresh()) { int n = 1; unsigned long p = 10; while (n < 12 && v >= p) { ++n; p *= 10; } unsigned long s = 0; size_t at = o.size(); for (int i = 0; i < n; ++i) { int d = sx_int("digit", i || n == 1 ? 0 : 1, 9); s = s * 10 + (unsigned long)d; o.push_back((char)('0' + d)); } sx_assume(s == v); (void)at; return; }
    char b[24]; int n = 0; do { b[n++] = '0' + v % 10; v /= 10; } while (v); while (n) o.push_back(b[--n]); }
template <class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, char>::value>::type plain(std::string& o, T v) { if (v < 0) { o.push_back('-'); putInt(o, 0ul - (unsigned long)(long)v); } else putInt(o, v); }
template <class T> typename std::enable_if<std::is_floating_point<T>::value>::type plain(std::string& o, T x) {
    if (real()) { o += fmt::format("{}", x); return; }
    if (told()) for (auto& p : told()->r) if (p.first == (double)x) { o += p.second; return; }
    if (!(x <= 4294967295.0 && x >= -4294967295.0)) { o += fmt::format("{}", x); return; }
    if (x < 0) { o.push_back('-'); x = -x; } unsigned long i = (unsigned long)(long)x; x -= (T)(long)i; unsigned f[8]; int n = 0, last = 0;
    while (n < 6) { x *= 10; int d = (int)x; x -= (T)d; f[n++] = d; if (d) last = n; if (x == 0) break; }
    if (x != 0) sx_prune();   // only dyadic reals with up to six decimals
    putInt(o, i); if (last) { o.push_back('.'); for (int k = 0; k < last; ++k) o.push_back('0' + f[k]); } else if (i > 9999999) { /* large values keep all their digits: same value */ }
}
inline void plain(std::string& o, char c) { o.push_back(c); }
inline void plain(std::string& o, char const* s) { o += s; }
inline void plain(std::string& o, std::string const& s) { o += s; }
template <class I, class S> void plain(std::string& o, fmt::join_view<I, S, char> const& j) { bool f = true; for (auto i = j.begin; i != j.end; ++i) { if (!f) for (char c : j.sep) o.push_back(c); f = false; plain(o, *i); } }
template <class T> typename std::enable_if<std::is_floating_point<T>::value, T>::type fixed(T v) { return (T)sx_pinf((float)v); }
template <class T> typename std::enable_if<std::is_integral<T>::value, T>::type fixed(T v) { return (T)sx_pin((int)v); }
inline char const* fixed(char const* v) { return v; }
inline std::string const& fixed(std::string const& v) { return v; }
inline void go(std::string& o, char const* f) { for (; *f; ++f) { if ((*f == '{' || *f == '}') && f[1] == *f) ++f; o.push_back(*f); } }
template <class T, class... A> void go(std::string& o, char const* f, T const& v, A const&... a) {
    for (; *f; ++f) { if (*f == '{' && f[1] == '{') { o.push_back('{'); ++f; continue; } if (*f == '}' && f[1] == '}') { o.push_back('}'); ++f; continue; }
        if (*f == '{') { char const* e = f; while (*e != '}') ++e; if (e == f + 1) plain(o, v); else o += fmt::format(fmt::runtime(std::string(f, e + 1)), fixed(v)); go(o, e + 1, a...); return; } o.push_back(*f); }
}
}
namespace fmt { inline namespace v9 {
template <class... A> void print(std::ofstream& f, char const* fm, A const&... a) { std::string o; sxfmt::go(o, fm, a...); f.append(o); }
template <class... A> void print(std::ofstream& f, std::string const& fm, A const&... a) { std::string o; sxfmt::go(o, fm.c_str(), a...); f.append(o); }
} }
#endif
