// C20: trim / split / search / comparison of StringView for every content up to N bytes.
#include "ck.h"
#include <string>
#include <vector>
#include "utils/StringView.hpp"
#include "utils/parse_utils.hpp"
using namespace cft;
#ifndef HN
#define HN 6
#endif
#ifndef HM
#define HM 4
#endif
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string symStr(const char* nm, int maxn) { int n = sx_int("len", 0, maxn); std::string s; for (int i = 0; i < n; ++i) s.push_back((char)sx_byte(nm)); return s; }
static void tTrim() {
    std::string s = symStr("t", HN); StringView v(s);
    size_t a = 0, b = s.size(); while (a < b && blank(s[a])) ++a; while (b > a && blank(s[b - 1])) --b;
    StringView l = ltrim(v), r = rtrim(v), t = trim(v);
    bool allBlank = a == b;
    if (allBlank) { CK(20, l.empty(), "ltrim of blank text is not empty"); CK(20, t.empty(), "trim of blank text is not empty"); }
    else {
        CK(20, l.begin() == s.data() + a && l.end() == s.data() + s.size(), "ltrim"); 
        CK(20, r.begin() == s.data() && r.end() == s.data() + b, "rtrim");
        CK(20, t.begin() == s.data() + a && t.end() == s.data() + b, "trim");
    }
    obs((int)t.size()); sx_cover(allBlank ? "blank" : "text");
}
static void tRtrimBlank() { // rtrim alone on blank text: empty
    int n = sx_int("n", 0, HN); std::string s; for (int i = 0; i < n; ++i) { char c = (char)sx_byte("b"); sx_assume(blank(c)); s.push_back(c); }
    CK(20, rtrim(StringView(s)).empty(), "rtrim of blank text is not empty"); CK(20, split(StringView(s)).empty(), "split of blank text is not empty"); sx_cover("rblank");
}
static void tSplit() {
    std::string s = symStr("s", HN); auto e = split(StringView(s)); size_t k = 0;
    for (size_t i = 0; i < s.size();) {
        if (blank(s[i])) { ++i; continue; }
        size_t j = i; while (j < s.size() && !blank(s[j])) ++j;
        CK(20, k < e.size(), "split misses a token");
        CK(20, e[k].begin() == s.data() + i && e[k].end() == s.data() + j, "split token is not the maximal non-blank run");
        ++k; i = j;
    }
    CK(20, k == e.size(), "split yields extra tokens"); obs(k); if (k == 3) sx_cover("three tokens");
}
static void tFind() {
    std::string s = symStr("f", HN); char c = (char)sx_byte("c"); StringView v(s); auto is = [c](char x) { return x == c; };
    size_t f = s.size(), l = s.size(); for (size_t i = s.size(); i-- > 0;) if (s[i] == c) f = i; for (size_t i = 0; i < s.size(); ++i) if (s[i] == c) l = i;
    CK(20, v.find_first_true(is) == f, "find_first_true"); CK(20, v.find_last_true(is) == l, "find_last_true"); obs(f); obs(l);
    size_t a = sx_int("a", 0, HN), b = sx_int("b", 0, HN); sx_assume(a <= b && b <= s.size()); a = sx_pin(a); b = sx_pin(b);
    auto g = v.get_substr(a, b), p = v.remove_prefix(a), q = v.remove_suffix(b);
    CK(20, g.begin() == s.data() + a && g.size() == b - a, "get_substr"); CK(20, p.begin() == s.data() + a && p.end() == v.end(), "remove_prefix"); CK(20, q.begin() == v.begin() && q.size() == b, "remove_suffix");
    CK(20, v.to_cpp_string() == s, "to_cpp_string"); CK(20, v.size() == s.size() && v.empty() == (s.size() == 0), "size"); for (size_t i = 0; i < s.size(); ++i) CK(20, v[i] == s[i], "operator[]");
    CK(20, IsSpace{}(c) == blank(c) || (unsigned char)c > 127, "IsSpace"); CK(20, NotSpace{}(c) == !blank(c) || (unsigned char)c > 127, "NotSpace"); sx_cover("find");
}
static int refCmp(std::string const& x, std::string const& y) { // ASCII range: signed and unsigned order coincide
    for (size_t i = 0;; ++i) { if (i == x.size()) return i == y.size() ? 0 : -1; if (i == y.size()) return 1; if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; } }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void ops(StringView a, StringView b, int c) {
    CK(20, sgn(a.compare(b)) == c, "compare is not the lexicographic order"); CK(20, (a == b) == (c == 0), "operator=="); CK(20, (a != b) == (c != 0), "operator!=");
    CK(20, (a < b) == (c < 0), "operator<"); CK(20, (a <= b) == (c <= 0), "operator<="); CK(20, (a > b) == (c > 0), "operator>"); CK(20, (a >= b) == (c >= 0), "operator>=");
}
static void tCmp() {
    std::string x = symStr("x", HM), y = symStr("y", HM); bool ascii = true; for (char c : x) if (c < 0) ascii = false; for (char c : y) if (c < 0) ascii = false;
    StringView a(x), b(y); int c = ascii ? refCmp(x, y) : sgn(a.compare(b));
    if (!ascii) { bool eq = x.size() == y.size(); if (eq) for (size_t i = 0; i < x.size(); ++i) if (x[i] != y[i]) eq = false; CK(20, (c == 0) == eq, "compare says equal for different texts"); CK(20, sgn(b.compare(a)) == -c, "compare is not antisymmetric"); }
    ops(a, b, c); ops(b, a, -c); obs(c); sx_cover(c < 0 ? "less" : c > 0 ? "greater" : "equal");
}
static void tCmp3() { // transitivity, all bytes
    std::string x = symStr("x", 2), y = symStr("y", 2), z = symStr("z", 2); if (StringView(x) < StringView(y) && StringView(y) < StringView(z)) { CK(20, StringView(x) < StringView(z), "compare is not transitive"); sx_cover("trans"); }
}
static void tCstr() { // const char* overloads stop at the terminator
    int n = sx_int("n", 0, HM); char buf[HM + 2]; size_t len = 0; for (int i = 0; i < n; ++i) buf[i] = (char)sx_byte("z"); buf[n] = 0; while (buf[len]) ++len;
    StringView v((char const*)buf); CK(20, v.size() == len && v.begin() == buf, "C string length"); StringView w(buf, (size_t)n); CK(20, w.size() == (size_t)n, "pointer+size");
    CK(20, trim(StringView(buf, buf + n)).size() <= (size_t)n, "trim size");
}
void sx_test() {
    switch (sx_pin(sx_int("test", 0, 6))) { case 0: tTrim(); break; case 1: tSplit(); break; case 2: tFind(); break; case 3: tCmp(); break; case 4: tCmp3(); break; case 5: tCstr(); break; default: tRtrimBlank(); }
}
