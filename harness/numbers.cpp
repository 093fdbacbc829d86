// C13: string_to<T>::consume / parse against the value the text denotes.
#include <string>
#include <stdexcept>
#include "utils/StringView.hpp"
#include "utils/parse_utils.hpp"
#include "ck.h"
using namespace cft;
#ifndef HN
#define HN 4
#endif
enum { OK, INVALID, RANGE, OTHER };
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dig(char c) { return c >= '0' && c <= '9'; }
template <class T> int run(std::string const& s, T& val, size_t& used) {
    StringView v(s); used = 0; int r;
    try { val = string_to<T>::consume(v); r = OK; used = v.begin() - s.data(); sx_check(v.end() == s.data() + s.size(), "C13: consume moves the end of the text"); }
    catch (std::invalid_argument&) { r = INVALID; } catch (std::out_of_range&) { r = RANGE; } catch (...) { r = OTHER; }
    int r2; T v2{}; try { v2 = string_to<T>::parse(StringView(s)); r2 = OK; } catch (std::invalid_argument&) { r2 = INVALID; } catch (std::out_of_range&) { r2 = RANGE; } catch (...) { r2 = OTHER; }
    sx_check(r == r2 && (r != OK || v2 == val), "C13: parse and consume disagree");
    if (r != OK) sx_check(v.begin() == s.data() && v.end() == s.data() + s.size(), "C13: consume throws but moves the text");
    obs(r); obs(used); return r;
}
// arbitrary bytes, integer types
template <class T> void shortInt() {
    int n = sx_int("n", 0, HN); std::string s; for (int i = 0; i < n; ++i) s.push_back((char)sx_byte("c"));
    T got{}; size_t used; int r = run<T>(s, got, used);
    size_t i = 0; while (i < s.size() && blank(s[i])) ++i; bool lead = i > 0;
    bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    size_t d = i; long long v = 0; while (i < s.size() && dig(s[i])) v = v * 10 + (s[i++] - '0'); if (neg) v = -v;
    bool any = i > d; 
    if (!any) { CK(13, r == INVALID, "text without a number is not an invalid argument"); sx_cover("invalid"); return; }
    if (lead && r == INVALID) return;
    bool inr = v >= (long long)std::numeric_limits<T>::lowest() && (v < 0 || (unsigned long long)v <= (unsigned long long)std::numeric_limits<T>::max());
    if (std::is_unsigned<T>::value && v < 0) inr = false;
    if (!inr) { CK(13, r == RANGE, "value outside the type's range is not an out-of-range error"); sx_cover("range"); return; }
    CK(13, r == OK, "representable value rejected"); CK(13, (long long)got == v, "wrong value"); CK(13, used == i, "wrong number of characters consumed"); sx_cover("value"); obs((long long)got);
}
// long digit strings around the limits of the type: sign, `head`, then k symbolic digits, then a terminator
template <class T> void longInt(std::string lim, int k, bool neg) { // lim: decimal digits of the largest magnitude allowed
    int extra = sx_pin(sx_int("extra", -1, 1)); // one digit fewer / equal / one more
    std::string d = lim.substr(0, lim.size() - k); for (int i = 0; i < k + extra; ++i) { char c = (char)sx_byte("d"); sx_assume(dig(c)); d.push_back(c); }
    if (sx_bool("first")) { char c = (char)sx_byte("f"); sx_assume(dig(c) && c != '0'); d[0] = c; }
    std::string z = sx_bool("zero") ? "00" : ""; bool plus = !neg && sx_bool("plus"); bool tail = sx_bool("tail");
    std::string s = (neg ? "-" : plus ? "+" : "") + z + d + (tail ? " 7" : "");
    bool big = d.size() > lim.size(); if (d.size() == lim.size()) for (size_t i = 0; i < d.size(); ++i) if (d[i] != lim[i]) { big = d[i] > lim[i]; break; }
    T got{}; size_t used; int r = run<T>(s, got, used);
    if (big) { CK(13, r == RANGE, "value outside the type's range is not an out-of-range error"); sx_cover("big"); return; }
    CK(13, r == OK, "representable value rejected"); CK(13, used == s.size() - (tail ? 2 : 0), "wrong number of characters consumed");
    unsigned long long m = 0; for (char c : d) m = m * 10 + (c - '0'); if (neg) m = 0 - m; CK(13, (unsigned long long)(long long)got == m || (unsigned long long)got == m, "wrong value"); sx_cover("limit ok"); obs((long long)got);
}
template <class T> void negUnsigned() { // any negative non-zero value is outside an unsigned type
    int n = sx_int("n", 1, 3); std::string s = "-"; bool nz = false; for (int i = 0; i < n; ++i) { char c = (char)sx_byte("d"); sx_assume(dig(c)); if (c != '0') nz = true; s.push_back(c); }
    T got{}; size_t used; int r = run<T>(s, got, used); if (nz) CK(13, r == RANGE, "negative value read into an unsigned type is not an out-of-range error"); else CK(13, r == RANGE || (r == OK && got == 0), "minus zero"); sx_cover("neg unsigned");
}
template <class T> void shortReal(bool any) { // arbitrary bytes / bytes of the number alphabet
    int n = sx_int("n", any ? 0 : 4, any ? HN - 1 : HN); std::string s; for (int i = 0; i < n; ++i) s.push_back((char)sx_byte("c"));
    for (char c : s) sx_assume(!any ? (dig(c) && c < '3') || c == '.' || c == 'e' || c == '+' || c == '-' : c != 'x' && c != 'X' && c != 'n' && c != 'N' && c != 'i' && c != 'I'); // hexadecimal, inf and nan texts: below
    T got{}; size_t used; int r = run<T>(s, got, used);
    size_t i = 0; while (i < s.size() && blank(s[i])) ++i; bool lead = i > 0, neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    long v = 0; int nd = 0, fr = 0; while (i < s.size() && dig(s[i])) { v = v * 10 + ((s[i++] - '0') & 15); ++nd; }
    if (i < s.size() && s[i] == '.' && (nd || (i + 1 < s.size() && dig(s[i + 1])))) { ++i; while (i < s.size() && dig(s[i])) { v = v * 10 + ((s[i++] - '0') & 15); ++nd; ++fr; } }
    if (!nd) { CK(13, r == INVALID, "text without a number is not an invalid argument"); sx_cover("rinvalid"); return; }
    int ex = 0; if (i + 1 < s.size() && (s[i] == 'e' || s[i] == 'E')) { size_t k = i + 1; bool en = false; if (s[k] == '-' || s[k] == '+') en = s[k++] == '-'; if (k < s.size() && dig(s[k])) { while (k < s.size() && dig(s[k])) ex = ex * 10 + (s[k++] - '0'); if (en) ex = -ex; i = k; } }
    if (lead && r == INVALID) return;
    ex = sx_pin(ex) - fr; double a = (double)v, b = 1; bool over = v != 0 && ex > (sizeof(T) == 4 ? 37 : 300), under = ex < -(sizeof(T) == 4 ? 37 : 300);
    if (over || under) { if (under) CK(13, r == OK, "tiny value rejected"); return; }
    CK(13, r == OK, "representable value rejected"); CK(13, used == i, "wrong number of characters consumed");
    if (ex == 0) { CK(13, (neg ? -got : got) == (T)(int)v, "wrong real value"); sx_cover("rint"); return; }
    long p = sx_pin((int)v); if (neg) p = -p; // the digits are concretised: decimal scaling is checked value by value
    long double want = (long double)p; for (int k = 0; k < ex; ++k) want *= 10; for (int k = 0; k > ex; --k) b *= 1; long double den = 1; for (int k = 0; k > ex; --k) den *= 10; want /= den;
    T w = (T)want; CK(13, got == w, "wrong real value"); obs((double)got); sx_cover("rvalue");
}
template <class T> void digitsReal() { // integer part and dyadic fraction symbolic: exact
    int fr = sx_pin(sx_int("fr", 0, 3)); int k = sx_int("k", 1, fr == 1 || fr == 2 ? 2 : sizeof(T) == 4 ? 6 : 7); std::string s; bool neg = sx_bool("neg"); if (neg) s = "-"; T v = 0; for (int i = 0; i < k; ++i) { char c = (char)sx_byte("d"); sx_assume(dig(c)); if (fr == 1 || fr == 2) c = (char)sx_pin(c); v = v * 10 + (T)(unsigned)((c - '0') & 15); s.push_back(c); }
    T f = 0; switch (fr) { case 1: s += ".5"; f = (T)0.5; break; case 2: s += ".75"; f = (T)0.75; break; case 3: s += "."; break; }
    T got{}; size_t used; int r = run<T>(s, got, used); CK(13, r == OK && used == s.size(), "number not consumed exactly");
    CK(13, got == (neg ? -(v + f) : v + f), "wrong real value"); sx_cover("dyadic");
}
template <class T> void limitReal() { // values around the largest finite one, infinities and NaN
    std::string s; int want; int k = sx_pin(sx_int("case", 0, 15)); static char const* LIM[2][6] = {{"3.4028235e+38", "-3.4028235e38", "3.40282351e38", "1.17549435e-38", "1e-45", "-0.1e-41"}, {"1.7976931348623157e+308", "-1.7976931348623157e308", "2.2250738585072014e-308", "5e-324", "-1e-310", "1e-400"}}; if (k >= 10) { s = LIM[sizeof(T) == 8][k - 10]; T got{}; size_t used; int r = run<T>(s, got, used); CK(13, r == OK, "largest, smallest and subnormal values are not accepted"); CK(13, got == (T)std::strtold(s.c_str(), nullptr) && used == s.size(), "wrong real value near the limit"); sx_cover("limits"); return; } switch (k) {
        case 0: s = sizeof(T) == 4 ? "3.5e38" : "1.8e308"; want = RANGE; break; case 1: s = sizeof(T) == 4 ? "-3.5e38" : "-1.8e308"; want = RANGE; break;
        case 2: s = sizeof(T) == 4 ? "3.4e38" : "1.7e308"; want = OK; break; case 3: s = sizeof(T) == 4 ? "-3.4e38" : "-1.7e308"; want = OK; break;
        case 4: s = "1e9999"; want = RANGE; break; case 5: s = "-1e9999"; want = RANGE; break; case 6: s = "inf"; want = RANGE; break; case 7: s = "-inf"; want = RANGE; break; case 8: s = "nan"; want = RANGE; break; default: s = ""; want = INVALID; }
    T got{}; size_t used; int r = run<T>(s, got, used); if (want == RANGE && (s.find('n') != std::string::npos)) CK(13, r == RANGE || r == INVALID, "infinity or NaN accepted as a value"); else CK(13, r == want, "real limits"); if (want == OK) CK(13, got == (T)(s[0] == '-' ? -1 : 1) * (T)(sizeof(T) == 4 ? 3.4e38 : 1.7e308), "wrong real value near the limit");
}
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 21))
#endif
void sx_test() {
    switch (HT) {
    case 0: shortInt<int32_t>(); break; case 1: shortInt<int16_t>(); break; case 2: shortInt<uint64_t>(); break; case 3: shortInt<uint8_t>(); break;
    case 4: longInt<int32_t>("2147483647", 3, false); break; case 5: longInt<int32_t>("2147483648", 3, true); break; case 6: longInt<int16_t>("32767", 3, false); break; case 7: longInt<int16_t>("32768", 3, true); break;
    case 8: longInt<int64_t>("9223372036854775807", 2, false); break; case 9: longInt<int64_t>("9223372036854775808", 2, true); break; case 10: longInt<uint64_t>("18446744073709551615", 2, false); break;
    case 11: negUnsigned<uint64_t>(); break; case 12: negUnsigned<uint32_t>(); break; case 13: shortReal<float>(true); break; case 14: shortReal<double>(true); break; case 15: digitsReal<float>(); break; case 16: digitsReal<double>(); break;
    case 17: limitReal<float>(); break; case 18: limitReal<double>(); break; case 19: longInt<uint32_t>("4294967295", 3, false); break; case 20: shortReal<float>(false); break; case 21: shortReal<double>(false); break; }
}
