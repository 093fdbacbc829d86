// C17: container and range utilities against their mathematical definition.
#include <vector>
#include "utils/CoverCounters.hpp"
#include "utils/SortedArray.hpp"
#include "utils/SparseBinMat.hpp"
#include "utils/sort.hpp"
#include "utils/utility.hpp"
#include "core/Instance.hpp"
#include "ck.h"
using namespace cft;
#ifndef HX
#define HX 0
#endif
// bounded sorted array of element numbers, ordered by a symbolic key per element
template <class KeyT, size_t Nm> void sorted(int cnt, bool viaInsert, bool mid) {
    std::vector<KeyT> key(cnt); for (auto& k : key) k = std::is_floating_point<KeyT>::value ? (KeyT)sx_real("key", -64, 64, 2) : (KeyT)sx_int("key", -1000000000, 1000000000);
    auto a = make_custom_key_sorted_array<int, Nm>([&](int e) { return key[e]; }); int from = 0;
    for (int e = 0; e < cnt; ++e) {
        if (mid && e == cnt / 2) { a.clear(); CK(17, a.size() == 0 && a.begin() == a.end(), "cleared array is not empty"); from = e; }
        size_t before = a.size(); bool full = before == Nm; KeyT worst = full ? key[a.back()] : KeyT{}; bool in = true;
        if (viaInsert && !full) a.insert(e); else in = a.try_insert(e);
        if (!full) CK(17, in && a.size() == before + 1, "element not inserted although there is room"); else { CK(17, a.size() == Nm, "size changed although the array is full"); CK(17, key[e] < worst ? in : key[e] > worst ? !in : true, "wrong answer whether the element is among the smallest"); }
        for (size_t i = 0; i < a.size(); ++i) { int x = a[i]; CK(17, x >= from && x <= e, "array holds an element never inserted"); if (i) CK(17, !(key[x] < key[a[i - 1]]), "array is not sorted"); for (size_t k = 0; k < i; ++k) CK(17, a[k] != x, "array holds an element twice"); }
        for (int o = from; o <= e; ++o) { bool held = false; for (int x : a) if (x == o) held = true; if (!held) { CK(17, a.size() == Nm, "element lost"); CK(17, !(key[o] < key[a.back()]), "array does not hold the smallest keys"); sx_cover("dropped"); } }
        CK(17, a.back() == a[a.size() - 1] && a.end() - a.begin() == (long)a.size(), "accessors disagree");
    }
    for (int x : a) obs(x); sx_cover("sorted array");
}
template <size_t Nm> void plain(int cnt) { // identity key, move-in values
    SortedArray<int, Nm> a; std::vector<int> v; for (int e = 0; e < cnt; ++e) { int x = sx_int("v", -5, 5); a.try_insert(x); v.push_back(x); }
    for (size_t i = 0; i < a.size(); ++i) { if (i) CK(17, a[i - 1] <= a[i], "array is not sorted"); int ca = 0, cv = 0, less = 0; for (size_t k = 0; k < a.size(); ++k) ca += a[k] == a[i]; for (int x : v) { cv += x == a[i]; less += x < a[i]; } CK(17, ca <= cv, "value held more often than inserted"); CK(17, less < (int)Nm, "array does not hold the smallest values"); }
    CK(17, a.size() == std::min((size_t)cnt, Nm), "wrong size"); obs(a[0]);
}
static std::vector<int> subset(int n) { std::vector<int> s; for (int i = 0; i < n; ++i) if (sx_bool("in")) s.push_back(i); return s; }
static void counters(int n, int ops) { // any history of cover / uncover / reset
    int const top = n + 1; CoverCounters c(sx_bool("ctor") ? n : 0); if (c.size() == 0) c.reset(n); std::vector<uint32_t> r(n, 0);
    for (int q = 0; q < ops; ++q) {
        auto s = subset(n); bool red = true, redu = true; for (int i : s) { if (r[i] == 0) red = false; if (r[i] <= 1) redu = false; }
        CK(17, c.is_redundant_cover(s) == red, "wrong answer to 'already covered'"); CK(17, c.is_redundant_uncover(s) == redu, "wrong answer to 'still covered without it'");
        switch (sx_pin(sx_int("op", 0, 3))) {
        case 0: case 1: { size_t want = 0; for (int i : s) { want += r[i] == 0; ++r[i]; } CK(17, c.cover(s) == want, "wrong number of newly covered elements"); break; }
        case 2: { size_t want = 0; for (int i : s) { sx_assume(r[i] > 0); --r[i]; want += r[i] == 0; } CK(17, c.uncover(s) == want, "wrong number of newly uncovered elements"); sx_cover("uncovered"); break; }
        default: n = sx_pin(sx_int("size", 1, top)); c.reset(n); r.assign(n, 0); sx_cover("counters reset"); }
        CK(17, c.size() == (size_t)n, "wrong size"); for (int i = 0; i < n; ++i) CK(17, c[i] == r[i], "counter is not the number of covers minus uncovers");
    }
    sx_cover("counters");
}
static void countersAny(int n) { // one operation from any state
    CoverCounters c(n); std::vector<uint32_t> r(n); for (int i = 0; i < n; ++i) c.cov_counters[i] = r[i] = sx_u32("count"); auto s = subset(n);
    bool red = true, redu = true; for (int i : s) { red = red & (r[i] != 0); redu = redu & (r[i] > 1); }
    CK(17, c.is_redundant_cover(s) == red, "wrong answer to 'already covered'"); CK(17, c.is_redundant_uncover(s) == redu, "wrong answer to 'still covered without it'");
    if (sx_bool("cover")) { size_t w = 0; for (int i : s) { sx_assume(r[i] != 0xffffffffu); w += r[i] == 0; ++r[i]; } CK(17, c.cover(s) == w, "wrong number of newly covered elements"); }
    else { size_t w = 0; for (int i : s) { sx_assume(r[i] != 0); --r[i]; w += r[i] == 0; } CK(17, c.uncover(s) == w, "wrong number of newly uncovered elements"); }
    for (int i = 0; i < n; ++i) CK(17, c[i] == r[i], "counter is not the number of covers minus uncovers"); sx_cover("any state");
}
struct Rec { int id; int v; float f; };
static std::vector<Rec> recs(int n) { std::vector<Rec> v(n); for (int i = 0; i < n; ++i) v[i] = {i, sx_int("v", -1000, 1000), sx_real("f", -64, 64, 2)}; return v; }
static void permutation(std::vector<Rec> const& v, std::vector<Rec> const& o) { CK(17, v.size() == o.size(), "elements lost or added"); std::vector<char> seen(o.size(), 0); for (auto const& r : v) { int id = sx_pin(r.id); CK(17, id >= 0 && id < (int)o.size() && !seen[id], "result is not a permutation"); seen[id] = 1; CK(17, r.v == o[id].v && r.f == o[id].f, "element changed"); } }
static void sorting(int n, bool real) { auto v = recs(n), o = v; if (real) cft::sort(v, [](Rec const& r) { return r.f; }); else cft::sort(v, [](Rec const& r) { return r.v; });
    permutation(v, o); for (int i = 1; i < n; ++i) CK(17, real ? v[i - 1].f <= v[i].f : v[i - 1].v <= v[i].v, "result is not sorted"); sx_cover("sort"); for (auto& r : v) obs(r.id); }
static void nth(int n, bool real) { auto v = recs(n), o = v; int k = sx_pin(sx_int("nth", 0, n - 1)); if (real) cft::nth_element(v, k, [](Rec const& r) { return r.f; }); else cft::nth_element(v, k, [](Rec const& r) { return r.v; });
    permutation(v, o); for (int i = 0; i < n; ++i) { if (i < k) CK(17, real ? v[i].f <= v[k].f : v[i].v <= v[k].v, "an element before the n-th is larger"); if (i > k) CK(17, real ? v[k].f <= v[i].f : v[k].v <= v[i].v, "an element after the n-th is smaller"); } sx_cover("nth"); for (auto& r : v) obs(r.id); }
static void bigSort(int n) { // longer ranges: introsort partitioning, 3 symbolic keys among fixed ones
    std::vector<Rec> v(n); for (int i = 0; i < n; ++i) v[i] = {i, (i * 7 + 3) % n * 4, 0}; int at[3] = {1, n / 2, n - 2}; for (int q = 0; q < 2 + HX; ++q) v[at[q]].v = sx_int("v", -1000, 1000); auto o = v; bool full = sx_bool("sort"); int k = full ? 0 : sx_pin(sx_int("nth", 0, 2)) * (n - 1) / 2;
    if (full) cft::sort(v, [](Rec const& r) { return r.v; }); else cft::nth_element(v, k, [](Rec const& r) { return r.v; });
    permutation(v, o); for (int i = 0; i + 1 < n; ++i) if (full) CK(17, v[i].v <= v[i + 1].v, "result is not sorted"); else CK(17, i < k ? v[i].v <= v[k].v : v[k].v <= v[i + 1].v, "n-th element partition is wrong"); sx_cover("long range"); }
static void filter(int n) { auto v = recs(n), o = v; std::vector<char> rm(n); for (auto& b : rm) b = sx_bool("rm"); cft::remove_if(v, [&](Rec const& r) { return rm[r.id] != 0; });
    size_t w = 0; for (int i = 0; i < n; ++i) if (!rm[i]) { CK(17, w < v.size() && v[w].id == i && v[w].v == o[i].v, "filtering does not keep exactly the other elements in order"); ++w; } CK(17, w == v.size(), "filtering keeps an element to be removed"); sx_cover("filter");
    bool a = false, all_ = true; for (auto& r : o) { if (r.v > 7) a = true; else all_ = false; } CK(17, cft::any(o, [](Rec const& r) { return r.v > 7; }) == a, "any"); CK(17, cft::all(o, [](Rec const& r) { return r.v > 7; }) == all_, "all"); }
static void minimum(int n) { auto v = recs(n); auto m = cft::range_min(v, [](Rec const& r) { return r.v; }); bool in = false; for (auto& r : v) { CK(17, m.v <= r.v, "range_min is not the minimum"); if (r.id == m.id && r.v == m.v && r.f == m.f) in = true; } CK(17, in, "range_min is not an element"); 
    auto mf = cft::range_min(v, [](Rec const& r) { return r.f; }); for (auto& r : v) CK(17, mf.f <= r.f, "range_min is not the minimum"); sx_cover("range_min"); }
static void scalars() { int a = sx_int("a", -100000, 100000), b = sx_int("b", -100000, 100000), c = sx_int("c", -100000, 100000); 
    int mn = cft::min(a, b, c), mx = cft::max(a, b, c); CK(17, mn <= a && mn <= b && mn <= c && (mn == a || mn == b || mn == c), "min of several values"); CK(17, mx >= a && mx >= b && mx >= c && (mx == a || mx == b || mx == c), "max of several values");
    CK(17, cft::min(a, b) == (a < b ? a : b) && cft::max(a, b) == (a < b ? b : a), "min/max of two values"); CK(17, cft::abs(a) == (a < 0 ? -a : a), "abs");
    if (b <= c) { int k = cft::clamp(a, b, c); CK(17, k == (a < b ? b : a > c ? c : a), "clamp"); }
    float x = sx_real("x", -64, 64, 3), y = sx_real("y", -64, 64, 3), z = sx_real("z", -64, 64, 3); CK(17, cft::min(x, y, z) <= x && cft::min(x, y, z) <= y && cft::min(x, y, z) <= z, "min of several values"); CK(17, cft::max(x, y, z) >= x && cft::max(x, y, z) >= y && cft::max(x, y, z) >= z, "max of several values"); CK(17, cft::abs(x) == (x < 0 ? -x : x), "abs"); if (y <= z) CK(17, cft::clamp(x, y, z) == (x < y ? y : x > z ? z : x), "clamp"); sx_cover("scalars"); }
static void matrix() { // columns come back as stored
    SparseBinMat<int16_t> m; std::vector<std::vector<int16_t>> r; CK(17, m.empty() && m.size() == 0, "new matrix is not empty");
    int n = sx_int("cols", 0, 3); for (int j = 0; j < n; ++j) { std::vector<int16_t> c(sx_pin(sx_int("len", 0, 3))); for (auto& e : c) e = (int16_t)sx_int("row", -32768, 32767); if (j == 1 && sx_bool("list")) { int16_t a = sx_int("row", 0, 9); m.push_back({a, (int16_t)7}); r.push_back({a, 7}); } else { m.push_back(c); r.push_back(c); } }
    if (sx_bool("clear")) { m.clear(); r.clear(); std::vector<int16_t> c{3, 1}; m.push_back(c); r.push_back(c); }
    CK(17, m.size() == r.size() && m.empty() == r.empty(), "wrong number of columns"); SparseBinMat<int16_t> const& k = m;
    for (size_t j = 0; j < r.size(); ++j) { CK(17, m[j].size() == r[j].size() && k[j].size() == r[j].size() && m[j].empty() == r[j].empty(), "column has the wrong length"); for (size_t q = 0; q < r[j].size(); ++q) CK(17, m[j][q] == r[j][q] && k[j][q] == r[j][q] && *(m[j].begin() + q) == r[j][q], "column entry differs from what was stored"); if (!r[j].empty()) CK(17, m[j].back() == r[j].back() && m[j].end() - m[j].begin() == (long)r[j].size(), "column accessors disagree"); }
    sx_cover("matrix");
}
static void rowsFromCols(int mm, int n) { // row lists are the transpose, also when reused
    SparseBinMat<ridx_t> c; std::vector<std::vector<char>> in(n, std::vector<char>(mm)); for (int j = 0; j < n; ++j) { std::vector<ridx_t> v; for (int i = 0; i < mm; ++i) if ((in[j][i] = sx_bool("in"))) v.push_back(i); c.push_back(v); }
    std::vector<std::vector<cidx_t>> rows; if (sx_bool("reused")) rows = {{4, 5}, {6}, {}, {7}, {8, 9}}; fill_rows_from_cols(c, mm, rows); CK(17, (int)rows.size() == mm, "wrong number of rows");
    for (int i = 0; i < mm; ++i) { size_t w = 0; for (int j = 0; j < n; ++j) if (in[j][i]) { CK(17, w < rows[i].size() && rows[i][w] == j, "row list is not the transpose of the columns"); ++w; } CK(17, w == rows[i].size(), "row list has extra entries"); }
    Instance a, b; a.cols = c; a.rows = rows; for (int j = 0; j < n; ++j) a.costs.push_back(sx_real("cost", -64, 64, 2)); for (int j = n - 1; j >= 0; --j) push_back_col_from(a, j, b); for (int j = 0; j < n; ++j) { int k = n - 1 - j; CK(17, b.costs[k] == a.costs[j] && b.cols[k].size() == a.cols[j].size(), "copied column differs"); for (size_t q = 0; q < a.cols[j].size(); ++q) CK(17, b.cols[k][q] == a.cols[j][q], "copied column differs"); }
    clear_inst(a); CK(17, a.cols.empty() && a.rows.empty() && a.costs.empty(), "cleared instance is not empty"); sx_cover("transpose");
}
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 20))
#endif
void sx_test() { switch (HT) { case 0: sorted<int, 3>(5 + HX, false, false); break; case 1: sorted<float, 5>(6 + HX, false, false); break; case 2: sorted<int, 2>(5 + HX, true, true); break; case 3: sorted<int, 1>(4, false, false); break; case 4: plain<3>(4 + HX); break;
    case 5: counters(2, 3 + (HX > 0)); break; case 6: counters(3, 2); break; case 7: countersAny(4 + HX); break; case 8: sorting(5 + HX, false); break; case 9: sorting(4 + HX, true); break; case 10: nth(5 + HX, false); break; case 11: nth(4 + HX, true); break; case 12: bigSort(20); break; case 13: filter(6); break; case 14: minimum(5 + HX); break; case 15: scalars(); break; case 16: matrix(); break; case 17: rowsFromCols(3, 3); break; case 18: rowsFromCols(2, 4 + HX); break; case 19: filter(0); break; case 20: bigSort(17); break; } }
