// C08 (greedy choice, limits, cover), C09 (redundancy removal), C02 (reported cost) on the real Greedy.
#include "common.h"
#include "greedy/Greedy.hpp"
#include "ck.h"
using namespace h;
#ifndef HM
#define HM 3
#endif
#ifndef HN
#define HN 4
#endif
#ifndef HX
#define HX 0
#endif
static const float BIG = limits<real_t>::max();
static void warm(Greedy& g) { Shape s; s.m = 4; s.n = 5; for (int i = 0; i < 4; ++i) for (int j = 0; j < 5; ++j) s.in[i][j] = (i * 3 + j) % 2 || j == 4; Instance o = build(s); for (int j = 0; j < 5; ++j) o.costs[j] = j + 1; std::vector<cidx_t> sol{0}; g(o, {1, 2, 1, 2}, o.costs, sol); }
struct Score { double num, den; }; // gamma/mu or gamma*mu as an exact fraction
static Score score(double gamma, int mu) { return mu == 0 ? Score{1e9, 1} : gamma > 0 ? Score{gamma, (double)mu} : Score{gamma * mu, 1}; }
static bool below(Score a, Score b, double margin) { return a.num * b.den + margin < b.num * a.den; }
// cheapest subset of `v` covering the rows v covers
static double cheapest(Instance const& o, std::vector<cidx_t> const& v) {
    std::vector<char> need(o.rows.size(), 0); for (auto j : v) for (ridx_t i : o.cols[j]) need[i] = 1; double best = 1e30;
    for (int b = 0; b < (1 << v.size()); ++b) { std::vector<char> c(need.size(), 0); double k = 0; for (size_t q = 0; q < v.size(); ++q) if (b >> q & 1) { k += o.costs[v[q]]; for (ridx_t i : o.cols[v[q]]) c[i] = 1; }
        if (c != need) continue; if (v.size() > 6) { std::vector<int> n(need.size(), 0); bool spare = false; for (size_t q = 0; q < v.size(); ++q) if (b >> q & 1) for (ridx_t i : o.cols[v[q]]) ++n[i]; for (size_t q = 0; q < v.size() && !spare; ++q) if (b >> q & 1) { spare = true; for (ridx_t i : o.cols[v[q]]) if (n[i] < 2) spare = false; } if (spare) continue; } // no cheaper than a part of it
        if (k < best) best = k; } return best;
}
static std::vector<char> cov(Instance const& o, std::vector<cidx_t> const& v) { std::vector<char> c(o.rows.size(), 0); for (auto j : v) for (ridx_t i : o.cols[j]) c[i] = 1; return c; }
// The columns greedy has to pick, in order; inputs where two columns tie at some step are excluded.
static std::vector<cidx_t> reference(Instance const& o, std::vector<real_t> const& u, std::vector<real_t> const& rc, std::vector<cidx_t> const& init, cidx_t maxsz, double margin = 0.0625) {
    size_t n = o.cols.size(); std::vector<cidx_t> ref = init; std::vector<char> c = cov(o, ref);
    while ((cidx_t)ref.size() < maxsz) {
        bool left = false; for (char x : c) if (!x) left = true; if (!left) break;
        std::vector<Score> sc(n); for (size_t j = 0; j < n; ++j) { double g = rc[j]; int mu = 0; for (ridx_t i : o.cols[j]) if (c[i]) g += u[i]; else ++mu; sc[j] = score(g, mu); }
        size_t b = 0; for (size_t j = 1; j < n; ++j) if (below(sc[j], sc[b], 0)) b = j;
        for (size_t j = 0; j < n; ++j) if (j != b) sx_assume(below(sc[b], sc[j], margin));
        ref.push_back(b); for (ridx_t i : o.cols[b]) c[i] = 1;
    }
    return ref;
}
// A run of greedy: `ref` = the picks of the reference (null if ties are allowed), then the cheapest irredundant part of them.
static void check(Instance const& o, std::vector<cidx_t> const& init, std::vector<cidx_t> const& sol, double ret, float cutoff, cidx_t maxsz, std::vector<cidx_t> const* refp) {
    size_t n = o.cols.size();
    CK(8, distinctInRange(sol, n), "greedy solution has a repeated or invalid column");
    if ((cidx_t)init.size() >= maxsz) { CK(8, ret >= cutoff, "no column may be added but a cost below the cutoff is reported"); CK(8, sol == init, "columns added beyond the size limit"); sx_cover("full"); return; }
    CK(8, (cidx_t)sol.size() <= maxsz, "more columns than allowed");
    if (ret >= cutoff) { sx_cover("cutoff"); } else {
        CK(2, ret == sumCost(o, sol), "greedy's cost is not the cost of its columns"); CK(9, ret == sumCost(o, sol), "cost after redundancy removal is not the cost of the columns kept");
        auto c = cov(o, sol); bool all = true; for (char x : c) if (!x) all = false;
        if ((size_t)maxsz >= n) { CK(8, all, "greedy solution below the cutoff does not cover every row"); CK(1, all, "greedy solution below the cutoff does not cover every row"); }
        if (ON(8)) for (size_t q = 0; q < sol.size(); ++q) { auto v = sol; v.erase(v.begin() + q); CK(8, !(cov(o, v) == c), "a column of the greedy solution can be dropped"); }
        sx_cover(all ? "solution" : "partial solution");
    }
    bool open = false; for (char x : cov(o, init)) if (!x) open = true;
    if (!open) { CK(8, ret >= cutoff || sol.size() <= init.size(), "columns added although every row was covered"); return; }
    if (!refp) return;
    auto const& ref = *refp; if (ref.size() > init.size() + 1) sx_cover("several picks");
    double best = cheapest(o, ref);
    if (best >= cutoff) { CK(9, ret >= cutoff, "cost below the cutoff reported but no part of the picked columns is that cheap"); CK(8, ret >= cutoff, "cost below the cutoff reported but the picked columns cost more"); return; }
    for (auto j : sol) CK(8, std::find(ref.begin(), ref.end(), j) != ref.end(), "greedy did not pick a column of minimal score");
    CK(8, cov(o, sol) == cov(o, ref), "greedy stopped early or dropped a needed column");
    CK(9, ret == best, "columns kept are not the cheapest part of the picked columns"); CK(8, ret < cutoff, "cheap solution reported as above the cutoff");
}
static void full(int m, int n, bool warmed, bool withInit, bool lim, bool ties, int bits = 1) { // bits: values are multiples of 2^-bits
    Shape s = symShape(m, n); sx_assume(feasible(s) && noEmptyCol(s)); Instance o = build(s); std::vector<real_t> u(m), rc(n);
    for (auto& c : o.costs) c = sx_real("cost", 0, 32 << bits, bits); for (auto& x : u) x = sx_real("mult", 0, 32 << bits, bits);
    for (int j = 0; j < n; ++j) { rc[j] = o.costs[j]; for (ridx_t i : o.cols[j]) rc[j] -= u[i]; }
    std::vector<cidx_t> sol; if (withInit) { int a = sx_pin(sx_int("init", 0, n)); if (a < n) sol.push_back(a); if (a == 0 && sx_bool("two")) sol.push_back(n - 1); }
    float cutoff = BIG; cidx_t mx = limits<cidx_t>::max(); if (lim) { if (sx_bool("cut")) cutoff = sx_real("cutoff", 1, 200, 1); else mx = sx_pin(sx_int("max", 0, n)); }
    auto init = sol; std::vector<cidx_t> ref; if (!ties) ref = reference(o, u, rc, init, mx, bits == 1 ? 0.0625 : 1e-4); if (bits > 1) sx_cover("fine");
    Greedy g; if (warmed) warm(g); double ret = g(o, u, rc, sol, cutoff, mx); check(o, init, sol, ret, cutoff, mx, ties ? nullptr : &ref); obs(ret); for (auto j : sol) obs((int)j);
}
// fixed structures with longer runs, so that the window of good scores shrinks and is refilled
static void window(int m, int n, int kind, int nsym, bool warmed) {
    static const unsigned char P[3][12] = {{0x0f, 0x33, 0x55, 0xc3, 0x18, 0x81, 0x66, 0xe0, 0x04, 0x99}, {0x01, 0x03, 0x06, 0x0c, 0x18, 0x30, 0x60, 0xc0, 0x90, 0x21}, {0x07, 0x1c, 0x70, 0xc1, 0x11, 0x22, 0x44, 0x88, 0x5a, 0xa5}};
    Shape s; s.m = m; s.n = n; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) s.in[i][j] = P[kind][j] >> i & 1; sx_assume(feasible(s) && noEmptyCol(s)); Instance o = build(s);
    std::vector<real_t> u(m), rc(n); for (int i = 0; i < m; ++i) u[i] = (i * 5 % 4) + 0.25f; for (int j = 0; j < n; ++j) o.costs[j] = (j * 7 + n - nsym) % n < nsym ? sx_real("cost", 0, 96, 3) : 1 + j * 3 % 5 + j * 0.125f;
    for (int j = 0; j < n; ++j) { rc[j] = o.costs[j]; for (ridx_t i : o.cols[j]) rc[j] -= u[i]; }
    auto ref = reference(o, u, rc, {}, limits<cidx_t>::max()); std::vector<cidx_t> sol; Greedy g; if (warmed) warm(g); double ret = g(o, u, rc, sol); check(o, {}, sol, ret, BIG, limits<cidx_t>::max(), &ref); obs(ret);
}
// Redundancy removal on its own: any solution, any cutoff
static void checkRedund(Instance const& o, std::vector<cidx_t> const& sol, float cutoff) {
    RedundancyData d; size_t m = o.rows.size(); d.total_cover.reset(m); for (auto j : sol) d.total_cover.cover(o.cols[j]);
    complete_init_redund_set(o, sol, cutoff, d); size_t nr = d.redund_set.size(); bool small = nr <= 10;
    if (d.partial_cost < d.best_cost) {
        for (auto const& x : d.redund_set) { auto v = sol; v.erase(std::find(v.begin(), v.end(), x.idx)); CK(9, cov(o, v) == cov(o, sol), "a needed column is called redundant"); }
        size_t k = 0; for (size_t q = 0; q < sol.size(); ++q) { auto v = sol; v.erase(v.begin() + q); if (cov(o, v) == cov(o, sol)) ++k; } CK(9, k == nr, "a redundant column is not recognised");
    }
    heuristic_removal(o, d); if (!small) sx_cover("heuristic");
    CK(9, d.partial_cost >= d.best_cost || d.redund_set.size() <= 10 || d.partial_cov_count == (ridx_t)m, "heuristic removal stopped too early"); if (d.redund_set.size() > 10) return;
    enumeration_removal(o, d);
    std::vector<cidx_t> kept; CK(9, distinctInRange(d.cols_to_remove, o.cols.size()), "columns to remove are repeated or invalid"); for (auto r : d.cols_to_remove) CK(9, std::find(sol.begin(), sol.end(), r) != sol.end(), "a column outside the solution is removed");
    for (auto j : sol) if (std::find(d.cols_to_remove.begin(), d.cols_to_remove.end(), j) == d.cols_to_remove.end()) kept.push_back(j);
    CK(9, cov(o, kept) == cov(o, sol), "removing redundant columns uncovers a row");
    if (d.redund_set.empty()) return; // nothing left to enumerate: the caller takes partial_cost
    if (small) { double b = cheapest(o, sol); if (b < cutoff) { CK(9, d.best_cost == b, "enumeration does not find the cheapest subset"); CK(9, sumCost(o, kept) == b, "the columns kept are not the cheapest subset"); sx_cover("optimal"); } else { CK(9, d.best_cost >= cutoff, "cost below the cutoff although no subset is that cheap"); sx_cover("none below cutoff"); } }
    else if (d.best_cost < cutoff) { CK(9, (double)d.best_cost == sumCost(o, kept), "reported cost does not match the columns kept"); sx_cover("heuristic cost"); }
    obs((double)d.best_cost);
}
static void redund(int m, int n) {
    Shape s = symShape(m, n); sx_assume(noEmptyCol(s)); Instance o = build(s); for (auto& c : o.costs) c = sx_real("cost", 0, 64, 1);
    std::vector<cidx_t> sol; for (int j = 0; j < n; ++j) sol.push_back(j); if (sx_bool("rev")) std::reverse(sol.begin(), sol.end());
    float cutoff = sx_bool("cut") ? sx_real("cutoff", 0, 64 * n, 1) : BIG; checkRedund(o, sol, cutoff);
}
static void redundBig(int n, int nsymcol, int nsymcost) { // many redundant columns over 4 rows
    Shape s; s.m = 4; s.n = n; for (int j = 0; j < n; ++j) for (int i = 0; i < 4; ++i) s.in[i][j] = j < nsymcol ? (bool)sx_bool("in") : ((j + 1) * 5 >> i & 1) || (j % 4 == i);
    sx_assume(feasible(s) && noEmptyCol(s)); Instance o = build(s); for (int j = 0; j < n; ++j) o.costs[j] = j < nsymcost ? sx_real("cost", 0, 256, 3) : 3 + j * 5 % n + j * 0.125f;
    std::vector<cidx_t> sol; for (int j = 0; j < n; ++j) sol.push_back(j); checkRedund(o, sol, BIG);
}
// a solution of n redundant columns: n - 1 small ones and one that covers all, or two halves of which each has a spare column
static void redundTen(int n, int nsym) {
    Instance o; bool halves = sx_pin(sx_int("halves", 0, 1)); int m = n - 1 - halves; o.rows.resize(m); auto add = [&](std::vector<ridx_t> v, real_t c) { cidx_t j = o.cols.size(); o.cols.push_back(v); for (auto i : v) o.rows[i].push_back(j); o.costs.push_back(c); };
    std::vector<ridx_t> a, b; for (int i = 0; i < m; ++i) (halves && i >= m / 2 ? b : a).push_back(i); bool front = sx_pin(sx_int("front", 0, 1)); auto big = [&] { add(a, sx_real("costA", 0, 128, 2)); if (halves) add(b, HX ? (real_t)sx_real("costB", 0, 128, 2) : 1.75f); };
    if (front) big(); for (int i = 0; i < m; ++i) add({(ridx_t)i}, i < nsym ? sx_real("cost", 0, 128, 2) : 1 + i * 3 % m * 0.25f); if (!front) big();
    std::vector<cidx_t> sol; for (int j = 0; j < n; ++j) sol.push_back(j); checkRedund(o, sol, (HX || !halves) && sx_bool("cut") ? sx_real("cutoff", 0, 256, 2) : BIG); sx_cover("as many as are enumerated");
}
// one expensive column B over k rows and k cheap columns, each covering one row of B and one of C: after removing B nothing is redundant any more
static void cascade(int k, bool extra) {
    Shape s; s.m = 2 * k + 1; s.n = k + 2; 
    Instance o; o.rows.resize(2 * k + 1); auto add = [&](std::vector<ridx_t> v, real_t c) { cidx_t j = o.cols.size(); o.cols.push_back(v); for (auto i : v) o.rows[i].push_back(j); o.costs.push_back(c); };
    std::vector<ridx_t> b, c; for (int i = 0; i < k; ++i) b.push_back(i), c.push_back(k + i); c.push_back(2 * k);
    add(b, sx_real("costB", 1, 800, 2)); for (int i = 0; i < k; ++i) add({(ridx_t)i, (ridx_t)(k + i)}, i < 2 ? sx_real("cost", 1, 200, 2) : 2 + i * 0.25f); add(c, sx_real("costC", 1, 800, 2)); if (extra) add(b, sx_real("costB2", 1, 800, 2));
    int n = o.cols.size(); std::vector<real_t> u(2 * k + 1, 0), rc(n); rc = o.costs; rc[0] = -1000; for (int i = 0; i < k; ++i) rc[1 + i] = -500 + i; rc[k + 1] = 5; if (extra) rc[k + 2] = -2000; // scores given directly: B (and its copy) first, then the pairs, then C
    std::vector<cidx_t> sol; if (extra) sol.push_back(0); auto init = sol; Greedy g; double ret = g(o, u, rc, sol); check(o, init, sol, ret, BIG, limits<cidx_t>::max(), nullptr); auto cv = cov(o, sol); for (char x : cv) CK(9, x, "a row is uncovered after redundancy removal"); sx_cover("cascade"); obs(ret); for (auto j : sol) obs((int)j);
}
#ifndef HT
#define HT sx_pin(sx_int("test", 0, ON(9) ? 14 : 13))
#endif
#ifndef HS
#define HS 2
#endif
#ifndef HR
#define HR 2
#endif
void sx_test() { switch (HT) { case 0: full(3, 3, false, false, false, false); break; case 1: full(2, 3 + HX, true, true, true, false); break; case 2: full(2, 3 + HX, false, true, true, true); break; case 3: window(8, 9, 0, HS, false); break; case 4: window(8, 10, 1, HS, true); break; case 5: window(8, 10, 2, HS, false); break;
    case 6: redund(3, 3 + HX); break; case 7: redund(2, 4 + HX); break; case 8: redundBig(13, 1, HR); break; case 9: redundBig(12, 2, HR - 1); break; case 10: cascade(11, false); break; case 11: cascade(11, true); break; case 12: full(3 + HX, 3, false, true, false, true); break; case 13: full(2, 2 + HX, false, false, false, false, 12); break; case 14: redundTen(sx_pin(sx_int("redundant", 6, 10)), HX); break; } }
