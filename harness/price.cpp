// C07 (core instance, priced value) and C04 (the value never exceeds the cost of a cover).
#include "common.h"
#include "subgradient/Pricer.hpp"
#include "ck.h"
using namespace h;
#ifndef HM
#define HM 2
#endif
#ifndef HN
#define HN 4
#endif
static void checkCore(Instance const& o, std::vector<real_t> const& u, InstAndMap const& core, real_t val, bool bound) {
    size_t m = o.rows.size(), n = o.cols.size(); std::vector<double> rc(n); double want = 0; for (auto x : u) want += x;
    for (size_t j = 0; j < n; ++j) { rc[j] = o.costs[j]; for (ridx_t i : o.cols[j]) rc[j] -= u[i]; if (ON(7)) { if (rc[j] < 0) want += rc[j]; } }
    CK(7, (double)val == want, "priced value is not the sum of the multipliers plus all negative reduced costs");
    if (ON(7)) {
        CK(7, distinctInRange(core.col_map, n), "core columns are not distinct columns of the instance");
        CK(7, core.inst.rows.size() == m && core.inst.cols.size() == core.col_map.size() && consistent(core.inst), "core instance is inconsistent");
        std::vector<char> in(n, 0);
        for (size_t c = 0; c < core.col_map.size(); ++c) { auto j = core.col_map[c]; in[j] = 1; CK(7, core.inst.costs[c] == o.costs[j], "core column has another cost");
            CK(7, core.inst.cols[c].size() == o.cols[j].size(), "core column has other rows"); for (ridx_t i : o.cols[j]) CK(7, has(core.inst, c, i), "core column has other rows"); }
        for (size_t i = 0; i < m; ++i) for (auto j : o.rows[i]) if (!in[j]) { int better = 0; for (auto c : o.rows[i]) if (in[c] && rc[c] <= rc[j]) ++better; CK(7, better >= 5, "row does not keep its five columns of smallest reduced cost"); sx_cover("dropped column"); }
    }
    if (ON(7)) { // and little more: the rest has reduced cost below 0.1, at most five such columns per row
        CK(7, core.col_map.size() <= 10 * m, "core keeps more than ten columns per row");
        for (auto j : core.col_map) { bool ok = rc[j] < 0.1; for (ridx_t i : o.cols[j]) { int better = 0; for (auto c : o.rows[i]) better += rc[c] < rc[j]; ok = ok | (better < 5); } CK(7, ok, "core keeps a column that is neither cheap nor among the five best of a row"); }
    }
    for (size_t i = 0; i < m; ++i) { bool some = o.rows[i].empty(); for (auto j : core.col_map) some |= j >= 0 && (size_t)j < n && has(o, j, i); CK(1, some, "core instance leaves a row without columns: no cover can be found"); }
    CK(1, distinctInRange(core.col_map, n) && core.inst.rows.size() == m && core.inst.cols.size() == core.col_map.size() && consistent(core.inst), "core instance is inconsistent");
    if (ON(1) || ON(2)) for (size_t c = 0; c < core.col_map.size() && c < core.inst.costs.size(); ++c) { auto j = core.col_map[c]; CK(2, core.inst.costs[c] == o.costs[j], "core column has another cost"); CK(1, core.inst.cols[c].size() == o.cols[j].size(), "core column has other rows"); for (ridx_t i : o.cols[j]) CK(1, has(core.inst, c, i), "core column has other rows"); }
    if (ON(4) && bound) for (int b = 1; b < (1 << n); ++b) { std::vector<cidx_t> v; for (size_t j = 0; j < n; ++j) if (b >> j & 1) v.push_back(j); if (h::covers(o, v)) CK(4, (double)val <= sumCost(o, v), "priced bound exceeds the cost of a cover"); }
    sx_cover(val < 0 ? "negative" : "bound"); obs((double)val); obsInst(core.inst); for (auto j : core.col_map) obs((int)j);
}
static void warm(Pricer& p, InstAndMap& core) { Shape s; s.m = 3; s.n = 5; for (int i = 0; i < 3; ++i) for (int j = 0; j < 5; ++j) s.in[i][j] = (i + j) % 2; Instance o = build(s); p(o, {5, 5, 5}, core); }
static void any(int m, int n, bool twice) {
    Shape s = symShape(m, n); sx_assume(feasible(s)); Instance o = build(s); std::vector<real_t> u(m); for (auto& c : o.costs) c = sx_real("cost", -8 << 10, 400 << 10, 12); for (auto& x : u) x = sx_real("mult", 0, 800 << 10, 12);
    Pricer p; InstAndMap core; if (twice) warm(p, core); real_t v = p(o, u, core); checkCore(o, u, core, v, true);
}
// many columns on a row: sorting by reduced cost, the five-per-row rule and the limit of 5 columns per row
static void wide(int n, int low, int nsym) { // `low` columns of row 0 only; the others also cover row 1
    Shape s; s.m = 2; s.n = n; for (int j = 0; j < n; ++j) { s.in[0][j] = j != n - 1; s.in[1][j] = j >= low; }
    Instance o = build(s); std::vector<real_t> u{sx_real("mult", 0, 800, 2), 3}; for (int j = 0; j < n; ++j) o.costs[j] = j < nsym ? sx_real("cost", 0, 800, 2) : (j * 5 % 7 + 20);
    Pricer p; InstAndMap core; real_t v = p(o, u, core); checkCore(o, u, core, v, false); if (core.col_map.size() < (size_t)n) sx_cover("wide dropped");
}
static void rich(int nsym) { // row 1 already has five columns through row 0 when its own columns are looked at
    Shape s; s.m = 2; s.n = 9; for (int j = 0; j < 9; ++j) { s.in[0][j] = j % 3 != 1; s.in[1][j] = j != 8; }
    Instance o = build(s); std::vector<real_t> u{sx_real("mult", 0, 80, 2), 1}; for (int j = 0; j < 9; ++j) o.costs[j] = j >= 4 && j < 4 + nsym ? sx_real("cost", 0, 800, 2) : 30 + j * 5 % 7;
    Pricer p; InstAndMap core; real_t v = p(o, u, core); checkCore(o, u, core, v, false); sx_cover("rich row");
}
static void one(int n) { Shape s; s.m = 1; s.n = n; for (int j = 0; j < n; ++j) s.in[0][j] = true; Instance o = build(s); std::vector<real_t> u{10}; for (auto& c : o.costs) c = sx_real("cost", 0, 80, 2); Pricer p; InstAndMap core; real_t v = p(o, u, core); checkCore(o, u, core, v, true); }
// more than 5*nrows columns of small reduced cost, two rows
static void many(int nsym) {
    int n = 13; Shape s; s.m = 2; s.n = n; for (int j = 0; j < n; ++j) { s.in[0][j] = j != 5; s.in[1][j] = j >= 5 && j < 11; }
    Instance o = build(s); std::vector<real_t> u{40, 40}; for (int j = 0; j < n; ++j) o.costs[j] = j < nsym ? sx_real("cost", 0, 400, 2) : j % 5 + (j & 1 ? 20 : 2); Pricer p; InstAndMap core; real_t v = p(o, u, core); checkCore(o, u, core, v, false); if (core.col_map.size() <= 10) sx_cover("limited");
}
// the columns cut off by that limit can be all columns of a row
static void cutRow() {
    int n = 13; Shape s; s.m = 2; s.n = n; for (int j = 0; j < n; ++j) { s.in[0][j] = j < 11; s.in[1][j] = j >= 11; }
    Instance o = build(s); std::vector<real_t> u{40, 40}; for (int j = 0; j < n; ++j) o.costs[j] = j >= 11 ? sx_real("cost", 0, 400, 2) : j % 5 + (j & 1 ? 20 : 2); Pricer p; InstAndMap core; real_t v = p(o, u, core); checkCore(o, u, core, v, false); sx_cover(core.col_map.size() > 10 ? "row restored" : "cut");
}
#ifndef HV
#define HV 6
#endif
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 6))
#endif
#ifndef HS
#define HS 3
#endif
void sx_test() { switch (HT) { case 0: any(HM, HN, false); break; case 1: any(3, 3, true); break; case 2: wide(8, 5, HS); break; case 3: one(HV); break; case 4: many(HS); break; case 5: cutRow(); break; case 6: rich(HS); break; } }
