// C06 (and C05 sizes): fixing columns leaves exactly the residual problem; maps and costs translate back.
#include "common.h"
#include "fixing/ColFixing.hpp"
#include "ck.h"
using namespace h;
#ifndef HM
#define HM 3
#endif
#ifndef HN
#define HN 4
#endif
// `inst` must be the residual of `o` after fixing the columns fx.fixed_cols
// what the solver relies on: a cover of the residual plus the fixed columns, translated back, is a cover of the original with the cost added up
static void translates(Instance const& o, Instance const& inst, FixingData const& fx) {
    size_t m = o.rows.size(), n = o.cols.size(), c = inst.cols.begs.size() - 1; std::vector<char> cov(m, 0); std::vector<cidx_t> all = fx.fixed_cols; for (auto j : fx.fixed_cols) { CK(1, j >= 0 && (size_t)j < n, "fixed column is no column of the instance"); for (ridx_t i : o.cols[j]) cov[i] = 1; }
    CK(1, fx.curr2orig.col_map.size() == c && fx.curr2orig.row_map.size() == inst.rows.size(), "index maps have the wrong size"); for (auto j : fx.curr2orig.col_map) all.push_back(j);
    CK(1, distinctInRange(all, n), "solution translated back lists a column twice or out of range"); std::vector<char> left(m, 0); for (auto i : fx.curr2orig.row_map) { CK(1, i >= 0 && (size_t)i < m && !left[i], "row map is not injective"); left[i] = 1; }
    for (size_t i = 0; i < m; ++i) CK(1, cov[i] || left[i], "a row covered by no fixed column is missing from the rest of the instance");
    for (size_t k = 0; k < c; ++k) for (ridx_t i : inst.cols[k]) CK(1, i >= 0 && (size_t)i < inst.rows.size() && has(o, fx.curr2orig.col_map[k], fx.curr2orig.row_map[i]), "remaining column covers a row it did not cover");
    double cost = 0; for (auto j : fx.fixed_cols) cost += o.costs[j]; CK(2, (double)fx.fixed_cost == cost, "fixed cost is not the cost of the fixed columns"); for (size_t k = 0; k < c; ++k) CK(2, inst.costs[k] == o.costs[fx.curr2orig.col_map[k]], "cost of a remaining column changed");
}
static void residual(Instance const& o, Instance const& inst, FixingData const& fx) {
    size_t m = o.rows.size(), n = o.cols.size(); if (ON(1) || ON(2)) translates(o, inst, fx); if (!ON(6)) return;
    CK(6, distinctInRange(fx.fixed_cols, n), "fixed columns are not distinct original columns");
    std::vector<char> cov(m, 0), fixd(n, 0); double cost = 0;
    for (auto j : fx.fixed_cols) { fixd[j] = 1; cost += o.costs[j]; for (ridx_t i : o.cols[j]) cov[i] = 1; }
    CK(6, (double)fx.fixed_cost == cost, "fixed cost is not the cost of the fixed columns");
    size_t wr = 0, wc = 0; for (size_t i = 0; i < m; ++i) wr += !cov[i];
    std::vector<char> keep(n, 0); for (size_t j = 0; j < n; ++j) { if (!fixd[j]) for (ridx_t i : o.cols[j]) if (!cov[i]) keep[j] = 1; wc += keep[j]; }
    CK(6, inst.rows.size() == wr, "wrong number of remaining rows"); CK(6, inst.cols.begs.size() == wc + 1, "wrong number of remaining columns");
    CK(6, consistent(inst), "rows and columns of the fixed instance disagree");
    CK(6, fx.curr2orig.col_map.size() == wc && fx.curr2orig.row_map.size() == wr, "index maps have the wrong size");
    CK(6, distinctInRange(fx.curr2orig.col_map, n), "column map is not injective into the original columns");
    for (size_t a = 0; a < wr; ++a) { auto i = fx.curr2orig.row_map[a]; CK(6, i >= 0 && (size_t)i < m && !cov[i], "row map leads to a row that is covered or does not exist"); for (size_t b = 0; b < a; ++b) CK(6, fx.curr2orig.row_map[b] != i, "row map is not injective"); }
    for (size_t c = 0; c < wc; ++c) {
        auto j = fx.curr2orig.col_map[c]; CK(6, keep[j], "column map leads to a fixed or empty column"); CK(6, inst.costs[c] == o.costs[j], "cost of a remaining column changed");
        size_t k = 0; for (ridx_t i : o.cols[j]) k += !cov[i]; CK(6, inst.cols[c].size() == k, "remaining column does not have exactly its uncovered rows");
        for (ridx_t i : inst.cols[c]) CK(6, has(o, j, fx.curr2orig.row_map[i]), "remaining column covers a row it did not cover");
    }
}
static void maps(IdxsMaps const& o2n, IdxsMaps const& before, IdxsMaps const& after) {
    CK(6, o2n.row_map.size() == before.row_map.size() && o2n.col_map.size() == before.col_map.size(), "old-to-new maps have the wrong size");
    if (after.row_map.empty()) { for (auto i : o2n.row_map) CK(6, i == removed_ridx, "row not marked removed although no row is left"); return; }
    size_t k = 0; for (size_t i = 0; i < o2n.row_map.size(); ++i) if (o2n.row_map[i] != removed_ridx) { ++k; auto q = o2n.row_map[i]; CK(6, q >= 0 && (size_t)q < after.row_map.size() && after.row_map[q] == before.row_map[i], "old-to-new row map disagrees with the map to the original"); }
    CK(6, k == after.row_map.size(), "old-to-new row map misses a row"); k = 0;
    for (size_t j = 0; j < o2n.col_map.size(); ++j) if (o2n.col_map[j] != removed_cidx) { ++k; auto q = o2n.col_map[j]; CK(6, q >= 0 && (size_t)q < after.col_map.size() && after.col_map[q] == before.col_map[j], "old-to-new column map disagrees with the map to the original"); }
    CK(6, k == after.col_map.size(), "old-to-new column map misses a column");
}
static std::vector<cidx_t> pick(Instance const& x) { // non-empty list of distinct columns, both orders
    std::vector<cidx_t> v; for (size_t j = 0; j + 1 < x.cols.begs.size(); ++j) if (sx_bool("fix")) v.push_back(j);
    sx_assume(!v.empty()); if (v.size() > 1 && sx_bool("rev")) std::reverse(v.begin(), v.end()); return v;
}
static void chain(int m, int n, int steps) {
    Shape s = symShape(m, n); sx_assume(feasible(s) && noEmptyCol(s)); Instance o = build(s);
    if (sx_bool("flip")) for (int j = 0; j < n; ++j) std::reverse(o.cols[j].begin(), o.cols[j].end()); // rows of a column in another order
    for (auto& c : o.costs) c = sx_real("cost", 0, 8000, 3);
    FixingData fx; fx.fixed_cost = 7; fx.fixed_cols = {3, 1}; make_identity_fixing_data(n, m, fx); Instance inst = o; IdxsMaps o2n; residual(o, inst, fx);
    for (int k = 0; k < steps && !inst.rows.empty(); ++k) {
        auto v = pick(inst); std::vector<cidx_t> all = fx.fixed_cols; for (auto j : v) all.push_back(fx.curr2orig.col_map[j]);
        IdxsMaps before = fx.curr2orig; fix_columns_and_compute_maps(v, inst, fx, o2n);
        auto a = all, b = fx.fixed_cols; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CK(6, a == b, "list of fixed columns is not the columns that were fixed");
        residual(o, inst, fx); maps(o2n, before, fx.curr2orig); sx_cover(inst.rows.empty() ? "all rows fixed" : k ? "chained" : "one fixing"); obsInst(inst);
    }
}
static void colfix(int m, int n, bool two) {
    Shape s = symShape(m, n); sx_assume(feasible(s) && noEmptyCol(s)); Instance o = build(s);
    for (auto& c : o.costs) c = sx_real("cost", 1, 40, 1);
    std::vector<real_t> u(m); for (auto& x : u) x = sx_real("mult", 0, 20, 1);
    FixingData fx; make_identity_fixing_data(n, m, fx); Instance inst = o; ColFixing cf; Greedy g; Environment env; env.verbose = 0; auto u0 = u;
    for (int k = 0; k < (two ? 2 : 1) && !inst.rows.empty(); ++k) {
        size_t before = fx.fixed_cols.size(), rowsBefore = inst.rows.size(); cf(env, m, inst, fx, u, g); CK(6, fx.fixed_cols.size() > before, "column fixing fixed nothing"); CK(23, inst.rows.size() < rowsBefore, "column fixing leaves all rows: the three-phase loop does not end");
        residual(o, inst, fx); CK(5, u.size() == inst.rows.size(), "multipliers do not match the rows after fixing"); CK(6, u.size() == inst.rows.size(), "multipliers do not match the rows after fixing");
        for (size_t i = 0; i < inst.rows.size(); ++i) { CK(6, u[i] == u0[fx.curr2orig.row_map[i]], "multiplier of a remaining row changed"); CK(5, u[i] == u0[fx.curr2orig.row_map[i]], "multiplier of a remaining row changed"); }
        sx_cover(inst.rows.empty() ? "all fixed" : "some fixed");
    }
}
#ifndef HX
#define HX 0
#endif
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 3))
#endif
void sx_test() { switch (HT) { case 0: chain(HM, HN, 1); break; case 1: chain(3, 3 + HX, 3); break; case 2: colfix(2, 3 + HX, true); break; case 3: colfix(3, 3, false); break; } }
