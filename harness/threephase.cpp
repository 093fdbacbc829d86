// C01-C05, C07, C15 in the middle level: the real three-phase algorithm (greedy, pricing, fixing, perturbation) around a subgradient phase that returns any multipliers, bound and improving cover.
#include "common.h"
#include "fixing/FixingData.hpp"
#include "greedy/Greedy.hpp"
#include "subgradient/Pricer.hpp"
#include "utils/Chrono.hpp"
#include "utils/limits.hpp"
#include "utils/random.hpp"
#include "utils/print.hpp"
#include "utils/sort.hpp"
#include "utils/CoverCounters.hpp"
#define CFT_SRC_SUBGRADIENT_SUBGRADIENT_HPP
#ifndef HX
#define HX 0
#endif
using namespace h;
#include "ck.h"
#define EQ(x, y) (ctl->round ? std::fabs((double)(x) - (double)(y)) <= 4 + 1e-6 * std::fabs((double)(y)) : (double)(x) == (double)(y))
struct Ctl {
    Instance o; FixingData fx; int calls, heurs, expire, after, freeRounds; bool expired, price; double best; std::vector<real_t> mults; real_t lb; long t; std::vector<cidx_t> bestIdxs; bool pinMult, hmult, plain, onlyLate, round;
    std::vector<cidx_t> cmap, fixd; Instance const* cur; int clkAt, clkN; bool replay; std::vector<real_t> script, seen; size_t pos;
};
static Ctl* ctl;
#define ASK(e) (ctl->replay ? ctl->script[ctl->pos++] : (ctl->script.push_back((real_t)(e)), ctl->script.back()))
static long clk() { if (ctl->clkAt >= 0 && ctl->clkN++ >= ctl->clkAt && !ctl->expired) { ctl->expired = true; ctl->after = ctl->calls; } return ctl->expired ? 3600000000000l : (ctl->t += 1000); }
static void checkMults(std::vector<real_t> const& u, size_t m, const char*) { CK(5, u.size() == m, "multiplier vector does not have one entry per row"); for (real_t x : u) CK(5, x >= 0 && x <= 3e38f, "multiplier is negative or not finite"); }
static void checkCore(InstAndMap const& core, Instance const& inst) {
    CK(1, consistent(core.inst) && core.inst.rows.size() == inst.rows.size() && core.col_map.size() == core.inst.costs.size(), "core instance is inconsistent");
    CK(1, distinctInRange(core.col_map, inst.costs.size()), "core instance maps to wrong columns");
    for (size_t q = 0; q < core.col_map.size(); ++q) { auto j = core.col_map[q]; CK(2, core.inst.costs[q] == inst.costs[j], "core column has another cost"); CK(1, core.inst.cols[q].size() == inst.cols[j].size(), "core column covers other rows"); for (ridx_t i : core.inst.cols[q]) CK(1, has(inst, j, i), "core column covers other rows"); }
    for (auto const& r : core.inst.rows) CK(1, !r.empty(), "core instance leaves a row without columns");
}
namespace cft {
static void hook_fix(std::vector<cidx_t> const& v, Instance& inst, FixingData& fx, IdxsMaps& m) { fix_columns_and_compute_maps(v, inst, fx, m); ctl->fx = fx; }
}
#define fix_columns_and_compute_maps hook_fix
#include "fixing/ColFixing.hpp"
#undef fix_columns_and_compute_maps
namespace cft {
class Subgradient {
public:
    real_t operator()(Environment const&, Instance const& inst, real_t cutoff, Pricer pricer, InstAndMap& core, real_t& step, std::vector<real_t>& u) {
        int r = ctl->calls++; CK(23, r < (int)ctl->o.rows.size(), "three-phase rounds do not use up the rows"); if (ctl->expired) { CK(15, ctl->heurs <= r && r <= ctl->after + (ctl->after >= 0 ? 1 : 0), "a new subgradient round starts after the time limit"); ctl->after = -1; }
        CK(1, inst.rows.size() > 0 && consistent(inst), "inner phase called on an inconsistent or empty instance"); checkMults(u, inst.rows.size(), ""); CK(5, step > 0, "step size is not positive");
        ctl->cur = &inst; ctl->cmap.clear(); ctl->fixd.clear();
        if (r == 0) { for (size_t j = 0; j < inst.costs.size(); ++j) ctl->cmap.push_back(j); ctl->best = cutoff; } else { if (ctl->fx.curr2orig.col_map.size() != inst.costs.size()) sx_prune(); ctl->cmap = ctl->fx.curr2orig.col_map; ctl->fixd = ctl->fx.fixed_cols; }
        double fc = sumCost(ctl->o, ctl->fixd); CK(3, EQ((double)cutoff + fc, ctl->best), "inner phase is not bounded by the best known solution"); checkCore(core, inst);
        for (real_t x : u) ctl->seen.push_back(x); ctl->seen.push_back(step); ctl->seen.push_back(cutoff);
        for (auto& x : u) x = ctl->plain ? 1.5f : ctl->cur->rows.size() > 5 ? (real_t)(r & 1) : ctl->pinMult || r > HX ? ASK(sx_bool("mult") ? 2 : 0) : ASK(sx_real("mult", 0, 20, 1));
        if (ctl->price) { pricer(inst, u, core); checkCore(core, inst); }
        real_t lb = ctl->plain ? -1 : r == 0 || ctl->clkAt < 0 ? ASK(sx_real("lb", -4, 40, 1)) : 0; if (r == 0) { ctl->mults = u; ctl->lb = lb; }
        if (ctl->expire == 2 * r) { ctl->expired = true; ctl->after = r; } sx_cover(r ? "later iteration" : "first iteration"); return lb;
    }
    void heuristic(Environment const&, Instance const& ci, real_t step, Greedy&, Solution& sol, std::vector<real_t>& u) {
        int r = ctl->heurs++; CK(15, !ctl->expired || ctl->after < 0 || ctl->clkAt >= 0, "heuristic phase starts after the time limit"); CK(5, step > 0, "step size is not positive"); CK(3, sol.idxs.empty(), "heuristic does not start from the cutoff");
        double fc = sumCost(ctl->o, ctl->fixd); CK(3, EQ((double)sol.cost + fc, ctl->best), "heuristic is not bounded by the best known solution"); CK(1, consistent(ci), "core instance is inconsistent");
        if (r < ctl->freeRounds && (!ctl->onlyLate || r > 0) && ASK(sx_bool("improve")) != 0) {
            Solution s; s.cost = 0; std::vector<char> cv(ci.rows.size(), 0); for (size_t j = 0; j < ci.costs.size(); ++j) if (ASK(sx_bool("use")) != 0) { s.idxs.push_back(j); s.cost += ci.costs[j]; for (ridx_t i : ci.cols[j]) cv[i] = 1; }
            for (char b : cv) sx_assume(b); sx_assume(s.cost < sol.cost); sol = s; ctl->best = s.cost + fc; sx_cover(fc > 0 ? "improved with fixed columns" : "improved");
        }
        if (ctl->hmult) for (auto& x : u) x = ctl->pinMult ? ASK(sx_bool("hmult") ? 1 : 0) : ASK(sx_real("hmult", 0, 20, 1));
        if (ctl->expire == 2 * r + 1) { ctl->expired = true; ctl->after = r; }
    }
};
}
#define fix_columns_and_compute_maps hook_fix
#include "algorithms/ThreePhase.hpp"
#undef fix_columns_and_compute_maps
struct Str { int m, n; unsigned col[7]; };
static Str const ST[] = {{3, 4, {1, 2, 4, 3}}, {4, 5, {3, 12, 6, 1, 8}}, {1, 2, {1, 1}}, {2, 3, {1, 2, 3}}, {3, 3, {3, 6, 5}}, {4, 7, {1, 3, 5, 9, 1, 6, 12}}, {1, 7, {1, 1, 1, 1, 1, 1, 1}}, {7, 6, {7, 56, 30, 1, 32, 64}}};
static Instance make(Str const& t, bool symCost) { Shape s; s.m = t.m; s.n = t.n; for (int j = 0; j < t.n; ++j) for (int i = 0; i < t.m; ++i) s.in[i][j] = t.col[j] >> i & 1; Instance x = build(s); for (size_t j = 0; j < x.costs.size(); ++j) x.costs[j] = symCost && j < 3 + 2 * HX ? (real_t)sx_real("cost", t.n <= 3 ? 0 : 1, 32, 1) : j < 3 + 2 * HX ? (real_t)(sx_bool("icost") ? 1 : 2 + j) : 1 + (real_t)j / 4; if (t.m == 7) { static real_t const GC[] = {16, 16, 21, 6, 6}; for (int j = 0; j < 5; ++j) x.costs[j] = GC[j] + (HX ? sx_real("d", 0, 4, 2) : 0); x.costs[5] = sx_real("cost", 1, 32, 1); } return x; }
static void go(int k, bool symCost, bool pinMult, int freeRounds, int timing, bool reuse = false, bool replay = false) {
    Ctl here{}; ctl = &here; ctl->o = k >= 0 ? make(ST[k], symCost) : Instance(); if (k < 0) { Shape s = symShape(2, 3); sx_assume(feasible(s) && noEmptyCol(s)); ctl->o = build(s); for (auto& c : ctl->o.costs) c = symCost ? (real_t)sx_real("cost", 1, 32, 1) : (real_t)sx_pin(sx_int("icost", 1, 2)); }
    ctl->expire = ctl->clkAt = -1; ctl->after = -1; ctl->freeRounds = freeRounds; ctl->onlyLate = timing == 5; ctl->pinMult = pinMult; ctl->price = (k & 1) ? sx_bool("price") : timing != 0; ctl->hmult = !reuse && (k == 2 || k == 3);
    if (timing == 6) { ctl->round = true; static real_t const BC[] = {1, 16777216, 2, 3, 33554432, 0.1f, 0.7f, 5}; for (auto& c : ctl->o.costs) c = BC[sx_pin(sx_int("bigcost", 0, HX ? 7 : 4))]; }
    Environment env; env.verbose = 0; sx_clock_fn = clk; env.timer = Chrono<>(); env.time_limit = 60; env.epsilon = timing == 3 ? 0.25f : 0.999f; if (timing == 1) ctl->expire = sx_pin(sx_int("expire", 0, 5)); if (timing == 2) { ctl->clkN = 0; ctl->clkAt = sx_pin(sx_int("expireCall", 0, 16)); }
    ThreePhase tp; if (reuse) { Instance x = make(ST[1], false); for (auto& c : x.costs) c = 2; bool pr = ctl->price; ctl->price = true; Instance keep = ctl->o; ctl->o = x; ctl->freeRounds = 0; ctl->plain = true; tp(env, x); ctl->plain = false; ctl->price = pr; ctl->o = keep; ctl->calls = ctl->heurs = 0; ctl->script.clear(); ctl->seen.clear(); env.rnd = prng_t(0); ctl->freeRounds = freeRounds; ctl->fx = FixingData(); }
    Instance inst = ctl->o; CftResult r = tp(env, inst);
    CK(1, distinctInRange(r.sol.idxs, ctl->o.costs.size()), "solution lists a column twice or out of range"); CK(1, covers(ctl->o, r.sol.idxs), "solution does not cover every row");
    CK(2, EQ(r.sol.cost, sumCost(ctl->o, r.sol.idxs)), "reported cost is not the cost of the reported columns"); CK(3, EQ(r.sol.cost, ctl->best), "result is not the best solution found");
    CK(4, r.dual.lb == ctl->lb, "lower bound is not the one before the first fixing"); CK(5, r.dual.mults.size() == ctl->o.rows.size() && r.dual.mults.size() == ctl->mults.size(), "multipliers do not refer to the unfixed instance"); for (size_t i = 0; i < r.dual.mults.size(); ++i) CK(5, r.dual.mults[i] == ctl->mults[i], "multipliers are not those of the unfixed instance");
    CK(15, covers(ctl->o, r.sol.idxs) && r.dual.mults.size() == ctl->o.rows.size() && ctl->calls >= 1, "no complete result at the time limit"); sx_cover(ctl->expired ? "time out" : inst.rows.empty() ? "all fixed" : "bound reached"); for (auto j : r.sol.idxs) obs(j); obs(r.sol.cost); obs(ctl->calls);
    if (reuse || replay) { // a fresh object with the same answers and random state gives the same result
        Ctl again{}; again.o = here.o; again.expire = again.clkAt = -1; again.after = -1; again.freeRounds = freeRounds; again.onlyLate = here.onlyLate; again.pinMult = pinMult; again.price = here.price; again.hmult = here.hmult; again.replay = true; again.script = here.script; std::vector<real_t> seen = here.seen; CftResult first = r; ctl = &again; env.rnd = prng_t(0); ThreePhase fresh; Instance i2 = here.o; CftResult r2 = fresh(env, i2);
        CK(19, r2.sol.idxs == first.sol.idxs && r2.sol.cost == first.sol.cost && r2.dual.lb == first.dual.lb && r2.dual.mults.size() == first.dual.mults.size(), "result depends on what ran before"); CK(19, again.seen.size() == seen.size() && again.calls == here.calls, "number of iterations depends on what ran before"); for (size_t i = 0; i < seen.size(); ++i) CK(19, again.seen[i] == seen[i], "multipliers, steps or cutoffs depend on what ran before"); for (size_t i = 0; i < first.dual.mults.size(); ++i) CK(19, r2.dual.mults[i] == first.dual.mults[i], "multipliers depend on what ran before"); ctl = &here; sx_cover("replayed");
    }
}
#ifdef REPLAY
static int pickTest() { int k = sx_pin(sx_int("test", 0, 2)); return k == 0 ? 11 : 14 + k; }
#define HT pickTest()
#endif
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 16))
#endif
void sx_test() { switch (HT) {
    case 0: go(0, true, false, 1, 4); break; case 1: go(1, false, true, 2, 5); break; case 2: go(2, true, false, 2, 0); break; case 3: go(3, true, false, 2, 3); break; case 4: go(4, true, false, 1, 0); break; case 5: go(-1, false, true, 2, 0); break;
    case 6: go(0, false, true, 1, 1); break; case 7: go(3, HX, !HX, 2, 1); break; case 8: go(4, false, true, 1, 2); break; case 9: go(5, false, true, 2, 5); break; case 10: go(6, true, false, 1, 0); break; case 11: go(3, HX, !HX, 1, 0, true); break; case 12: go(7, true, true, 2, 5); break; case 13: go(0, false, true, 0, 6); break; case 14: go(3, false, true, 1, 6); break; case 15: go(0, false, true, 2, 4, true); break; case 16: go(6, true, true, 1, 0, true); break; } }
