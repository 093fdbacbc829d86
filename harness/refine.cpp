// C01-C05, C15, C23 at the outermost level: the real run() over a three-phase algorithm that returns any cover, bound and multipliers, with a scripted clock.
#include "common.h"
#include "fixing/ColFixing.hpp"
#include "fixing/FixingData.hpp"
#include "greedy/Greedy.hpp"
#include "utils/Chrono.hpp"
#include "utils/limits.hpp"
#include "utils/random.hpp"
#include "utils/print.hpp"
#define CFT_SRC_ALGORITHMS_THREEPHASE_HPP
#ifndef HX
#define HX 0
#endif
using namespace h;
struct Ctl {
    Instance o; FixingData fx; bool hooked, tagged; int rounds, lastBest, expireIn, expireCall, calls, after, late, late2; bool expired, destroy; int freePicks; bool symMult;
    std::vector<real_t> mults; real_t lb; double best; long t; bool replay; std::vector<real_t> script, seen; size_t pos;
};
static Ctl* ctl;
#define CT (*ctl)
#define ASK(e) (CT.replay ? (CT.pos < CT.script.size() ? CT.script[CT.pos++] : (real_t)(CT.pos++, 1)) : (CT.script.push_back((real_t)(e)), CT.script.back()))
static long clk() { if (CT.expireCall >= 0 && CT.calls++ >= CT.expireCall) { if (!CT.expired) CT.after = CT.rounds; CT.expired = true; } return CT.expired ? 3600000000000l : (CT.t += 1000); }
namespace cft {
static void hook_fix(std::vector<cidx_t> const& v, Instance& inst, FixingData& fx, IdxsMaps& m) { fix_columns_and_compute_maps(v, inst, fx, m); CT.fx = fx; CT.hooked = true; }
}
#include "ck.h"
namespace cft {
class ThreePhase {
public:
    CftResult operator()(Environment const& env, Instance& inst) {
        int r = CT.rounds++; (void)env; size_t n = inst.costs.size(), m = inst.rows.size(), on = CT.o.costs.size();
        CK(15, !CT.expired, "a new round starts after the time limit");
        CK(23, r <= CT.lastBest + 16, "refinement goes on without improving");
        CK(1, m > 0 && consistent(inst), "inner algorithm called on an inconsistent or empty instance");
        std::vector<cidx_t> cmap, fixd; // what this instance is of the original one
        if (n == on && m == CT.o.rows.size()) { for (size_t j = 0; j < n; ++j) cmap.push_back(j); }
        else if (CT.hooked && CT.fx.curr2orig.col_map.size() == n) { cmap = CT.fx.curr2orig.col_map; fixd = CT.fx.fixed_cols; } else sx_prune();
        for (size_t j = 0; j < n; ++j) CK(2, inst.costs[j] == CT.o.costs[cmap[j]], "inner algorithm called with changed costs");
        if (ON(19)) { for (size_t j = 0; j < n; ++j) CT.seen.push_back(inst.costs[j]), CT.seen.push_back(cmap[j]); CT.seen.push_back(m); for (auto j : fixd) CT.seen.push_back(j); }
        Solution s; s.cost = 0; bool pick = r < CT.freePicks || r == CT.late || r == CT.late2; std::vector<char> cv(m, 0); double c = 0; for (auto j : fixd) c += CT.o.costs[j];
        for (size_t j = 0; j < n; ++j) { bool need = !pick; if (pick && ASK(sx_bool("use") ? 1 : 0) != 0) need = true; if (need) { s.idxs.push_back(j); s.cost += inst.costs[j]; c += inst.costs[j]; for (ridx_t i : inst.cols[j]) cv[i] = 1; } }
        for (char b : cv) sx_assume(b);
        if (r > 0) sx_cover(fixd.empty() ? "round without fixing" : "round with fixing");
        if (c < CT.best) { CT.best = c; CT.lastBest = r; if (r > 0) sx_cover(fixd.empty() ? "improved unfixed" : "improved fixed"); }
        DualState d; d.lb = r == 0 ? ASK(sx_real("lb", 0, 64, 1)) : ASK((real_t)sx_int("lateLb", 0, 1) * 100); d.mults.resize(m); for (auto& u : d.mults) u = r == 0 && CT.symMult ? ASK(sx_real("mult", 0, 8, 1)) : (real_t)r;
        if (r == 0) { CT.mults = d.mults; CT.lb = d.lb; }
        if (r == CT.expireIn) CT.expired = true; if (CT.destroy) clear_inst(inst); return {s, d};
    }
};
}
#define fix_columns_and_compute_maps hook_fix
#include "algorithms/Refinement.hpp"
#undef fix_columns_and_compute_maps
struct Str { int m, n; unsigned col[6]; };
static Str const ST[] = {{3, 4, {1, 2, 4, 7}}, {4, 5, {3, 12, 6, 1, 8}}, {1, 2, {1, 1}}, {5, 5, {3, 6, 12, 24, 17}}, {2, 3, {1, 2, 3}}, {6, 6, {1, 6, 8, 48, 15, 33}}};
static Instance make(Str const& t, bool symCost) { Shape s; s.m = t.m; s.n = t.n; for (int j = 0; j < t.n; ++j) for (int i = 0; i < t.m; ++i) s.in[i][j] = t.col[j] >> i & 1; Instance x = build(s); for (size_t j = 0; j < x.costs.size(); ++j) x.costs[j] = symCost ? (real_t)sx_real("cost", 1, 64, 1) : j < 3 + 2 * HX ? (real_t)sx_pin(sx_int("icost", 1, 2)) : 1 + (real_t)j / 4; return x; }
static void go(int k, bool symCost, bool warm, int freePicks, bool symMult, int lateMax, int timing, bool twice = false, int nb = 0) {
    Ctl here{}; ctl = &here; CT.o = make(ST[k], symCost); CT.best = 1e30; CT.expireIn = CT.expireCall = CT.late = CT.late2 = -1; CT.freePicks = freePicks; CT.symMult = symMult; CT.destroy = k == 2 || sx_bool("destroy"); CT.after = -1;
    if (lateMax) CT.late = sx_pin(sx_int("late", freePicks, lateMax)); if (twice) CT.late2 = CT.late + 1; Environment env; env.verbose = 0; sx_clock_fn = clk; env.timer = Chrono<>();
    env.time_limit = 60; if (timing == 1) CT.expireIn = sx_pin(sx_int("expireRound", 0, 2)); if (timing == 2) { CT.calls = 0; CT.expireCall = sx_pin(sx_int("expireCall", 0, 12)); }
    static const real_t B[] = {1, 0.5, 2, 0}; env.beta = B[sx_pin(sx_int("beta", 0, nb))]; 
    Solution w; if (warm) { w.cost = 0; std::vector<char> cv(CT.o.rows.size(), 0); for (size_t j = 0; j < CT.o.costs.size(); ++j) if (sx_bool("warm")) { w.idxs.push_back(j); w.cost += CT.o.costs[j]; for (ridx_t i : CT.o.cols[j]) cv[i] = 1; } for (char b : cv) sx_assume(b); sx_assume(!w.idxs.empty()); CT.best = w.cost; }
    Instance before = CT.o; CftResult r = run(env, CT.o, w);
    CK(1, distinctInRange(r.sol.idxs, CT.o.costs.size()), "solution lists a column twice or out of range"); CK(1, covers(CT.o, r.sol.idxs), "solution does not cover every row");
    double c = sumCost(CT.o, r.sol.idxs); CK(2, (double)r.sol.cost == c, "reported cost is not the cost of the reported columns");
    if (warm) CK(3, r.sol.cost <= w.cost, "result is worse than the warm start"); CK(3, (double)r.sol.cost == CT.best, "result is not the best solution seen");
    CK(4, r.dual.lb == CT.lb, "lower bound is not the one of the unfixed instance"); CK(5, r.dual.mults.size() == CT.o.rows.size(), "multipliers do not refer to the original rows"); for (size_t i = 0; i < r.dual.mults.size(); ++i) CK(5, r.dual.mults[i] == CT.mults[i], "multipliers are not those of the unfixed instance");
    CK(15, CT.rounds >= 1 && covers(CT.o, r.sol.idxs) && r.dual.mults.size() == CT.o.rows.size(), "no complete result at the time limit"); if (CT.expired) sx_cover("time out"); else if (r.sol.cost <= CT.lb + env.epsilon) sx_cover("optimal"); else sx_cover("all fixed");
    for (auto j : r.sol.idxs) obs(j); obs(r.sol.cost); obs(r.dual.lb); obs(CT.rounds);
#ifdef REPLAY // a second run with the same answers does the same
    Ctl again{}; again.o = here.o; again.best = warm ? (double)w.cost : 1e30; again.expireIn = here.expireIn; again.expireCall = -1; again.late = here.late; again.late2 = here.late2; again.freePicks = freePicks; again.symMult = symMult; again.destroy = here.destroy; again.after = -1; again.replay = true; again.script = here.script; ctl = &again; CftResult r2 = run(env, again.o, w); ctl = &here;
    CK(19, again.rounds == here.rounds && again.pos == again.script.size() && again.seen.size() == here.seen.size(), "number of rounds depends on what ran before"); for (size_t i = 0; i < here.seen.size(); ++i) CK(19, again.seen[i] == here.seen[i], "instances solved in the rounds depend on what ran before");
    CK(19, r2.sol.idxs == r.sol.idxs && r2.sol.cost == r.sol.cost && r2.dual.lb == r.dual.lb && r2.dual.mults.size() == r.dual.mults.size(), "result depends on what ran before"); sx_cover("replayed");
#endif
}
#ifdef REPLAY
static int pickTest() { int k = sx_pin(sx_int("test", 0, 3)); return k == 0 ? 0 : k == 1 ? 6 : k == 2 ? 12 : 14; }
#define HT pickTest()
#endif
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 14))
#endif
void sx_test() { switch (HT) { //  structure, symbolic costs, warm start, free rounds, symbolic multipliers, last late free round, timing, two late rounds, beta choices
    case 0: go(0, true, false, 1, true, 0, 0); break; case 1: go(0, false, true, 1, true, 0, 0); break; case 2: go(1, false, true, 1, false, HX ? 4 : 1, 0); break; case 3: go(2, true, true, 2, true, 3, 0); break;
    case 4: go(3, false, false, 1 , false, 0, 0, false, 3); break; case 5: go(4, false, true, 2, true, 0, 0); break; case 6: go(5, false, false, 1, false, 0, 0); break;
    case 7: go(0, false, true, 1 + HX, false, 0, 1); break; case 8: go(1, false, false, 2, false, 0, 1); break; case 9: go(0, false, false, 2, false, 0, 2); break; case 10: go(1, false, false, 1, false, 0, 2); break; case 11: go(4, true, false, 2, false, 0, 1); break;
    case 12: go(0, false, false, 1, false, HX ? 8 : 4, 0, true); break; case 13: go(1, false, false, 1, false, HX ? 4 : 1, 0, true); break; case 14: go(4, false, false, 1, false, 14, 0); break; } }
