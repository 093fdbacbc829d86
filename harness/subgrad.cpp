// C01-C05, C08, C15, C19 in the inner level: the real subgradient and heuristic phases around a pricing step that returns any bound and any sufficient core, and a greedy that returns any cover below its cutoff or a discarded one.
#include "common.h"
#include "utils/Chrono.hpp"
#include "utils/limits.hpp"
#define CFT_SRC_GREEDY_GREEDY_HPP
#define CFT_SRC_SUBGRADIENT_PRICER_HPP
#include "core/utils.hpp"
#include "utils/sort.hpp"
#include "utils/CoverCounters.hpp"
#ifndef HX
#define HX 0
#endif
using namespace h;
#include "ck.h"
struct Ctl { Instance const* cur; Instance const* core0; int prices, greedys; bool expired; int expire, after; real_t maxLb, lowest; double best, found, eps; Solution lastFound; bool anyFound, chgCore; int freeSols, mode; long t; std::vector<real_t> script; size_t pos; bool replay; std::vector<real_t> seen; real_t lbLo, lbHi; int rmax; };
static Ctl* ctl;
static real_t sel(char const* n, real_t a, real_t b) { return sx_pin(sx_int(n, 0, 1)) ? a : b; }
static long clk() { return ctl->expired ? 3600000000000l : (ctl->t += 1000); }
static void checkMults(std::vector<real_t> const& u, size_t m) { CK(5, u.size() == m, "multiplier vector does not have one entry per row"); for (real_t x : u) CK(5, x >= 0 && x <= 1e6f, "multiplier is negative, not finite or above its limit"); }
static real_t choice(real_t v) { if (ctl->replay) return ctl->script[ctl->pos++]; ctl->script.push_back(v); return v; }
namespace cft {
class Greedy { public:
    real_t operator()(Instance const& inst, std::vector<real_t> const& u, std::vector<real_t> const& rc, std::vector<cidx_t>& sol, real_t cutoff = limits<real_t>::max(), cidx_t maxSize = limits<cidx_t>::max()) {
        int r = ctl->greedys++; CK(15, !ctl->expired, "another heuristic iteration starts after the time limit"); checkMults(u, inst.rows.size()); CK(1, sol.empty(), "greedy does not start from an empty solution"); CK(1, &inst == ctl->core0, "greedy is not run on the core instance");
        CK(3, (double)cutoff == ctl->best, "greedy cutoff is not the cost of the incumbent"); CK(8, maxSize >= (cidx_t)inst.costs.size(), "greedy solution size is limited"); CK(8, rc.size() == inst.costs.size(), "reduced costs do not match the columns");
        if (ctl->mode != 3) for (size_t j = 0; j < inst.costs.size(); ++j) { real_t c = inst.costs[j]; for (ridx_t i : inst.cols[j]) c -= u[i]; CK(8, rc[j] == c, "reduced cost is not the cost minus the multipliers of the rows covered"); }
        for (real_t x : u) ctl->seen.push_back(x);
        if (ctl->expire == r) ctl->expired = true;
        real_t res; sol.clear();
        if (r < ctl->freeSols && (ctl->replay ? choice(0) != 0 : choice(sx_bool("cover") ? 1 : 0) != 0)) {
            Solution s; s.cost = 0; std::vector<char> cv(inst.rows.size(), 0);
            for (size_t j = 0; j < inst.costs.size(); ++j) if (ctl->replay ? choice(0) != 0 : choice(sx_bool("use") ? 1 : 0) != 0) { s.idxs.push_back(j); s.cost += inst.costs[j]; for (ridx_t i : inst.cols[j]) cv[i] = 1; }
            for (char b : cv) sx_assume(b); sx_assume(s.cost < cutoff); sol = s.idxs; res = s.cost; if (s.cost < ctl->found) ctl->found = s.cost;
            if ((double)s.cost <= ctl->best - (double)ctl->eps) { ctl->best = s.cost; ctl->lastFound = s; ctl->anyFound = true; sx_cover("better cover"); } else sx_cover("cover within epsilon");
        } else { int k = r < ctl->freeSols ? (int)(ctl->replay ? choice(0) : choice((real_t)sx_pin(sx_int("discarded", 0, 2)))) : 0; res = k == 0 ? cutoff : k == 1 ? limits<real_t>::max() : cutoff + 1; if (k != 1 && inst.costs.size() > 0) sol.push_back(0); sx_cover("discarded"); }
        return res;
    }
};
class Pricer { public: int tag = 0;
    real_t operator()(Instance const& inst, std::vector<real_t> const& u, InstAndMap& core) {
        int r = ctl->prices++; CK(15, !ctl->expired, "pricing goes on after the time limit"); CK(1, &inst == ctl->cur, "pricing is not done on the whole instance"); checkMults(u, inst.rows.size()); for (real_t x : u) ctl->seen.push_back(x);
        if (ctl->expire == r) ctl->expired = true;
        real_t lb = ctl->replay ? choice(0) : choice(r < ctl->rmax ? sx_real("lb", ctl->lbLo, ctl->lbHi, 1) : -7); if (lb > ctl->maxLb) ctl->maxLb = lb;
        if (ctl->chgCore) { core.col_map.clear(); clear_inst(core.inst); for (size_t j = r & 1; j < inst.costs.size(); ++j) { core.col_map.push_back(j); push_back_col_from(inst, j, core.inst); } fill_rows_from_cols(core.inst.cols, rsize(inst.rows), core.inst.rows); sx_cover("core changed"); }
        sx_cover("priced"); return lb;
    }
};
}
#include "subgradient/Subgradient.hpp"
struct Str { int m, n; unsigned col[7]; };
static Str const ST[] = {{2, 3, {1, 2, 3}}, {3, 4, {1, 2, 4, 7}}, {3, 5, {1, 3, 6, 5, 7}}, {1, 2, {1, 1}}, {4, 5, {3, 12, 6, 9, 15}}, {2, 4, {3, 1, 2, 3}}, {3, 4, {3, 6, 5, 7}}, {1, 1, {1}}};
static Instance make(int k, int symCosts) { Str t = ST[k]; Shape s; s.m = t.m; s.n = t.n; for (int j = 0; j < t.n; ++j) for (int i = 0; i < t.m; ++i) s.in[i][j] = t.col[j] >> i & 1; Instance x = build(s); for (int j = 0; j < t.n; ++j) x.costs[j] = symCosts > j ? sx_real("cost", 1, 40, 1) : symCosts < 0 && j < -symCosts ? sel("icost", 1, 2 + j) : 1 + (real_t)j / 2; return x; }
static void init(Ctl& c, Instance const& o) { ctl = &c; c.expire = -1; c.cur = &o; c.core0 = &o; c.lowest = limits<real_t>::min(); c.maxLb = c.lowest; c.found = 1e30; c.lbLo = -8; c.lbHi = 60; c.rmax = 2 + HX; }
static void env0(Environment& env) { env.verbose = 0; sx_clock_fn = clk; env.timer = Chrono<>(); env.time_limit = 60; }
// mode 0: symbolic costs and multipliers, one or two iterations; 1: pinned costs, more iterations; 3: large costs
static void heur(int k, int mode, int iters, bool expire, bool reuse) {
    Ctl here{}; Instance inst = k < 0 ? Instance() : make(k, mode == 0 ? (iters > 1 && !HX ? 1 : 3 + HX) : mode == 1 ? -3 : 0);
    if (k < 0) { Shape s = symShape(2, 3); sx_assume(feasible(s) && noEmptyCol(s)); inst = build(s); for (auto& c : inst.costs) c = sx_real("cost", 1, 16, 1); }
    init(here, inst); if (mode == 3) { static real_t const BC[] = {1, 16777216, 33554432, 2, 0.5f}; for (auto& c : inst.costs) c = BC[sx_pin(sx_int("bigcost", 0, 4))]; }
    here.mode = mode; here.freeSols = iters < 3 || HX ? iters : 2; Environment env; env0(env); env.heur_iters = iters; env.epsilon = mode == 3 ? 0.999f : sel("eps", 0.25f, sel("zero", 0, 1));
    here.eps = env.epsilon; if (expire) here.expire = sx_pin(sx_int("expire", 0, iters - 1));
    std::vector<real_t> u(inst.rows.size()); for (size_t i = 0; i < u.size(); ++i) u[i] = mode == 0 ? sx_real("mult", 0, 24, 1) : mode == 1 ? sel("imult", 2, 0) : 0.5f;
    Solution best; best.cost = mode == 0 ? sx_real("cutoff", 1, 120, 1) : mode == 1 ? (real_t)sx_pin(sx_int("icutoff", 1, 5)) : 50331648; Solution start = best; here.best = best.cost; real_t step = 0.125f;
    if (mode == 0) { bool none = true; for (size_t i = 0; i < u.size(); ++i) if (u[i] != 0) none = false; sx_assume(HX || !none); }
    std::vector<real_t> u0 = u; Subgradient sg; Greedy g;
    if (reuse) { Ctl other{}; Instance x = make(4, 0); init(other, x); other.best = 9; Solution s; s.cost = 9; std::vector<real_t> v(4, 1.f); Environment e2 = env; e2.heur_iters = 3; sg.heuristic(e2, x, 0.1f, g, s, v); ctl = &here; }
    sg.heuristic(env, inst, step, g, best, u);
    CK(3, best.cost <= start.cost, "heuristic makes the incumbent worse"); CK(3, (double)best.cost == here.best, "heuristic does not keep the best cover found"); CK(3, best.cost <= here.found + env.epsilon, "heuristic loses a better cover");
    if (here.anyFound) { CK(1, distinctInRange(best.idxs, inst.costs.size()) && covers(inst, best.idxs), "heuristic result does not cover every row"); CK(2, std::fabs((double)best.cost - sumCost(inst, best.idxs)) <= (mode == 3 ? 4 : 0), "heuristic cost is not the cost of its columns"); sx_cover("improved"); }
    else { CK(1, best.idxs.empty(), "heuristic fills the solution without an improvement"); CK(2, best.cost == start.cost, "heuristic changes the cost without an improvement"); sx_cover("not improved"); }
    checkMults(u, inst.rows.size()); CK(15, here.greedys <= iters, "more heuristic iterations than asked for"); CK(15, !here.expired || here.greedys == here.expire + 1, "heuristic goes on after the time limit"); if (here.expired) sx_cover("time out");
    if (reuse || (mode == 1 && iters < 3)) { // a fresh object with the same answers gives the same result
        Ctl again{}; init(again, inst); again.mode = mode; again.best = start.cost; again.eps = here.eps; again.expire = here.expire; again.freeSols = here.freeSols; again.replay = true; again.script = here.script; Solution b2 = start; std::vector<real_t> u2 = u0; Subgradient s2; Greedy g2; s2.heuristic(env, inst, step, g2, b2, u2);
        CK(19, b2.cost == best.cost && b2.idxs == best.idxs && u2.size() == u.size() && again.seen.size() == here.seen.size(), "heuristic result depends on what ran before"); for (size_t i = 0; i < u.size(); ++i) CK(19, u2[i] == u[i], "multipliers depend on what ran before"); for (size_t i = 0; i < again.seen.size(); ++i) CK(19, again.seen[i] == here.seen[i], "multipliers depend on what ran before");
    }
    obs(best.cost); for (auto j : best.idxs) obs(j); for (auto x : u) obs(x);
}
// mode 0: step 0, symbolic costs and multipliers; 1: pinned costs with the usual step; 2: step and cutoff so large that every violated multiplier meets its limits
static void bound(int k, int mode, bool expire, bool reuse, bool chg) {
    Ctl here{}; Instance inst = make(k, mode == 0 ? 2 + HX : mode == 1 ? -3 : 3); init(here, inst); here.mode = mode; here.chgCore = chg; Environment env; env0(env); env.epsilon = sel("eps", 0.25f, 0.999f); if (expire) here.expire = sx_pin(sx_int("expire", 0, 3));
    if (k == 7) { inst = Instance(); inst.rows.resize(32); for (int j = 0; j < 12; ++j) { for (int i = 0; i < 32; ++i) if ((i * 7 + j * 5) % 12 < 2 + (j & 1) || i % 12 == j) { inst.cols.idxs.push_back(i); inst.rows[i].push_back(j); } inst.cols.begs.push_back(inst.cols.idxs.size()); inst.costs.push_back(3 + j % 4); } here.rmax = 3; }
    std::vector<real_t> u(inst.rows.size()); for (size_t i = 0; i < u.size(); ++i) u[i] = mode == 0 ? sx_real("mult", 0, 24, 1) : mode == 1 ? (k == 7 || i > 2 ? 0.5f : sel("imult", 1, 0)) : sx_real("mult", 0, 400, 1);
    real_t cutoff = mode == 0 ? sx_real("cutoff", 1, 100, 1) : mode == 1 ? (real_t)(k == 7 ? 30 : sx_pin(sx_int("icutoff", 2, 4))) : sel("c", 4194304, 16777216), step = mode == 0 ? 0 : mode == 1 ? 0.125f : 10, step0 = step;
    if (mode == 2) here.lbHi = 40; InstAndMap core; core.inst = inst; for (size_t j = 0; j < inst.costs.size(); ++j) core.col_map.push_back(j); InstAndMap core0 = core; std::vector<real_t> u0 = u; Subgradient sg; Pricer p;
    if (reuse) { Ctl other{}; Instance x = make(4, 0); init(other, x); other.rmax = 0; InstAndMap c2; c2.inst = x; for (int j = 0; j < 5; ++j) c2.col_map.push_back(j); std::vector<real_t> v(4, 1.f); real_t st = 0.1f; sg(env, x, 9, p, c2, st, v); ctl = &here; }
    real_t lb = sg(env, inst, cutoff, p, core, step, u);
    CK(4, lb == here.maxLb, "bound is not the best one pricing computed for the whole instance"); checkMults(u, inst.rows.size()); CK(5, step >= (mode == 0 ? 0 : 1e-6f) && step <= 10, "step size leaves its limits"); CK(1, core.inst.rows.size() == inst.rows.size() && core.col_map.size() == core.inst.costs.size(), "core instance is inconsistent");
    CK(15, !here.expired || here.prices == here.expire + 1, "subgradient goes on after the time limit"); CK(23, here.prices <= 10 * (int)inst.rows.size(), "subgradient exceeds its number of iterations"); if (here.expired) sx_cover("bound time out"); sx_cover(here.prices == 0 ? "bound without pricing" : lb >= cutoff - env.epsilon ? "bound meets the cutoff" : "bound");
    if (mode == 1) { Ctl again{}; init(again, inst); again.mode = mode; again.chgCore = chg; again.expire = here.expire; again.rmax = here.rmax; again.replay = true; again.script = here.script; std::vector<real_t> u2 = u0; InstAndMap c2 = core0; real_t st = step0; Subgradient s2; Pricer p2; real_t l2 = s2(env, inst, cutoff, p2, c2, st, u2);
        CK(19, l2 == lb && st == step && u2.size() == u.size() && again.prices == here.prices && again.seen.size() == here.seen.size(), "bound depends on what ran before"); for (size_t i = 0; i < u.size(); ++i) CK(19, u2[i] == u[i], "multipliers depend on what ran before"); for (size_t i = 0; i < again.seen.size(); ++i) CK(19, again.seen[i] == here.seen[i], "multipliers depend on what ran before"); }
    obs(lb); obs(step); for (auto x : u) obs(x); obs(here.prices);
}
#ifdef REPLAY
static int pickTest() { static int const T[] = {3, 4, 7, 10, 11, 13, 14}; return T[sx_pin(sx_int("test", 0, 6))]; }
#define HT pickTest()
#endif
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 15))
#endif
void sx_test() { switch (HT) {
    case 0: heur(0, 0, 1, false, false); break; case 1: heur(0, 0, 2, false, false); break; case 2: heur(-1, 0, 1, false, false); break; case 3: heur(1, 1, 2, true, false); break; case 4: heur(6, 1, 3, true, true); break; case 5: heur(0, 3, 2, false, false); break; case 6: heur(3, 0, 2 + HX, true, false); break; case 7: heur(2, 1, 2, false, true); break;
    case 8: bound(0, 0, false, false, false); break; case 9: bound(3, 0, false, false, false); break; case 10: bound(1, 1, true, false, true); break; case 11: bound(6, 1, false, true, true); break; case 12: bound(0, 2, false, false, false); break; case 13: bound(4, 1, true, true, false); break; case 14: bound(7, 1, true, false, true); break; case 15: bound(5, 2, true, false, true); break; } }
