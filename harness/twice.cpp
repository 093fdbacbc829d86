// C19: every phase run again with the same inputs gives the same result, whatever its objects (and the process) did before.
#include "common.h"
#include "algorithms/Refinement.hpp"
#include "ck.h"
#ifndef HX
#define HX 0
#endif
using namespace h;
static bool same(std::vector<cidx_t> const& a, std::vector<cidx_t> const& b) { return a == b; }
static bool same(std::vector<real_t> const& a, std::vector<real_t> const& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
static bool sameInst(Instance const& a, Instance const& b) { return a.cols.begs == b.cols.begs && a.cols.idxs == b.cols.idxs && same(a.costs, b.costs) && a.rows == b.rows; }
#define SAME(a, b, what) CK(19, same(a, b), what " depend on what ran before")
struct Str { int m, n; unsigned col[13]; };
static Str const ST[] = {{5, 8, {7, 28, 17, 3, 12, 24, 31, 9}}, {1, 2, {1, 1}}, {5, 13, {15, 3, 5, 6, 9, 10, 12, 7, 11, 13, 14, 15, 16}}, {3, 3, {1, 2, 4}}, {3, 4, {3, 6, 5, 7}}, {2, 4, {1, 2, 3, 3}}, {6, 7, {7, 56, 11, 22, 44, 33, 18}}, {1, 7, {1, 1, 1, 1, 1, 1, 1}}};
static Instance make(int k) { Str t = ST[k]; Instance x; x.rows.resize(t.m); for (int j = 0; j < t.n; ++j) { for (int i = 0; i < t.m; ++i) if (t.col[j] >> i & 1) { x.cols.idxs.push_back(i); x.rows[i].push_back(j); } x.cols.begs.push_back(x.cols.idxs.size()); x.costs.push_back(1 + (j * 5 % 7) * 0.5f); } return x; }
static Instance symInst(int m, int n) { Shape s = symShape(m, n); sx_assume(feasible(s) && noEmptyCol(s)); Instance o = build(s); for (auto& c : o.costs) c = sx_real("cost", 0, 64, 1); return o; }
static std::vector<real_t> symMults(size_t m, char const* n) { std::vector<real_t> u(m); for (auto& x : u) x = sx_real(n, 0, 64, 1); return u; }
static std::vector<real_t> redCosts(Instance const& o, std::vector<real_t> const& u) { std::vector<real_t> rc; compute_reduced_costs(o, u, rc); return rc; }
// earlier uses of a greedy object: normal, stopped by the cutoff, with many redundant columns, with initial columns and a size limit, complete from the start
static void useGreedy(Greedy& g, int k) {
    static int const I[] = {0, 6, 2, 6}; Instance x = make(I[k]); std::vector<real_t> u(x.rows.size(), 0.75f); std::vector<cidx_t> s; auto rc = redCosts(x, u);
    if (k == 0) { s.push_back(7); g(x, u, rc, s); s.clear(); g(x, u, rc, s); } else if (k == 1) g(x, u, rc, s, 1.5f); else if (k == 2) { for (int j = 0; j < 12; ++j) s.push_back(j); g(x, u, rc, s); } else { s.push_back(1); g(x, u, rc, s, 100, 2); } }
static void greedyTwice(int m, int n, bool warmInit) {
    Instance o = symInst(m, n); auto u = symMults(m, "mult"); auto rc = redCosts(o, u); std::vector<cidx_t> a, b; if (warmInit) { int q = sx_pin(sx_int("init", 0, n)); if (q < n) a.push_back(q); b = a; }
    real_t cut = warmInit ? limits<real_t>::max() : sx_real("cutoff", 1, 200, 1); cidx_t mx = warmInit && sx_bool("limited") ? 2 : limits<cidx_t>::max();
    Greedy g, f; useGreedy(g, sx_pin(sx_int("before", 0, 3))); real_t x = g(o, u, rc, a, cut, mx), y = f(o, u, rc, b, cut, mx); CK(19, x == y, "greedy costs depend on what ran before"); SAME(a, b, "greedy solutions"); sx_cover(a.empty() ? "none" : "greedy"); obs(x); for (auto j : a) obs(j);
    std::vector<cidx_t> c; if (warmInit) return; real_t z = g(o, u, rc, c, cut, mx); CK(19, z == x, "greedy costs depend on what ran before"); SAME(c, a, "greedy solutions"); }
static void priceTwice(int m, int n) {
    Instance o = symInst(m, n); auto u = symMults(m, "mult"); Pricer p, q; InstAndMap a, b; Instance x = make(sx_pin(sx_int("before", 0, 1)) ? 0 : 7); std::vector<real_t> v(x.rows.size(), 2); p(x, v, a); if (sx_bool("other")) b = a; auto l1 = p(o, u, a), l2 = q(o, u, b);
    CK(19, l1 == l2, "bounds depend on what ran before"); SAME(a.col_map, b.col_map, "core columns"); CK(19, sameInst(a.inst, b.inst), "core instances depend on what ran before"); sx_cover("price"); obs(l1); obsInst(a.inst); }
static void fixTwice(int m, int n) {
    Instance o = symInst(m, n); auto u = symMults(m, "mult"); Environment env; env.verbose = 0; ColFixing p, q; Greedy g, f; FixingData a, b; int k = sx_pin(sx_int("before", 0, 2)); Instance x = make(k == 0 ? 0 : k == 1 ? 1 : 6); std::vector<real_t> v(x.rows.size(), 0.5f); if (k == 2) v[0] = 4;
    make_identity_fixing_data(x.costs.size(), x.rows.size(), a); p(env, x.rows.size(), x, a, v, g); make_identity_fixing_data(n, m, a); make_identity_fixing_data(n, m, b); Instance o1 = o, o2 = o; auto u1 = u, u2 = u; p(env, m, o1, a, u1, g); q(env, m, o2, b, u2, f);
    CK(19, sameInst(o1, o2), "fixed instances depend on what ran before"); SAME(u1, u2, "multipliers"); SAME(a.fixed_cols, b.fixed_cols, "fixed columns"); CK(19, a.fixed_cost == b.fixed_cost && a.curr2orig.col_map == b.curr2orig.col_map && a.curr2orig.row_map == b.curr2orig.row_map, "fixing data depend on what ran before"); sx_cover("fix"); obsInst(o1); obs(a.fixed_cost); }
static long now; static long clk() { return now += 1000000; }
static void prepare(Environment& env, int iters) { env = Environment(); env.verbose = 0; env.heur_iters = iters; env.seed = 7; env.rnd = prng_t(7); now = 5000; sx_clock_fn = clk; env.timer = Chrono<>(); env.time_limit = 1e6; }
static bool sameResult(CftResult const& a, CftResult const& b) { return same(a.sol.idxs, b.sol.idxs) && a.sol.cost == b.sol.cost && same(a.dual.mults, b.dual.mults) && a.dual.lb == b.dual.lb; }
static void pinCosts(Instance& x, int n) { for (int j = 0; j < n; ++j) x.costs[j] = sx_pin(sx_int("icost", 1, 3)); }
// the whole three-phase algorithm with a reused and with a new object
static void phases(int k, int n, int iters) {
    Instance x = make(k); pinCosts(x, n); Environment env; prepare(env, iters); ThreePhase t; Instance y = make(sx_pin(sx_int("before", 0, 1)) ? 0 : 5), c1 = x, c2 = x; t(env, y); prepare(env, iters); CftResult a = t(env, c1); prepare(env, iters); ThreePhase s; CftResult b = s(env, c2);
    CK(19, sameResult(a, b), "results of the three-phase algorithm depend on what ran before"); CK(19, sameInst(c1, c2), "fixed instances depend on what ran before"); sx_cover("phases"); obs(a.sol.cost); obs(a.dual.lb); for (auto j : a.sol.idxs) obs(j); for (auto w : a.dual.mults) obs(w); }
// the complete solver before and after another run
static void whole(int k, int n, int iters) {
    Instance x = make(k); pinCosts(x, n); Instance before = x; Environment env; prepare(env, iters); CftResult a = run(env, x); prepare(env, iters); Instance y = make(sx_pin(sx_int("between", 0, 1)) ? 0 : 5); Solution w; w.idxs = {0, 1, 2}; w.cost = 50; run(env, y, w); prepare(env, iters); CftResult b = run(env, x);
    CK(19, sameResult(a, b), "results of the solver depend on what ran before"); CK(19, sameInst(x, before), "the instance is changed by solving it"); CK(1, distinctInRange(a.sol.idxs, x.costs.size()) && covers(x, a.sol.idxs), "solution does not cover every row"); CK(2, a.sol.cost == sumCost(x, a.sol.idxs), "cost is not that of the columns"); sx_cover("whole"); obs(a.sol.cost); obs(a.dual.lb); for (auto j : a.sol.idxs) obs(j); for (auto v : a.dual.mults) obs(v); }
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 10))
#endif
void sx_test() { switch (HT) { case 0: greedyTwice(3, 3, false); break; case 1: greedyTwice(2, 3, true); break; case 2: priceTwice(2, 4 + HX); break; case 3: priceTwice(3, 3); break; case 4: fixTwice(2, 3); break; case 5: fixTwice(3, 3); break;
    case 6: phases(4, 4, 3); break; case 7: phases(6, 4 + 2 * HX, 2 + HX); break; case 8: whole(4, 4, 2); break; case 9: whole(6, 3 + HX, 1); break; case 10: phases(0, 3 + HX, 8); break; } }
