// C18 (instances built through the Python bindings) and the C++ half of C22 (results and parameters seen from Python).
#include <cmath>
#include <stdexcept>
#include <string>
#include "common.h"
#include "pycft/_bindings.cpp"
#include "ck.h"
using namespace h; using pybind11::Val; using pybind11::vint; using pybind11::vreal;
#ifndef HX
#define HX 0
#endif
struct Set { std::vector<int> items; double cost; };
static Val list(std::vector<int> const& v) { Val x; x.k = pybind11::LIST; for (int i : v) x.l.push_back(vint(i)); return x; }
static std::vector<int> colOf(Instance const& x, size_t j) { std::vector<int> v; for (size_t k = x.cols.begs[j]; k < (size_t)x.cols.begs[j + 1]; ++k) v.push_back(x.cols.idxs[k]); return v; }
static bool holds(Instance const& x, std::vector<Set> const& s) {
    if (x.costs.size() != s.size() || x.cols.begs.size() != s.size() + 1 || x.cols.begs[0] != 0 || (size_t)x.cols.begs.back() != x.cols.idxs.size()) return false;
    for (size_t j = 0; j < s.size(); ++j) { if ((size_t)x.cols.begs[j + 1] - x.cols.begs[j] != s[j].items.size()) return false; for (size_t k = 0; k < s[j].items.size(); ++k) if (x.cols.idxs[x.cols.begs[j] + k] != s[j].items[k]) return false; if (x.costs[j] != (real_t)s[j].cost) return false; } return true;
}
static bool same(Instance const& a, Instance const& b) { if (a.cols.idxs != b.cols.idxs || a.cols.begs.size() != b.cols.begs.size() || a.rows != b.rows || a.costs.size() != b.costs.size()) return false; for (size_t k = 0; k < a.cols.begs.size(); ++k) if (a.cols.begs[k] != b.cols.begs[k]) return false; for (size_t k = 0; k < a.costs.size(); ++k) if (a.costs[k] != b.costs[k]) return false; return true; }
static Instance& inst(Val const& v) { return *(Instance*)v.p; }
// returns whether the set was accepted
static bool add(Val const& o, std::vector<Set>& have, Set const& s) {
    Instance before = inst(o); Val r; bool ok = true; try { r = pybind11::call("Instance", "add", {o, list(s.items), vreal(s.cost)}); } catch (std::logic_error&) { throw; } catch (std::exception&) { ok = false; }
    bool neg = s.cost < 0, fits = true; for (int i : s.items) if (i < (long)std::numeric_limits<ridx_t>::min() || i > (long)std::numeric_limits<ridx_t>::max()) fits = false; bool minus = false; for (int i : s.items) if (i < 0) minus = true;
    if (ok) { CK(18, fits, "an item outside the index type is accepted"); have.push_back(s); CK(18, holds(inst(o), have), "added set or cost is not stored exactly"); CK(18, r.k == pybind11::INT && r.i == (long)have.size() - 1, "wrong index returned for the added set"); sx_cover("added"); }
    else { CK(18, neg || minus || !fits || std::isnan(s.cost) || std::isinf(s.cost), "valid set is rejected"); CK(18, same(before, inst(o)), "rejected set changes the instance"); sx_cover("rejected"); }
    CK(18, !(ok && neg), "negative cost is accepted"); return ok;
}
static bool prepare(Val const& o, std::vector<Set> const& have) {
    int top = -1; bool minus = false; for (auto const& s : have) for (int i : s.items) { if (i > top) top = i; if (i < 0) minus = true; } bool gap = false; for (int i = 0; i <= top && !gap; ++i) { bool f = false; for (auto const& s : have) for (int q : s.items) if (q == i) f = true; gap = !f; }
    Instance before = inst(o); bool ok = true; try { pybind11::call("Instance", "prepare", {o}); } catch (std::logic_error& e) { if (top < (long)std::numeric_limits<ridx_t>::max()) throw; ok = false; } catch (std::exception&) { ok = false; }
    CK(18, holds(inst(o), have), "preparing changes the sets"); if (!ok) { CK(18, gap || minus || top >= (long)std::numeric_limits<ridx_t>::max(), "instance without missing items is rejected"); sx_cover("not prepared"); return false; }
    CK(18, !gap && !minus, "instance with an item in no set is accepted"); Instance& x = inst(o); CK(18, (long)x.rows.size() == top + 1, "wrong number of rows");
    for (int i = 0; i <= top; ++i) { std::vector<int> want; for (size_t j = 0; j < have.size(); ++j) for (int q : have[j].items) if (q == i) want.push_back((int)j); std::vector<int> got; for (auto j : x.rows[i]) got.push_back(j); std::sort(got.begin(), got.end()); CK(18, got == want, "row list differs from the sets"); } sx_cover("prepared"); return true;
}
static Set anySet(int most, int hi, bool odd) { Set s; int k = sx_pin(sx_int("items", 0, most)); for (int q = 0; q < k; ++q) s.items.push_back(sx_int("item", -1, hi)); int c = sx_pin(sx_int("cost", 0, odd ? 3 : 1)); s.cost = c == 0 ? 1.5 : c == 1 ? -1 : c == 2 ? sx_reald("c", -20, 20, 2) : INFINITY; return s; }
static void history(int n, int most, int hi) { // sets added one after another, prepared in between
    Val o = pybind11::call("Instance", "__init__", {}); std::vector<Set> have; CK(18, holds(inst(o), have), "new instance is not empty"); int when = sx_pin(sx_int("prepareAfter", 0, n - 1));
    for (int k = 0; k < n; ++k) { Set s = anySet(most, hi, k == 0); if (!add(o, have, s) && std::isnan(s.cost)) return; if (std::isnan(s.cost) || std::isinf(s.cost)) return; if (k == when) prepare(o, have); } Val c = pybind11::call("Instance", "copy", {o}); prepare(o, have); CK(18, holds(inst(c), have), "copy changes with the original"); obsInst(inst(o));
}
static void large() { // items next to the limits of the index type
    long M = std::numeric_limits<ridx_t>::max(); Val o = pybind11::call("Instance", "__init__", {}); std::vector<Set> have; int top = (int)M - 2 + sx_pin(sx_int("top", 0, 4)); bool full = sx_pin(sx_int("full", 0, 1)); Set s; s.cost = 1; if (full) for (int i = 0; i <= top && i <= M; ++i) s.items.push_back(i); else s.items = {0, top}; if (!full && sx_pin(sx_int("filler", 0, 1))) { s.items.assign(top + 3, 0); s.items[1] = top; } if (add(o, have, s)) prepare(o, have); obs(have.size());
}
static void results() { // attributes of results give the values of the result
    CftResult r; int n = sx_pin(sx_int("n", 0, 3)); for (int k = 0; k < n; ++k) { r.sol.idxs.push_back(sx_int("idx", 0, 1000)); r.dual.mults.push_back(sx_real("mult", 0, 100, 3)); } r.sol.cost = sx_real("cost", -100, 100, 2); r.dual.lb = sx_real("lb", -100, 100, 2);
    Val v = pybind11::vobj(&r); if (sx_pin(sx_int("copy", 0, 1))) { v = pybind11::call("CftResult", "copy", {v}); CK(22, v.p != (void*)&r, "copy is not a copy"); CftResult keep = r; r.sol.idxs.assign(2, 77); r.dual.lb = 9999; CftResult& q = *(CftResult*)v.p; r = keep; CK(22, q.sol.idxs == r.sol.idxs && q.dual.mults == r.dual.mults && q.sol.cost == r.sol.cost && q.dual.lb == r.dual.lb, "copy differs from the result"); }
    for (int half = 0; half < 2; ++half) { Val s = pybind11::getattr("CftResult", half ? "dual" : "sol", v); CK(22, s.k == pybind11::OBJ && s.t == (half ? pybind11::tag<DualState>() : pybind11::tag<Solution>()), "result attribute of the wrong class"); if (sx_pin(sx_int("copy2", 0, 1))) s = pybind11::call(half ? "DualState" : "Solution", "copy", {s}); int lists = 0, reals = 0;
        for (auto& m : pybind11::registry()->names) if (m.cls == (half ? "DualState" : "Solution") && m.get) { Val x = m.get({s}); if (x.k == pybind11::LIST) { ++lists; CK(22, x.l.size() == (size_t)n, "list attribute of the result has the wrong length"); for (int k = 0; k < n; ++k) CK(22, half ? (real_t)x.l[k].d == r.dual.mults[k] : x.l[k].i == r.sol.idxs[k], "list attribute of the result has wrong values"); } else if (x.k == pybind11::REAL) { ++reals; CK(22, (real_t)x.d == (half ? r.dual.lb : r.sol.cost), "number attribute of the result is wrong"); } } CK(22, lists > 0 && reals > 0, "result attributes missing"); }
    sx_cover("results"); obs(r.sol.cost);
}
static void environment() { // parameters set from Python
    static char const* const N[] = {"seed", "time_limit", "verbose", "epsilon", "heur_iters", "alpha", "beta", "abs_subgrad_exit", "rel_subgrad_exit", "min_fixing"}; Val o = pybind11::call("Environment", "__init__", {}); Environment& e = *(Environment*)o.p; Environment d; int w = sx_pin(sx_int("which", 0, 9)); int x = sx_int("value", 0, 100); bool real = w != 0 && w != 2 && w != 4;
    CK(22, e.seed == d.seed && e.time_limit == d.time_limit && e.verbose == d.verbose && e.epsilon == d.epsilon && e.heur_iters == d.heur_iters && e.alpha == d.alpha && e.beta == d.beta && e.min_fixing == d.min_fixing, "new environment differs from the default"); pybind11::setattr("Environment", N[w], o, real ? vreal(x * 0.25) : vint(x)); real_t f = (real_t)(x * 0.25);
    CK(22, e.seed == (w == 0 ? (uint64_t)x : d.seed), "seed differs from the requested one"); CK(22, e.time_limit == (w == 1 ? x * 0.25 : d.time_limit), "time limit differs from the requested one"); CK(22, e.verbose == (w == 2 ? (uint64_t)x : d.verbose), "verbosity differs from the requested one"); CK(22, e.epsilon == (w == 3 ? f : d.epsilon), "epsilon differs from the requested one"); CK(22, e.heur_iters == (w == 4 ? (uint64_t)x : d.heur_iters), "iterations differ from the requested ones"); CK(22, e.alpha == (w == 5 ? f : d.alpha), "alpha differs from the requested one"); CK(22, e.beta == (w == 6 ? f : d.beta), "beta differs from the requested one"); CK(22, e.abs_subgrad_exit == (w == 7 ? f : d.abs_subgrad_exit), "absolute exit threshold differs from the requested one"); CK(22, e.rel_subgrad_exit == (w == 8 ? f : d.rel_subgrad_exit), "relative exit threshold differs from the requested one"); CK(22, e.min_fixing == (w == 9 ? f : d.min_fixing), "min_fixing differs from the requested one");
    Val g = pybind11::getattr("Environment", N[w], o); CK(22, real ? (real_t)g.d == f : g.i == x, "parameter reads back differently"); prng_t a = e.rnd, b(e.seed); for (int k = 0; k < 2; ++k) CK(22, a() == b(), "random generator is not seeded with the given seed"); sx_cover("environment"); obs(e.seed);
}
#ifndef HT
#define HT sx_pin(sx_int("test", LO, HI))
#endif
void sx_test() { pybind11::Registry here; pybind11::registry() = &here; pybind11::module_ m; sx_py_module(m); sx_steplimit(20000000);
#ifdef DUMP
    for (auto& x : here.names) { if (x.fn) std::printf("F %s.%s\n", x.cls.c_str(), x.name.c_str()); if (x.get) std::printf("A %s.%s %ld %d\n", x.cls.c_str(), x.name.c_str(), (long)x.off, (int)(bool)x.set); } 
#define K(c, f) std::printf("K " #c "." #f " %ld\n", (long)((size_t)&((c*)4096)->f - 4096));
    K(Environment, inst_path) K(Environment, sol_path) K(Environment, initsol_path) K(Environment, parser) K(Environment, seed) K(Environment, time_limit) K(Environment, verbose) K(Environment, epsilon) K(Environment, heur_iters) K(Environment, alpha) K(Environment, beta) K(Environment, abs_subgrad_exit) K(Environment, rel_subgrad_exit) K(Environment, use_unit_costs) K(Environment, min_fixing)
    K(Instance, cols) K(Instance, rows) K(Instance, costs) K(Solution, idxs) K(Solution, cost) K(DualState, mults) K(DualState, lb) K(CftResult, sol) K(CftResult, dual) K(FileData, inst) K(FileData, init_sol)
    std::printf("K SparseBinMat.idxs %ld\nK SparseBinMat.begs %ld\n", (long)((size_t)&((SparseBinMat<ridx_t>*)4096)->idxs - 4096), (long)((size_t)&((SparseBinMat<ridx_t>*)4096)->begs - 4096)); sx_observe(1); return;
#endif
    switch (HT) { case 0: history(2, 2, 2); break; case 1: history(3, 1, 3); break; case 2: history(1, 3, 5); break; case 3: if (sizeof(ridx_t) == 1) large(); break; case 4: results(); break; case 5: environment(); break; case 6: if (HX) history(3, 2, 2); break; case 7: if (HX) history(2, 3, 3); break; } }
