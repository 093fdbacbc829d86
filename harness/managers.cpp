// C21: control rules of the subgradient phase, for every sequence of bounds.
#include <cmath>
#include <cstdio>
#include "core/cft.hpp"
#include "subgradient/utils.hpp"
#include "ck.h"
using namespace cft;
#ifndef HX
#define HX 0
#endif
static real_t free_bound(int w) { return w == 2 ? sx_real("bound", -4000, -1, 1) : w == 1 ? sx_real("bound", 100000 * 8, 102000 * 8, 3) : sx_real("bound", 1, 4000, 3); }
// per period: the highest bound at one iteration, any lower bound at another one, bounds 0.05% lower elsewhere
static void step(int period, int updates, real_t init, int wide) {
    local::StepSizeManager sm(period, init); real_t cur = init, mn = 3e38f, mx = -3e38f; int next = period, from = 0; real_t const top = wide == 2 ? -512 : wide == 1 ? 131072 : 1024;
    for (int k = 0; k < updates; ++k) {
        int at = sx_pin(sx_int("topAt", from, next)), low = sx_pin(sx_int("lowAt", from, next));
        for (int it = from; it <= next; ++it) {
            real_t b = it == at ? top : it == low ? (wide == 2 ? sx_real("bound", -4000, -1025, 1) : wide == 1 ? sx_real("bound", 129000 * 8, 131072 * 8 - 1, 3) : sx_real("bound", 8, 1024 * 8 - 1, 3)) : top - (top < 0 ? -top : top) / 2048;
            if (b < mn) mn = b; if (b > mx) mx = b; real_t s = sm(it, b);
            if (it == next) { real_t d = (mx - mn) / std::fabs(mx); real_t want = d > 0.01f ? cur / 2 : d <= 0.001f ? cur * 1.5f : cur; want = want < 1e-6f ? 1e-6f : want > 10 ? 10 : want;
                CK(21, s == want, "step size does not follow the spread of the bounds over the period"); sx_cover(d > 0.01f ? "halved" : d <= 0.001f ? "enlarged" : "kept"); cur = want; mn = 3e38f; mx = -3e38f; }
            else CK(21, s == cur, "step size changes inside a period");
            CK(21, s >= 1e-6f && s <= 10, "step size leaves its limits");
        }
        from = next + 1; next += period;
    }
}
static void leaving(size_t period, real_t at, real_t rt, int wide, int n) {
    local::ExitConditionManager ex(period); Environment env; env.verbose = 0; env.abs_subgrad_exit = at; env.rel_subgrad_exit = rt; size_t next = period; real_t prev = 0; bool first = true;
    for (size_t it = 0; it <= period * n; ++it) {
        real_t b = it == next ? (wide == 3 ? first ? sx_real("bound", 512 * 8, 1125 * 8, 3) : 1024 : free_bound(wide)) : (real_t)(it * 7 + 1); bool e = ex(env, it, b), want = false;
        if (it == next) { next += period; if (!first) { real_t d = b - prev; want = d < at && d / b < rt; sx_cover(want ? "stop" : d < at ? "relative improvement" : "absolute improvement"); } else want = false; first = false; prev = b; }
        CK(21, e == want, "search does not stop exactly when neither improvement over a period reaches its threshold");
    }
}
static void pricing(size_t cap, int n, bool extreme) {
    local::PricingManager pm(10, cap); size_t last = 0, period = 10, it = 0, trig = 0; bool any = false; real_t ub = extreme ? 1048576 : 1024;
    for (int k = 0; k < n; ++k) {
        size_t expect = (any ? last : 0) + period; if (any && period == 0) break;
        for (; it < expect; ++it) CK(21, !pm(it), "pricing before its period is over"); CK(21, pm(it), "no pricing at the end of the period"); trig = it; CK(21, !any || trig > last, "pricing iterations do not increase"); any = true; last = trig;
        real_t core = extreme ? sx_real("core", -1000, 1000, 8) : sx_real("core", -2000, 2000, 4), real = extreme ? 0 : sx_real("real", -2000, 2000, 4); real_t d = (core - real) / ub; pm.update(core, real, ub);
        size_t f = d <= 1e-6f ? 10 : d <= 0.02f ? 5 : d <= 0.2f ? 2 : 0; size_t np = f ? (cap < f * period ? cap : f * period) : 10; sx_cover(f == 10 ? "gap closed" : f == 5 ? "gap small" : f == 2 ? "gap medium" : "gap large");
        period = np; CK(21, !pm(it) || period == 0, "pricing twice in the same iteration"); ++it; if (it > 4000) break;
    }
}
#ifndef HT
#define HT sx_pin(sx_int("test", 0, 13))
#endif
void sx_test() { switch (HT) {
    case 0: step(3, 2, 0.1f, 0); break; case 1: step(1, 4, 0.1f, 1); break; case 2: step(2, 2, 1.5e-6f, 0); break; case 3: step(2, 2, 8, 1); break; case 4: step(3, 1 + HX, 0.1f, 2); break; case 5: step(20, 1, 0.1f, 1); break;
    case 6: leaving(3, 1, 0.001f, 3, 2); break; case 7: leaving(300, 1, 0.001f, 1, 2); break; case 8: leaving(2, 0.25f, 0.5f, 2, 3 + HX); break; case 9: leaving(2, 100, 0.25f, 3, 2); break;
    case 10: pricing(1000, 4, false); break; case 11: pricing(33, 5, false); break; case 12: pricing(3, 4, true); break; case 13: pricing(sx_pin(sx_int("cap", 0, 40)), 3, true); break; } }
