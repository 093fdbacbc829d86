#ifndef HCOMMON_H
#define HCOMMON_H
#include "symx.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>
#include "core/Instance.hpp"
#include "core/cft.hpp"
namespace h {
using namespace cft;
// every row non-empty, every column non-empty instance of a symbolic structure
struct Shape { int m, n; bool in[12][40]; };
inline Shape symShape(int m, int n) {
    Shape s; s.m = m; s.n = n;
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) s.in[i][j] = sx_bool("in") ? true : false;
    return s;
}
inline bool feasible(Shape const& s) { for (int i = 0; i < s.m; ++i) { bool c = false; for (int j = 0; j < s.n; ++j) if (s.in[i][j]) c = true; if (!c) return false; } return true; }
inline bool noEmptyCol(Shape const& s) { for (int j = 0; j < s.n; ++j) { bool c = false; for (int i = 0; i < s.m; ++i) if (s.in[i][j]) c = true; if (!c) return false; } return true; }
inline Instance build(Shape const& s) {
    Instance inst; inst.rows.resize(s.m);
    for (int j = 0; j < s.n; ++j) {
        std::vector<ridx_t> c; for (int i = 0; i < s.m; ++i) if (s.in[i][j]) { c.push_back(i); inst.rows[i].push_back(j); }
        for (ridx_t i : c) inst.cols.idxs.push_back(i);
        inst.cols.begs.push_back(inst.cols.idxs.size()); inst.costs.push_back(0);
    }
    return inst;
}
inline bool has(Instance const& inst, cidx_t j, ridx_t i) { for (size_t k = inst.cols.begs[j]; k < inst.cols.begs[j + 1]; ++k) if (inst.cols.idxs[k] == i) return true; return false; }
// rows and columns describe the same matrix and all indices are in range
inline bool consistent(Instance const& x) {
    size_t n = x.cols.begs.size() - 1, m = x.rows.size();
    if (x.cols.begs.empty() || x.cols.begs[0] != 0 || x.cols.begs.back() != x.cols.idxs.size() || x.costs.size() != n) return false;
    size_t tot = 0;
    for (size_t j = 0; j < n; ++j) { if (x.cols.begs[j] > x.cols.begs[j + 1]) return false;
        for (size_t k = x.cols.begs[j]; k < x.cols.begs[j + 1]; ++k) { auto i = x.cols.idxs[k]; if (i < 0 || (size_t)i >= m) return false;
            for (size_t q = x.cols.begs[j]; q < k; ++q) if (x.cols.idxs[q] == i) return false;
            bool f = false; for (auto c : x.rows[i]) if (c == (cidx_t)j) f = true; if (!f) return false; } }
    for (size_t i = 0; i < m; ++i) { tot += x.rows[i].size(); for (size_t k = 0; k < x.rows[i].size(); ++k) { auto j = x.rows[i][k]; if (j < 0 || (size_t)j >= n) return false; for (size_t q = 0; q < k; ++q) if (x.rows[i][q] == j) return false; } }
    return tot == x.cols.idxs.size();
}
inline bool distinctInRange(std::vector<cidx_t> const& v, size_t n) { for (size_t a = 0; a < v.size(); ++a) { if (v[a] < 0 || (size_t)v[a] >= n) return false; for (size_t b = 0; b < a; ++b) if (v[a] == v[b]) return false; } return true; }
inline bool covers(Instance const& x, std::vector<cidx_t> const& v) { std::vector<char> c(x.rows.size(), 0); for (auto j : v) for (size_t k = x.cols.begs[j]; k < x.cols.begs[j + 1]; ++k) c[x.cols.idxs[k]] = 1; for (char b : c) if (!b) return false; return true; }
inline double sumCost(Instance const& x, std::vector<cidx_t> const& v) { double c = 0; for (auto j : v) c += x.costs[j]; return c; }
inline void obsInst(Instance const& x) { for (auto i : x.cols.idxs) obs((int)i); for (auto b : x.cols.begs) obs(b); for (auto c : x.costs) obs(c); for (auto const& r : x.rows) { obs(r.size()); for (auto j : r) obs((int)j); } }
}
#endif
