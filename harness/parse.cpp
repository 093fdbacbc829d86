// C10, C11, C12: file parsers and the solution writer, on in-memory files.
#include <cmath>
#include <stdexcept>
#include <string>
#include "common.h"
#include "core/parsing.hpp"
#include "ck.h"
using namespace h;
#ifndef HX
#define HX 0
#endif
enum { RAIL, SCP, CVRP, MPS, SOL };
static void put(char const* p, std::string const& s) { sxfs::put(p, s); }
// every index in range and the two views of the matrix equal as multisets
static bool agree(Instance const& x) {
    size_t n = x.cols.begs.size() - 1, m = x.rows.size(); if (x.cols.begs.empty() || x.cols.begs[0] != 0 || (size_t)x.cols.begs.back() != x.cols.idxs.size() || x.costs.size() != n) return false;
    size_t tot = 0; for (size_t i = 0; i < m; ++i) { tot += x.rows[i].size(); for (auto j : x.rows[i]) if (j < 0 || (size_t)j >= n) return false; } if (tot != x.cols.idxs.size()) return false;
    for (size_t j = 0; j < n; ++j) { if (x.cols.begs[j] > x.cols.begs[j + 1]) return false; for (size_t k = x.cols.begs[j]; k < (size_t)x.cols.begs[j + 1]; ++k) { auto i = x.cols.idxs[k]; if (i < 0 || (size_t)i >= m) return false; int a = 0, b = 0; for (size_t q = x.cols.begs[j]; q < (size_t)x.cols.begs[j + 1]; ++q) a += x.cols.idxs[q] == i; for (auto c : x.rows[i]) b += c == (cidx_t)j; if (a != b) return false; } }
    return true;
}
static bool colIs(Instance const& x, size_t j, std::vector<int> const& v) { if ((size_t)x.cols.begs[j + 1] - x.cols.begs[j] != v.size()) return false; for (size_t k = 0; k < v.size(); ++k) if (x.cols.idxs[x.cols.begs[j] + k] != v[k]) return false; return true; }
static int parse(int kind, FileData& f) {
    try { switch (kind) { case RAIL: f.inst = parse_rail_instance("f"); break; case SCP: f.inst = parse_scp_instance("f"); break; case CVRP: f = parse_cvrp_instance("f"); break; case MPS: f.inst = parse_mps_instance("f"); break; default: f.init_sol = parse_solution("f"); } return 0; }
    catch (std::exception&) { return 1; }
}
static void survive(int kind) {
    FileData f{}; int r = parse(kind, f); obs(r); if (r) { sx_cover("rejected"); return; } sx_cover("accepted");
    if (kind == SOL) { obs(f.init_sol.idxs.size()); return; }
    CK(11, agree(f.inst), "accepted instance has indices out of range or rows and columns that disagree"); for (auto j : f.init_sol.idxs) CK(11, j >= 0 && (size_t)j < f.inst.costs.size(), "accepted initial solution has a column out of range"); obsInst(f.inst);
}
static void arbitrary(int kind, int n) { int k = sx_pin(sx_int("n", 0, n)); std::string s; for (int i = 0; i < k; ++i) s.push_back((char)sx_byte("c")); put("f", s); survive(kind); }
static char const* SEED[][3] = {{"2 2\n3 1 1\n5.5 2 2 1\n", "3 1\n1e1 3 1 2 3", "1 3\n1 1 1\n2 1 1\n0 0\n"}, {"2 3\n1 2\n3\n2\n1 3\n1\n2\n", "1 2\n4 5\n2\n1\n2", "2 1\n7\n1\n1\n1\n1\n"}, {"2 2\n3 4 0 1\n5 5 1\n0 1\n", "3 1\n1 1.5 2 0 1\n0", "1 2\n1 1 0\n2 2\n1 0 1 0\n"},
    {"ROWS\n N o\n G r\n L q\nCOLUMNS\n x r 1 o 2\n y o 3\n y q 1 r 1\nRHS\n", "NAME a\nROWS\n N o\n G r\nCOLUMNS\n m 'MARKER' 'INTORG'\n x o .5 r 1\nRHS\n", "ROWS\n G r\n N o\nCOLUMNS\n x o -1\n x r 1\n z r 1\nRHS"}, {"10.5 1 2 3", "3\n", "-1e2 0 7 2\n"}};
// a valid file with up to w consecutive bytes replaced by / inserted as arbitrary bytes, bytes removed, or the rest cut off, anywhere
static void window(int kind, int which, int w) {
    std::string s = SEED[kind][which]; int p = sx_pin(sx_int("at", 0, s.size())), op = sx_pin(sx_int("op", 0, 3)), k = op == 3 ? 0 : sx_pin(sx_int("len", 1, w)); if (op < 2 && k + p > (int)s.size()) sx_prune();
    if (op == 3) s.resize(p); else if (op == 2) { for (int i = 0; i < k; ++i) s.insert(s.begin() + p, (char)sx_byte("c")); } else if (op == 1) s.erase(p, k); else for (int i = 0; i < k; ++i) s[p + i] = (char)sx_byte("c");
    put("f", s); survive(kind);
}
static std::string num(char const*, int lo, int hi) { std::string o; sxfmt::plain(o, lo); if (lo != hi) o = "?"; return o; }
struct Num { std::string t; long v; };
static Num digits(char const* n, int max, bool sign) { Num x; x.v = 0; bool neg = sign && sx_pin(sx_int("minus", 0, 1)); if (neg) x.t = "-"; int k = max == 1 ? 1 : sx_pin(sx_int("digits", 1, max)); for (int i = 0; i < k; ++i) { int d = sx_int(n, 0, 9); x.v = x.v * 10 + d; x.t.push_back((char)('0' + d)); } if (neg) x.v = -x.v; return x; }
static std::string any(char const* n, int max) { // short: any digits; long: around the limits of the 8 to 64 bit types
    if (max < 4) return digits(n, max, true).t; static char const* B[] = {"", "12", "25", "3276", "6553", "214748364", "429496729", "922337203685477580", "1844674407370955161", "99999999999999999999"}; std::string t = sx_pin(sx_int("minus", 0, 1)) ? "-" : ""; t += B[sx_pin(sx_int("near", 0, 9))]; t.push_back((char)('0' + sx_int(n, 0, 9))); return t; }
// numbers of any size everywhere in the file
static void numeric(int kind, int v) {
    int L = v ? 5 + HX : 2; int R = v ? 3 : sx_pin(sx_int("R", -1, kind == RAIL ? 3 : kind == SCP ? 2 : 1 + HX)), C = v ? sx_pin(sx_int("C", 1, 1 + HX)) : sx_pin(sx_int("C", -1, 2)); std::string s = num("rows", R, R) + " " + num("cols", C, C) + "\n"; if (v == 2) { s = any("rows", 9); s[s.size() - 1] = (char)sx_pin(s[s.size() - 1]); s += " 1\n"; C = 1; R = 1; } if (v == 3) { s = "2 " + any("cols", 11) + "\n"; C = 1; R = 1; }
    int n = C > 0 ? C : 0, K = v ? 1 : 2; if (kind == CVRP && n > 1) K = 1; if (v == 2) L = 2;
    if (kind == RAIL) for (int j = 0; j < n; ++j) { int k = sx_pin(sx_int("k", -1, K)); s += "4 " + num("k", k, k); for (int q = 0; q < (k < 1 ? 1 : k); ++q) s += " " + any("idx", L); s += "\n"; }
    if (kind == CVRP) { for (int j = 0; j < n; ++j) { s += "4 " + digits("c2", 1, false).t; int k = sx_pin(sx_int("k", 0, K)); for (int q = 0; q < k; ++q) s += " " + any("idx", L); s += "\n"; } s += any("sol", v == 1 ? 10 : 2) + " " + any("sol", 1) + "\n"; }
    if (kind == SCP) { for (int j = 0; j < n; ++j) s += "4 "; s += "\n"; for (int i = 0; i < (R > 0 ? v ? 1 : R : 0); ++i) { int k = sx_pin(sx_int("k", -1, K)); s += num("k", k, k) + "\n"; for (int q = 0; q < k; ++q) s += any("idx", v ? 10 : 2) + " "; s += "\n"; } if (v) s += "0\n0\n"; }
    put("f", s); survive(kind);
}
static char const* VOC[] = {"COLUMNS", "RHS", "ROWS", " N o", " G r", " L q", " N", " G", " x r 1", " x o 2", " y r 1 o 3", " y z 1", " x r 1 q", " x o .5 q 1", "", "x o a", " E r 1", " x  o +7", " w r -1\tq 1\r", "  COLUMNS\r"};
static void mpsLines(int n, bool rows) { std::string s = rows ? "ROWS\n N o\n G r\n" : "ROWS\n"; for (int i = 0; i < n; ++i) { s += VOC[sx_pin(sx_int("line", 0, 19))]; if (i + 1 < n || sx_pin(sx_int("nl", 0, 1))) s += "\n"; } put("f", s); survive(MPS); }
// more rows or columns per row than the index types can hold
static void many() { int k = sx_pin(sx_int("rows", 0, 6)); long big = 2l * (long)std::numeric_limits<ridx_t>::max() + 2; long cnt[] = {(long)std::numeric_limits<ridx_t>::max() - 1, (long)std::numeric_limits<ridx_t>::max(), (long)std::numeric_limits<ridx_t>::max() + 1, big - 1, big, big + 1, big + 5}; std::string s = "ROWS\n N o\n"; for (long i = 0; i < cnt[k]; ++i) { s += " G "; sxfmt::plain(s, i); s += "\n"; } s += "COLUMNS\n x o 1 "; int r = sx_pin(sx_int("at", 0, 3)); sxfmt::plain(s, r == 0 ? 0l : r == 1 ? cnt[k] - 1 : r == 2 ? cnt[k] / 2 : 3l); s += " 1\nRHS\n"; put("f", s); survive(MPS); }
static void manyRail() { int extra = sx_pin(sx_int("extra", -1, 2)); long big = 2l * (long)std::numeric_limits<ridx_t>::max() + 2 + extra; int n = sx_pin(sx_int("n", -1, 2)); std::string s = "3 1\n7 "; sxfmt::plain(s, n); for (long i = 0; i < big; ++i) s += i & 1 ? " 2" : " 1"; s += "\n"; put("f", s); survive(RAIL); }
// ---- well-formed files
static int style; static char const* GAP[] = {" ", "  ", "\t", " ", " \t "}; static char const* END[] = {"\n", " \n", "\r\n", "\n", "\t\r\n"}; static char const* LEAD[] = {"", " ", "", "", "\t"};
static std::string g() { return GAP[style]; } static std::string e() { return END[style]; } static std::string l() { return LEAD[style]; }
static std::string finish(std::string s) { if (style == 3) s.pop_back(); return s; }
static std::string integer(long x) { std::string o; sxfmt::plain(o, x); return o; }
struct Cost { std::string t; real_t v; };
static Cost cost(int j, bool neg, bool few) { Cost c; if (j > 1) { c.v = 7 + j; c.t = integer(7 + j); return c; } Num d = digits("cost", (j || few ? 1 : style % 2 ? 2 : 1) + HX, neg); static char const* FT[] = {"", ".5", ".125", "."}; static real_t const FV[] = {0, 0.5f, 0.125f, 0}; int f = j ? 0 : style || few ? (style + 3) % 4 : sx_pin(sx_int("frac", 0, 3)); c.t = d.t + FT[f]; c.v = (real_t)(int)d.v; if (d.t[0] == '-') c.v -= FV[f]; else c.v += FV[f]; return c; }
static void wellformed(int kind, int m, int n, bool whole) {
    style = sx_pin(sx_int("style", 0, 4)); bool rev = sx_pin(sx_int("rev", 0, 1)); bool in[4][5]; for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) in[i][j] = sx_pin(sx_int("in", 0, 1));
    std::vector<real_t> c; std::vector<std::string> ct; for (int j = 0; j < n; ++j) { Cost x = cost(j, j == 1 && kind != CVRP && kind != SCP, whole); c.push_back(x.v); ct.push_back(x.t); }
    std::vector<std::vector<int>> col(n), row(m); for (int j = 0; j < n; ++j) { for (int i = 0; i < m; ++i) if (in[i][j]) col[j].push_back(i); if (rev && kind != SCP) std::reverse(col[j].begin(), col[j].end()); } for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (in[i][j]) row[i].push_back(j);
    std::string s = l() + integer(m) + g() + integer(n) + e(); std::vector<cidx_t> isol;
    if (kind == RAIL) for (int j = 0; j < n; ++j) { s += l() + ct[j] + g() + integer(col[j].size()); for (int i : col[j]) s += g() + integer(i + 1); s += e(); }
    if (kind == SCP) { int wrap = sx_pin(sx_int("wrap", 1, n)); for (int j = 0; j < n; ++j) { s += (j % wrap ? g() : l()) + ct[j]; if (j % wrap == wrap - 1 || j == n - 1) s += e(); } for (int i = 0; i < m; ++i) { std::vector<int> q = row[i]; if (rev) std::reverse(q.begin(), q.end()); s += l() + integer(q.size()) + e(); for (size_t k = 0; k < q.size(); ++k) { s += (k % wrap ? g() : l()) + integer(q[k] + 1); if (k % wrap == (size_t)wrap - 1 || k == q.size() - 1) s += e(); } } }
    if (kind == CVRP) { for (int j = 0; j < n; ++j) { s += l() + ct[j] + g() + (j == 1 ? "9999" : ct[j]); for (int i : col[j]) s += g() + integer(i); s += e(); } int k = sx_pin(sx_int("k", 0, 2)); for (int q = 0; q < k; ++q) { isol.push_back(sx_pin(sx_int("sol", 0, n - 1))); s += (q ? g() : l()) + integer(isol.back()); } s += e(); }
    if (kind == MPS) {
        char const* ty[] = {"G", "L", "E"}; int lay = sx_pin(sx_int("layout", 0, 2)); bool two = lay != 0, first = lay == 2, mark = style & 1; s = (style == 2 ? "NAME x" + e() + "* rem" + e() : std::string("NAME\n")) + "ROWS" + (style == 2 ? "\r\n" : "\n"); int at = first ? m : lay ? 0 : m / 2;
        static char const* RNS[][4] = {{"r", "rr", "3", "R"}, {"row_long_name_2", "row_long_name_1", "row_long_name_", "row_long_name_3"}}; char const* const* RN = RNS[style == 3]; static char const* CN[][4] = {{"x0", "x1", "x2", "x3"}, {"z", "y", "x", "w"}, {"col", "co", "cols", "c"}, {"column_long_name_1", "column_long_name_0", "column_long_name_2", "column_long_name_"}, {"x", "X", "r", "1"}}; for (int i = 0; i <= m; ++i) { if (i == at) s += " N" + g() + "obj" + e(); if (i < m) s += " " + std::string(ty[i % 3]) + g() + RN[i] + e(); } s += "COLUMNS\n"; if (mark) s += " M1 'MARKER' 'INTORG'" + e();
        for (int j = 0; j < n; ++j) { std::vector<std::string> p; std::string cs = ct[j]; if (style == 4 && j == 0 && cs.size() > 3) { cs = ".5"; c[j] = 0.5f; } for (int i : col[j]) p.push_back(RN[i] + g() + (i % 3 == 1 ? "-1" : "1")); p.insert(first ? p.begin() : p.end(), "obj" + g() + cs);
            for (size_t k = 0; k < p.size(); ++k) { if (!two || k % 2 == 0) s += l() + " " + CN[style][j] + g(); else s += g(); s += p[k]; if (!two || k % 2 == 1 || k == p.size() - 1) s += e(); } } if (mark) s += " M2 'MARKER' 'INTEND'" + e(); s += "RHS\n RHS" + g() + RN[0] + g() + "1" + e() + "BOUNDS\nENDATA\n"; }
    put("f", finish(s)); FileData f{};
    if (!whole) { int r = parse(kind, f); CK(10, r == 0, "well-formed file is rejected"); }
    else { Environment env; env.verbose = 0; env.inst_path = "f"; env.parser = kind == RAIL ? "RAIL" : kind == SCP ? "SCP" : kind == CVRP ? "CVRP" : "MPS"; env.use_unit_costs = sx_pin(sx_int("unit", 0, 1)); bool given = sx_pin(sx_int("given", 0, 1)); std::vector<cidx_t> gs; real_t gc = 0;
        if (given) { env.initsol_path = "s"; Num d = digits("solcost", 1, true); gc = (real_t)(int)d.v; std::string t = d.t; int k = sx_pin(sx_int("k", 0, 2)); for (int q = 0; q < k; ++q) { gs.push_back(sx_pin(sx_int("sol", 0, n - 1))); t += g() + integer(gs.back()); } put("s", finish(t + e())); }
        try { f = parse_inst_and_initsol(env); } catch (std::exception&) { CK(10, false, "well-formed file is rejected"); }
        std::vector<cidx_t> const& want = given ? gs : isol; CK(10, f.init_sol.idxs == want, "initial solution is not the one in the file"); real_t wc = 0; for (auto j : isol) wc += c[j]; if (given) wc = gc; if (env.use_unit_costs) wc = (real_t)want.size(); if (given || kind == CVRP || env.use_unit_costs) CK(10, f.init_sol.cost == wc, "cost of the initial solution is not the one of the file"); if (env.use_unit_costs) for (auto& x : c) x = 1; sx_cover(env.use_unit_costs ? "unit costs" : given ? "initial solution" : "whole"); }
    CK(10, f.inst.costs.size() == (size_t)n && f.inst.cols.begs.size() == (size_t)n + 1, "wrong number of columns"); CK(10, f.inst.rows.size() == (size_t)m, "wrong number of rows"); CK(10, agree(f.inst), "rows and columns do not describe the same matrix");
    for (int j = 0; j < n; ++j) { CK(10, f.inst.costs[j] == c[j], "column has another cost than in the file"); if (kind == MPS || kind == RAIL || kind == CVRP) { std::vector<int> v = col[j]; CK(10, colIs(f.inst, j, v), "column covers other rows than in the file"); } else CK(10, colIs(f.inst, j, col[j]), "column covers other rows than in the file"); }
    if (!whole && kind == CVRP) { CK(10, f.init_sol.idxs == isol, "initial solution is not the one in the file"); real_t wc = 0; for (auto j : isol) wc += c[j]; CK(10, f.init_sol.cost == wc, "cost of the initial solution is not the one of the file"); }
    sx_cover(kind == RAIL ? "rail" : kind == SCP ? "scp" : kind == CVRP ? "cvrp" : "mps"); for (auto x : f.inst.costs) obs(x);
}
static void badInitSol() { put("f", "1 2\n1 1 1\n2 1 1\n"); std::string t = "3"; int k = sx_pin(sx_int("k", 0, 2)); std::vector<int> v; for (int q = 0; q < k; ++q) { Num d = digits("sol", 6, true); v.push_back(d.v); t += " " + d.t; } put("s", t); Environment env; env.verbose = 0; env.inst_path = "f"; env.initsol_path = "s"; int r = 0; FileData f{}; try { f = parse_inst_and_initsol(env); } catch (std::exception&) { r = 1; } if (!r) for (auto j : f.init_sol.idxs) CK(11, j >= 0 && j < 2, "accepted initial solution has a column out of range"); sx_cover(r ? "rejected" : "accepted"); obs(r); }
// ---- write and read back
static void roundtrip(int n, int mode) { // mode 0: cost of any digits, 1: any indexes, 2: reals at the limits (formatted by the real library)
    Solution s; s.cost = 1; static real_t const X[] = {0.1f, 3.4028235e38f, 1.17549435e-38f, 1e-45f, 1e10f, 16777217.f, -0.3f, 99999.99f, 2.5e7f, 123456.789f, -3.4028235e38f, 1e21f, 0, 1e16f, 33554434.f, 0.00001f, 4294967296.f, 1.0f / 3};
    if (mode == 2) { s.cost = X[sx_pin(sx_int("which", 0, 17))]; sxfmt::real() = true; }
    if (mode == 0) { Num d = digits("cost", 3 + HX, true); static char const* FT[] = {"", ".5", ".125", ".0625"}; static real_t const FV[] = {0, 0.5f, 0.125f, 0.0625f}; int f = d.t.size() > 3 ? 0 : sx_pin(sx_int("frac", 0, 3)); s.cost = (real_t)(int)d.v; if (d.t[0] == '-') s.cost -= FV[f]; else s.cost += FV[f]; sxfmt::tell(s.cost, d.t + FT[f]); }
    for (int k = 0; k < n; ++k) { int near = sx_pin(sx_int("near", 0, 2 + HX)); if (mode == 2 || near == 0) { s.idxs.push_back(3 + k); continue; } std::string t = sx_pin(sx_int("minus", 0, 1)) ? "-" : ""; long v = 0; if (near == 1 && n > 1) { Num d = digits("idx", 2, false); t += d.t; v = d.v; } else if (near == 1) { Num d = digits("idx", 4 + HX, false); t += d.t; v = d.v; } else { int d = sx_int("idx", 0, 7); v = 2147483640 + d; t += "214748364"; t.push_back((char)('0' + d)); } s.idxs.push_back((int)(t[0] == '-' ? -v : v)); sxfmt::tell(v, t[0] == '-' ? t.substr(1) : t); }
    if (sx_pin(sx_int("exists", 0, 1))) put("out", "77 1 2 3 4 5 6 7 8\n99\n"); Solution b = s; sxfmt::fresh() = true; write_solution("out", s); CK(12, s.idxs == b.idxs && s.cost == b.cost, "writing changes the solution"); Solution r; try { r = parse_solution("out"); } catch (std::exception&) { CK(12, false, "written solution cannot be read"); }
    CK(12, r.idxs.size() == s.idxs.size(), "columns lost or added"); for (size_t k = 0; k < s.idxs.size(); ++k) CK(12, r.idxs[k] == s.idxs[k], "another column is read back"); CK(12, r.cost == s.cost, "another cost is read back"); obs(r.cost); for (auto j : r.idxs) obs((int)j); sx_cover(n ? "columns" : "no columns");
}
#ifndef HT
#define HT sx_pin(sx_int("test", LO, HI))
#endif
#ifndef LO
#define LO 0
#define HI 40
#endif
void sx_test() { sxfs::Disk here{}; sxfs::disk() = &here; int t = HT;
#ifdef TMAP
    if (t >= 20) t += 9;   // 0-19, 29, 30, 31
#endif
    sxfmt::fresh() = sxfmt::real() = false; sxfmt::told() = nullptr; sx_steplimit(3000000);
    switch (t) { // 0-4 arbitrary, 5-19 windows, 20-29 numbers, 30-34 lines and sizes, 35-... well-formed, 60-... round trip
    case 0: case 1: case 2: case 3: arbitrary(t, HX ? 5 : 4); break; case 4: arbitrary(SOL, HX ? 5 : 4); break;
    case 20: numeric(RAIL, 0); break; case 21: numeric(CVRP, 0); break; case 22: numeric(SCP, 0); break; case 23: numeric(RAIL, 1); break; case 24: numeric(CVRP, 1); break; case 25: numeric(SCP, 1); break; case 26: numeric(RAIL, 2); break; case 27: numeric(CVRP, 2); break; case 28: numeric(SCP, 2); break; case 29: badInitSol(); break;
    case 30: mpsLines(3 + HX, false); break; case 31: mpsLines(3 + HX, true); break; case 32: if (sizeof(ridx_t) == 1) many(); break; case 33: if (sizeof(ridx_t) == 1) manyRail(); break;
    case 40: wellformed(RAIL, 2, 2, false); break; case 41: wellformed(SCP, 2, 2, false); break; case 42: wellformed(CVRP, 2, 2, false); break; case 43: wellformed(MPS, 2, 2, false); break; case 44: wellformed(RAIL, 3, 2 + HX, false); break; case 45: wellformed(SCP, 2, 3, false); break; case 46: wellformed(CVRP, 1, 3, false); break; case 47: wellformed(MPS, 3, 1 + HX, false); break;
    case 48: wellformed(RAIL, 1, 2, true); break; case 49: wellformed(SCP, 1, 2, true); break; case 50: wellformed(CVRP, 1, 2, true); break; case 51: wellformed(MPS, 1, 2, true); break; case 52: wellformed(RAIL, 1, 0, false); break; case 53: wellformed(RAIL, 4, 1, false); break;
    case 60: roundtrip(0, 0); break; case 61: roundtrip(1, 1); break; case 62: roundtrip(2, 1); break; case 63: roundtrip(1, 2); break; case 64: if (HX) roundtrip(3, 1); break; case 65: if (HX) roundtrip(1, 0); break;
    default: if (t >= 5 && t < 20) window((t - 5) / 3, (t - 5) % 3, 2 + HX); } }
