// C14: command line; C12 (tests 20+): the program writes the solver's solution to the solution file.
#include <cmath>
#include <fcntl.h>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include "common.h"
#include "algorithms/Refinement.hpp"
#include "core/CliArgs.hpp"
#include "core/parsing.hpp"
#include "ck.h"
using namespace h;
#ifndef HX
#define HX 0
#endif
namespace cft { struct Ran { int times; Environment env; Instance inst; Solution init; CftResult res; }; static Ran* ran;
static CftResult stub_run(Environment const& env, Instance const& inst, Solution const& init = {}) { ++ran->times; ran->env = env; ran->inst = inst; ran->init = init; return ran->res; } }
#define main cft_main
#define run stub_run
#include "main.cpp"
#undef run
#undef main
// the documented flags: kind 0 text, 1 unsigned, 2 double, 3 real, 4 switch, 5 help
struct Flag { char const *s, *l; int kind, what; };
static Flag const FLAGS[] = {{"-i", "--inst", 0, 0}, {"-p", "--parser", 0, 1}, {"-o", "--out-sol", 0, 2}, {"-w", "--init-sol", 0, 3}, {"-s", "--seed", 1, 0}, {"-v", "--verbose", 1, 1}, {"-g", "--heur-iters", 1, 2}, {"-t", "--timelimit", 2, 0}, {"-e", "--epsilon", 3, 0}, {"-b", "--beta", 3, 1}, {"-a", "--abs-subg-exit", 3, 2}, {"-r", "--rel-subg-exit", 3, 3}, {"-u", "--unit-costs", 4, 0}, {"-h", "--help", 5, 0}};
struct Want { std::string text[4]; uint64_t num[3]; double tl; real_t re[4]; bool unit, bad; };
static Want defaults() { Environment e; Want w; w.text[1] = "RAIL"; w.num[0] = e.seed; w.num[1] = e.verbose; w.num[2] = e.heur_iters; w.tl = e.time_limit; w.re[0] = e.epsilon; w.re[1] = e.beta; w.re[2] = e.abs_subgrad_exit; w.re[3] = e.rel_subgrad_exit; w.unit = false; w.bad = false; return w; }
// the meaning of a command line, from the documentation: words are flags (with a following value) or ignored
struct Word { std::string t; int isnum; uint64_t u; double d; };   // isnum: 0 text, 1 natural number, 2 real, 3 negative
static int flagOf(std::string const& t) { for (int f = 0; f < 14; ++f) if (t == FLAGS[f].s || t == FLAGS[f].l) return f; return -1; }
static Want meaning(std::vector<Word> const& a) {
    Want w = defaults();
    for (size_t k = 1; k < a.size(); ++k) { int f = flagOf(a[k].t); if (f < 0 || FLAGS[f].kind == 5) continue; Flag const& F = FLAGS[f]; if (F.kind == 4) { w.unit = true; continue; } if (k + 1 >= a.size()) continue; Word const& v = a[++k];
        switch (F.kind) { case 0: w.text[F.what] = v.t; break;
        case 1: if (!v.isnum || v.isnum == 3) { w.bad = true; return w; } w.num[F.what] = v.u; break;
        case 2: if (!v.isnum) { w.bad = true; return w; } w.tl = v.d; break;
        case 3: if (!v.isnum) { w.bad = true; return w; } w.re[F.what] = (real_t)v.d; break; } }
    return w;
}
static std::string solName(std::string const& p) { size_t b = 0; for (size_t k = 0; k < p.size(); ++k) if (p[k] == '/' || p[k] == '\\') b = k + 1; size_t e = p.size(); for (size_t k = b; k < p.size(); ++k) if (p[k] == '.') e = k; return std::string(p.begin() + b, p.begin() + e) + ".sol"; }
static bool sameRnd(prng_t a, prng_t b) { for (int k = 0; k < 3; ++k) if (a() != b()) return false; return true; }
static int parse(std::vector<Word> const& a, Environment& e) { std::vector<char const*> v; for (auto const& w : a) v.push_back(w.t.c_str()); v.push_back(nullptr); try { e = parse_cli_args((int)a.size(), v.data()); return 0; } catch (std::exception&) { return 1; } }
static bool blankBase(std::string const& s) { return solName(s).size() == 4; }   // a file name that is only an extension: unspecified
static void compare(Environment const& e, Want const& w) {
    CK(14, e.inst_path == w.text[0], "instance path is not the requested one"); CK(14, e.parser == w.text[1], "parser is not the requested one"); CK(14, e.initsol_path == w.text[3], "initial solution path is not the requested one");
    if (!w.text[2].empty()) CK(14, e.sol_path == w.text[2], "output path is not the requested one"); else if (!blankBase(w.text[0])) CK(14, e.sol_path == solName(w.text[0]), "default solution file name is wrong");
    CK(14, e.seed == w.num[0], "seed is not the requested one"); CK(14, e.verbose == w.num[1], "verbosity is not the requested one"); CK(14, e.heur_iters == w.num[2], "heuristic iterations are not the requested ones"); CK(14, e.time_limit == w.tl, "time limit is not the requested one");
    CK(14, e.epsilon == w.re[0], "epsilon is not the requested one"); CK(14, e.beta == w.re[1], "beta is not the requested one"); CK(14, e.abs_subgrad_exit == w.re[2], "absolute exit threshold is not the requested one"); CK(14, e.rel_subgrad_exit == w.re[3], "relative exit threshold is not the requested one"); CK(14, e.use_unit_costs == w.unit, "unit cost switch is not the requested one");
    Environment d; CK(14, e.alpha == d.alpha && e.min_fixing == d.min_fixing, "a parameter without a flag changed");
    CK(14, sameRnd(e.rnd, prng_t(e.seed)), "random generator is not seeded with the given seed");
    obs(e.seed); obs(e.time_limit); obs(e.epsilon); obs(e.use_unit_costs); for (char c : e.sol_path) obs((int)c);
}
static Word text(std::string const& t) { Word w; w.t = t; w.isnum = 0; w.u = 0; w.d = 0; return w; }
// a value word: two arbitrary digits, a fraction, a negative number or a text (possibly looking like a flag)
static Word value(bool rich) {
    int k = sx_pin(sx_int("value", 0, rich ? 7 : 2)); Word w = text(""); int a, b; switch (k) {
    case 0: a = sx_int("digit", 0, 9); w.t = std::string(1, (char)('0' + a)); w.isnum = 1; w.u = a; w.d = a; break;
    case 1: w.t = "x.y/ab.c"; break; case 2: a = sx_int("digit", 0, 9), b = sx_int("digit", 0, 9); w.t = std::string(1, (char)('0' + a)) + (char)('0' + b); w.isnum = 1; w.u = a * 10 + b; w.d = w.u; break;
    case 3: a = sx_int("digit", 1, 9); w.t = std::string(1, (char)('0' + a)) + ".25"; w.isnum = 1; w.u = a; w.d = a + 0.25; break;
    case 4: a = sx_int("digit", 1, 9); w.t = std::string("-") + (char)('0' + a); w.isnum = 3; w.d = -a; break;
    case 5: w.t = "-u"; break; case 6: w.t = "18446744073709551615"; w.isnum = 1; w.u = ~0ull; w.d = 18446744073709551615.0; break; case 7: w.t = "--seed"; break; }
    return w;
}
static void quiet() {
#ifndef SX_NATIVE
    static bool done = false; if (!done) { done = true; int f = open("/dev/null", O_WRONLY); dup2(f, 1); close(f); }
#endif
}
static void run_(std::vector<Word> const& a) {
    Want w = meaning(a); Environment e; int r = parse(a, e);
    if (w.bad || w.text[0].empty()) { CK(14, r, "command line with an invalid number or without instance is accepted"); sx_cover(w.bad ? "bad number" : "no instance"); return; }
    CK(14, !r, "valid command line is rejected"); compare(e, w); sx_cover("accepted"); if (w.unit) sx_cover("unit costs"); if (w.text[2].empty()) sx_cover("default name");
}
static Word flagWord(char const* n, int lo, int hi) { int f = sx_pin(sx_int(n, lo, hi)); int v = sx_pin(sx_int("long", 0, 1)); return text(v ? FLAGS[f].l : FLAGS[f].s); }
static void pairs(int n, bool rich) { // n flags with values, the instance before, between or after them
    std::vector<Word> a; a.push_back(text("prog")); int at = n > 1 && !HX ? n : sx_pin(sx_int("instAt", -1, n)); for (int k = 0; k <= n; ++k) { if (at == k) { a.push_back(text("-i")); a.push_back(text("d.e/f.g")); } if (k < n) { Word f = flagWord("flag", 0, 13); a.push_back(f); int q = flagOf(f.t); if (FLAGS[q].kind < 4) a.push_back(value(rich)); } } run_(a);
}
static void same(int n) { // the same flag again and again, short or long: the last one wins
    int f = sx_pin(sx_int("flag", 0, 11)); std::vector<Word> a; a.push_back(text("prog")); a.push_back(text("-i")); a.push_back(text("q"));
    for (int k = 0; k < n; ++k) { a.push_back(text(sx_pin(sx_int("long", 0, 1)) ? FLAGS[f].l : FLAGS[f].s)); if (FLAGS[f].kind == 0) a.push_back(text(std::string(1, (char)('a' + k)))); else { int d = sx_int("digit", 0, 9); Word w; w.t = std::string(1, (char)('0' + d)); w.isnum = 1; w.u = d; w.d = d; a.push_back(w); } } run_(a);
}
static void words(int n) { // any words in any order, also a flag without value at the end
    std::vector<Word> a; a.push_back(text("-u")); for (int k = 0; k < n; ++k) { int c = sx_pin(sx_int("word", 0, 9)); switch (c) { case 0: a.push_back(text("-i")); break; case 1: a.push_back(text("--seed")); break; case 2: { Word w = text("7"); w.isnum = 1; w.u = 7; w.d = 7; a.push_back(w); break; } case 3: a.push_back(text("-u")); break; case 4: a.push_back(text("-x")); break; case 5: a.push_back(text("-o")); break; case 6: a.push_back(text("")); break; case 7: a.push_back(text("--beta")); break; case 8: a.push_back(text("-w")); break; default: a.push_back(text("-t")); } } run_(a);
}
static void near(bool lng) { // texts that are nearly a flag are no flags
    std::string t; if (lng) { int f = sx_pin(sx_int("flag", 0, 13)); t = FLAGS[f].l; int p = sx_pin(sx_int("at", 0, t.size())), op = sx_pin(sx_int("op", 0, 2)); char c = op == 2 ? 'x' : (char)sx_byte("c"); sx_assume(c != 0); if (op != 1 && p == (int)t.size()) sx_prune(); if (op == 0) t[p] = c; else if (op == 1) t.insert(t.begin() + p, c); else t.erase(p, 1); } else { int n = sx_pin(sx_int("n", 0, 3)); for (int k = 0; k < n; ++k) { char c = (char)sx_byte("c"); sx_assume(c != 0); t.push_back(c); } }
    std::vector<Word> a; a.push_back(text("prog")); a.push_back(text("-i")); a.push_back(text("q")); a.push_back(text(t)); Word w = text("5"); w.isnum = 1; w.u = 5; w.d = 5; a.push_back(w); a.push_back(text("-u")); run_(a);
}
static void name(int n) { std::string s; int k = sx_pin(sx_int("n", 1, n)); for (int i = 0; i < k; ++i) { char c = (char)sx_byte("c"); sx_assume(c != 0); s.push_back(c); } std::vector<Word> a; a.push_back(text("prog")); a.push_back(text("-i")); a.push_back(text(s)); run_(a); }
// the whole program around a solver that returns any result
static void program() {
    static char const* PF[] = {"RAIL", "SCP", "CVRP"}; static char const* FILES[] = {"2 3\n3 1 1\n5 2 1 2\n4 1 2\n", "2 3\n3 5 4\n2\n1 2\n2\n2 3\n", "2 3\n3 3 0\n5 5 0 1\n4 4 1\n0 2\n"};
    int kind = sx_pin(sx_int("kind", 0, 3)), out = sx_pin(sx_int("out", 0, 1)), init = sx_pin(sx_int("init", 0, 1)), unit = sx_pin(sx_int("unit", 0, 1)), bad = sx_pin(sx_int("bad", 0, 4)); if (kind < 3) sxfs::put("d/in.txt", FILES[kind]); sxfs::put("s", "9 0 1\n"); sxfs::put("in.sol", "old contents"); sxfs::put("bad", "3 3 3 3");
    cft::Ran here{}; cft::ran = &here; int n = sx_pin(sx_int("size", 0, 2)); for (int k = 0; k < n; ++k) here.res.sol.idxs.push_back(sx_pin(sx_int("col", 0, 2))); here.res.sol.cost = (real_t)sx_pin(sx_int("cost", 0, 12)); 
    std::vector<char const*> a = {"prog", "-v", "0", "-i", "d/in.txt", "-p", kind < 3 ? PF[kind] : "RAIL", "-s", "3"}; if (out) { a.push_back("-o"); a.push_back("res"); } if (init) { a.push_back("-w"); a.push_back("s"); } if (unit) a.push_back("-u"); if (bad == 1) { a.push_back("-p"); a.push_back("XYZ"); } if (bad == 2) { a.push_back("-w"); a.push_back("missing"); } if (bad == 3) { a.push_back("-t"); a.push_back("soon"); } if (bad == 4) { a.push_back("-i"); a.push_back("bad"); }
    int argc = (int)a.size(); a.push_back(nullptr); int rc = cft_main(argc, a.data()); bool fails = kind == 3 || bad; if (bad == 4 && kind < 3) fails = kind != 0 ? true : true;
    if (fails) { CK(14, rc != 0, "program reports success although an argument or file is invalid"); CK(14, here.times == 0, "solver runs although an argument or file is invalid"); CK(12, *sxfs::find("in.sol") == "old contents" && !sxfs::find("res"), "solution file written although the program failed"); sx_cover("program fails"); return; }
    CK(14, rc == 0 && here.times == 1, "valid command line does not run the solver once"); CK(14, here.env.seed == 3 && sameRnd(here.env.rnd, prng_t(3)) && here.env.use_unit_costs == (unit != 0) && here.env.verbose == 0, "solver runs with other parameters");
    real_t c[] = {3, 5, 4}; CK(14, here.inst.costs.size() == 3 && here.inst.rows.size() == 2, "solver runs on another instance"); for (int j = 0; j < 3; ++j) CK(14, here.inst.costs[j] == (unit ? 1 : c[j]), "solver runs on another instance");
    std::vector<cidx_t> is; real_t ic = 0; if (kind == 2) { is = {0, 2}; ic = unit ? 2 : 7; } if (init) { is = {0, 1}; ic = unit ? 2 : 9; } CK(14, here.init.idxs == is, "solver starts from another solution"); if (init || kind == 2) CK(14, here.init.cost == ic, "solver starts from another solution");
    std::string* f = sxfs::find(out ? "res" : "in.sol"); CK(12, f != nullptr, "solution file missing"); if (out) CK(14, *sxfs::find("in.sol") == "old contents", "another file is overwritten"); Solution r; try { r = parse_solution(out ? "res" : "in.sol"); } catch (std::exception&) { CK(12, false, "written solution cannot be read"); } CK(12, r.idxs == here.res.sol.idxs && r.cost == here.res.sol.cost, "program writes another solution than the solver returned"); sx_cover("program"); obs(r.cost);
}
#ifndef HT
#define HT sx_pin(sx_int("test", LO, HI))
#endif
void sx_test() { quiet(); sxfs::Disk here{}; sxfs::disk() = &here; sxfmt::fresh() = sxfmt::real() = false; sxfmt::told() = nullptr; sx_steplimit(3000000);
    switch (HT) { case 0: pairs(1, true); break; case 1: pairs(2, HX); break; case 2: same(3); break; case 3: words(3 + HX); break; case 4: near(false); break; case 5: near(true); break; case 6: name(HX ? 5 : 4); break; case 7: program(); break; case 8: if (HX) pairs(3, false); break; } }
