// symx runtime: expressions, shadow memory, path exploration with Z3.
#include <z3.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <pthread.h>
#include <algorithm>
#include <deque>
#include <exception>
#include <map>
#include <new>
#include <set>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <cxxabi.h>
#include <fmt/core.h>
#include "layout.h"
typedef uint64_t u64; typedef int64_t i64; typedef long double ld; typedef uint32_t u32; typedef uint8_t u8;

// ------------------------------------------------------------------ expressions
enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE,
    FCMP, F2B, FTOS, FTOU, OVF, FCLASS, FCONST = 64, FVAR, FADD, FSUB, FMUL, FDIV, FNEG, FABS, FITE, B2F, STOF, UTOF, FCONV, FUN };
struct Expr {
    Op op; u8 k8; uint16_t w; u32 id; Expr *a, *b, *c; u64 k; ld f; u64 hash; int epoch; Z3_ast z; struct FT* ft; u64 lo, hi; std::vector<Expr*>* rnd; bool rndDone; ld flo, fhi;
};
static inline bool isF(Expr* e) { return e->op >= FCONST; }
static inline u64 mask(int w) { return w >= 64 ? ~0UL : (1UL << w) - 1; }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
struct HK { size_t operator()(Expr* e) const { return e->hash; } };
struct HE { bool operator()(Expr* x, Expr* y) const { return x->op == y->op && x->k8 == y->k8 && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k && (x->op != FCONST || memcmp(&x->f, &y->f, 10) == 0); } };
static std::unordered_set<Expr*, HK, HE> table;
static std::vector<char*> chunks; static size_t chunkPos = 0; static const size_t CH = 1 << 20;
static u32 nextId = 0; static int epoch = 1; static u64 nExprs = 0;
static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15UL + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdUL; return h ^ (h >> 32); }
static std::unordered_map<Expr*, int> gridMemo;
static void resetExprs() { gridMemo.clear(); for (char* c : chunks) free(c); chunks.clear(); table.clear(); chunkPos = 0; nExprs = 0; epoch++; }
static void mkRange(Expr* e);
static Expr* mk(Op op, int w, Expr* a = 0, Expr* b = 0, Expr* c = 0, u64 k = 0, u8 k8 = 0, ld f = 0) {
    static Expr t; t.op = op; t.k8 = k8; t.w = w; t.a = a; t.b = b; t.c = c; t.k = k; memset((void*)&t.f, 0, sizeof t.f); t.f = f;
    u64 h = mix(op * 131 + k8, w); h = mix(h, a ? a->hash : 1); h = mix(h, b ? b->hash : 2); h = mix(h, c ? c->hash : 3); h = mix(h, k);
    if (op == FCONST) { u64 m; uint16_t x; memcpy(&m, &f, 8); memcpy(&x, (char*)&f + 8, 2); h = mix(h, m); h = mix(h, x); }
    t.hash = h;
    auto it = table.find(&t); if (it != table.end()) return *it;
    if (chunks.empty() || chunkPos + sizeof(Expr) > CH) { void* p; if (posix_memalign(&p, 64, CH)) abort(); chunks.push_back((char*)p); chunkPos = 0; }
    Expr* e = (Expr*)(chunks.back() + chunkPos); chunkPos += (sizeof(Expr) + 15) & ~15UL;
    memcpy((void*)e, (void*)&t, sizeof(Expr)); e->id = nextId++; e->epoch = 0; e->z = 0; e->ft = 0; e->rnd = 0; e->rndDone = false; ++nExprs;
    mkRange(e);
    table.insert(e); return e;
}
static Expr* K(int w, u64 v) { return mk(CONST, w, 0, 0, 0, v & mask(w)); }
static inline bool isK(Expr* e) { return e->op == CONST; }
// unsigned range [lo,hi] of bit-vector expressions
static ld ffold(int op, int w, ld x, ld y); static ld rnd(int w, ld v);
static void mkFRange(Expr* e) { // value interval of a floating-point expression (rounding is monotone)
    const ld I = HUGE_VALL; ld lo = -I, hi = I; Expr *a = e->a, *b = e->b, *c = e->c;
    switch (e->op) {
    case FCONST: if (e->f == e->f) lo = hi = e->f; break;
    case FADD: lo = ffold(0, e->w, a->flo, b->flo); hi = ffold(0, e->w, a->fhi, b->fhi); break;
    case FSUB: lo = ffold(1, e->w, a->flo, b->fhi); hi = ffold(1, e->w, a->fhi, b->flo); break;
    case FMUL: case FDIV: { if (e->op == FDIV && !(b->flo > 0 || b->fhi < 0)) break; ld v[4] = {ffold(e->op - FADD, e->w, a->flo, b->flo), ffold(e->op - FADD, e->w, a->flo, b->fhi), ffold(e->op - FADD, e->w, a->fhi, b->flo), ffold(e->op - FADD, e->w, a->fhi, b->fhi)};
        lo = I; hi = -I; for (ld x : v) { if (x != x) { lo = -I; hi = I; break; } lo = std::min(lo, x); hi = std::max(hi, x); } break; }
    case FNEG: lo = -a->fhi; hi = -a->flo; break;
    case FABS: hi = std::max(fabsl(a->flo), fabsl(a->fhi)); lo = a->flo >= 0 ? a->flo : a->fhi <= 0 ? -a->fhi : 0; break;
    case FITE: lo = std::min(b->flo, c->flo); hi = std::max(b->fhi, c->fhi); break;
    case UTOF: lo = rnd(e->w, (ld)a->lo); hi = rnd(e->w, (ld)a->hi); break;
    case STOF: if (a->hi <= mask(a->w - 1)) { lo = rnd(e->w, (ld)a->lo); hi = rnd(e->w, (ld)a->hi); } else { int w = a->op == SEXT ? a->a->w : a->w; lo = -ldexpl(1, w - 1); hi = ldexpl(1, w - 1); } break;
    case FCONV: lo = rnd(e->w, a->flo); hi = rnd(e->w, a->fhi); break;
    default: break;
    }
    if (lo != lo) lo = -I; if (hi != hi) hi = I; e->flo = lo; e->fhi = hi;
}
static void mkRange(Expr* e) {
    if (isF(e)) { mkFRange(e); return; }
    u64 m = mask(e->w); e->lo = 0; e->hi = m;
    switch (e->op) {
    case CONST: e->lo = e->hi = e->k; break;
    case VAR: if (e->f != 0) {} break;
    case ZEXT: e->lo = e->a->lo; e->hi = e->a->hi; break;
    case CONCAT: { u64 h = e->a->hi, l = e->a->lo; if (e->b->w < 64) { e->hi = (h << e->b->w) | (e->b->lo == e->b->hi ? e->b->lo : mask(e->b->w)); e->lo = (l << e->b->w) | (e->b->lo == e->b->hi ? e->b->lo : 0); if (e->a->lo == e->a->hi) { e->lo = (l << e->b->w) | e->b->lo; e->hi = (h << e->b->w) | e->b->hi; } } break; }
    case EXTRACT: if (e->k8 == 0 && e->a->hi <= m) { e->lo = e->a->lo; e->hi = e->a->hi; } break;
    case ITE: e->lo = std::min(e->b->lo, e->c->lo); e->hi = std::max(e->b->hi, e->c->hi); break;
    case ADD: { u64 h; if (!__builtin_add_overflow(e->a->hi, e->b->hi, &h) && h <= m) { e->lo = e->a->lo + e->b->lo; e->hi = h; } break; }
    case SUB: if (e->a->lo >= e->b->hi) { e->lo = e->a->lo - e->b->hi; e->hi = e->a->hi - e->b->lo; } break;
    case MUL: { u64 h; if (!__builtin_mul_overflow(e->a->hi, e->b->hi, &h) && h <= m) { e->lo = e->a->lo * e->b->lo; e->hi = h; } break; }
    case UDIV: if (e->b->lo > 0) { e->lo = e->a->lo / e->b->hi; e->hi = e->a->hi / e->b->lo; } break;
    case UREM: if (e->b->lo > 0) e->hi = std::min(e->a->hi, e->b->hi - 1); break;
    case AND: e->hi = std::min(e->a->hi, e->b->hi); break;
    case LSHR: if (isK(e->b) && e->b->k < 64) { e->lo = e->a->lo >> e->b->k; e->hi = e->a->hi >> e->b->k; } break;
    default: break;
    }
}
static Expr *T1, *T0;
static Expr* mkNot(Expr* a);
static Expr* mkBin(Op op, Expr* a, Expr* b);
static Expr* mkExtract(Expr* a, int lo, int w);
static Expr* mkConcat(Expr* hi, Expr* lo);
static Expr* mkIte(Expr* c, Expr* a, Expr* b);
static Expr* mkZext(Expr* a, int w) { if (a->w == w) return a; if (isK(a)) return K(w, a->k); return mkConcat(K(w - a->w, 0), a); }
static Expr* mkSext(Expr* a, int w) {
    if (a->w == w) return a; if (isK(a)) return K(w, sx(a->k, a->w));
    if (a->hi <= mask(a->w - 1)) return mkZext(a, w);
    if (a->op == ITE && isK(a->b) && isK(a->c)) return mkIte(a->a, K(w, sx(a->b->k, a->w)), K(w, sx(a->c->k, a->w)));
    if (a->op == SEXT) return mkSext(a->a, w);
    return mk(SEXT, w, a); }
static Expr* mkConcat(Expr* hi, Expr* lo) {
    int w = hi->w + lo->w;
    if (w > 80) abort();
    if (isK(hi) && isK(lo) && w <= 64) return K(w, (hi->k << lo->w) | lo->k);
    // adjacent extracts of the same expression
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->k8 == lo->k8 + lo->w) return mkExtract(lo->a, lo->k8, w);
    // hi-extract adjoining the first piece of a concat
    if (lo->op == CONCAT && hi->op == EXTRACT && lo->a->op == EXTRACT && lo->a->a == hi->a && hi->k8 == lo->a->k8 + lo->a->w) return mkConcat(mkExtract(hi->a, lo->a->k8, hi->w + lo->a->w), lo->b);
    if (lo->op == CONCAT && isK(hi) && isK(lo->a) && hi->w + lo->a->w <= 64) return mkConcat(K(hi->w + lo->a->w, (hi->k << lo->a->w) | lo->a->k), lo->b);
    if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));  // right-nested
    if (hi->op == ITE && isK(hi->b) && isK(hi->c) && isK(lo) && w <= 64) return mkIte(hi->a, K(w, (hi->b->k << lo->w) | lo->k), K(w, (hi->c->k << lo->w) | lo->k));
    if (lo->op == ITE && isK(lo->b) && isK(lo->c) && isK(hi) && w <= 64) return mkIte(lo->a, K(w, (hi->k << lo->w) | lo->b->k), K(w, (hi->k << lo->w) | lo->c->k));
    return mk(CONCAT, w, hi, lo);
}
static Expr* mkExtract(Expr* a, int lo, int w) {
    if (lo == 0 && w == a->w) return a;
    if (isK(a)) return K(w, a->k >> lo);
    if (a->op == EXTRACT) return mkExtract(a->a, a->k8 + lo, w);
    if (a->op == CONCAT) {
        int lw = a->b->w;
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    if (a->op == ITE && isK(a->b) && isK(a->c)) return mkIte(a->a, K(w, a->b->k >> lo), K(w, a->c->k >> lo));
    if (a->op == ITE) { // selects of structures: keep the fields apart
        static int depth = 0; auto st = [](Expr* e) { return e->op == CONCAT || e->op == ITE || isK(e); };
        if (st(a->b) && st(a->c) && depth < 24) { ++depth; Expr* r = mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); --depth; return r; } }
    if (lo == 0) {
        if (a->op == SEXT) { if (w <= a->a->w) return mkExtract(a->a, 0, w); return mkSext(a->a, w); }
        if (a->op == ADD || a->op == SUB || a->op == MUL || a->op == AND || a->op == OR || a->op == XOR) {
            if (isK(a->b) || a->a->op == CONCAT || a->a->op == SEXT || a->op == ADD) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); }
    }
    if ((a->op == AND || a->op == OR || a->op == XOR) && isK(a->b)) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    return mk(EXTRACT, w, a, 0, 0, 0, lo);
}
static Expr* mkNot(Expr* a) { // w==1
    if (isK(a)) return a->k ? T0 : T1;
    if (a->op == XOR && a->b == T1) return a->a;
    return mk(XOR, 1, a, T1);
}
static Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (isK(c)) return c->k ? a : b; if (a == b) return a;
    if (c->op == XOR && c->b == T1) return mkIte(c->a, b, a);
    if (a->w == 1 && !isF(a)) { if (a == T1 && b == T0) return c; if (a == T0 && b == T1) return mkNot(c); if (a == T1) return mkBin(OR, c, b); if (b == T0) return mkBin(AND, c, a); if (a == T0) return mkBin(AND, mkNot(c), b); if (b == T1) return mkBin(OR, mkNot(c), a); }
    if (a->op == ITE && a->a == c) return mkIte(c, a->b, b);
    if (b->op == ITE && b->a == c) return mkIte(c, a, b->c);
    if (a->op == FITE && a->a == c) return mkIte(c, a->b, b);
    if (b->op == FITE && b->a == c) return mkIte(c, a, b->c);
    return mk(isF(a) ? FITE : ITE, a->w, c, a, b);
}
static u64 fold(Op op, int w, u64 x, u64 y) {
    u64 m = mask(w); i64 X = sx(x, w), Y = sx(y, w);
    switch (op) { case ADD: return (x + y) & m; case SUB: return (x - y) & m; case MUL: return (x * y) & m; case UDIV: return y ? x / y : m; case UREM: return y ? x % y : x;
    case SDIV: return (Y == 0 ? (X < 0 ? 1 : -1) : (Y == -1 ? -X : X / Y)) & m; case SREM: return (Y == 0 ? X : Y == -1 ? 0 : X % Y) & m; case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
    case SHL: return y >= (u64)w ? 0 : (x << y) & m; case LSHR: return y >= (u64)w ? 0 : x >> y; case ASHR: return (y >= (u64)w ? (X < 0 ? -1 : 0) : X >> y) & m;
    case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y; case SLT: return X < Y; case SLE: return X <= Y; default: abort(); }
}
static bool isNotOf(Expr* a, Expr* b) { return (a->op == XOR && a->b == T1 && a->a == b) || (b->op == XOR && b->b == T1 && b->a == a); }
static Expr* mkBin(Op op, Expr* a, Expr* b) {
    int w = a->w;
    bool cmp = op >= EQ && op <= SLE; int rw = cmp ? 1 : w;
    if (isK(a) && isK(b)) return K(rw, fold(op, w, a->k, b->k));
    if ((op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ) && (isK(a) || (!isK(b) && a->hash > b->hash))) std::swap(a, b);
    // push operations with constants into constant ites
    if (isK(b) && a->op == ITE && isK(a->b) && isK(a->c)) return mkIte(a->a, K(rw, fold(op, w, a->b->k, b->k)), K(rw, fold(op, w, a->c->k, b->k)));
    if (isK(a) && b->op == ITE && isK(b->b) && isK(b->c)) return mkIte(b->a, K(rw, fold(op, w, a->k, b->b->k)), K(rw, fold(op, w, a->k, b->c->k)));
    switch (op) {
    case ADD: if (isK(b)) { if (!b->k) return a; if (a->op == ADD && isK(a->b)) return mkBin(ADD, a->a, K(w, a->b->k + b->k)); }
        if (a->op == ADD && isK(a->b) && !isK(b)) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
        if (b->op == ADD && isK(b->b)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b); break;
    case SUB: if (a == b) return K(w, 0); if (isK(b)) return mkBin(ADD, a, K(w, 0 - b->k));
        if (a->op == ADD && a->b == b) return a->a; if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && isK(a->b) && !isK(b)) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
        if (b->op == ADD && isK(b->b)) return mkBin(ADD, mkBin(SUB, a, b->a), K(w, 0 - b->b->k)); break;
    case MUL: if (isK(b)) { if (b->k == 0) return b; if (b->k == 1) return a; if ((b->k & (b->k - 1)) == 0) return mkBin(SHL, a, K(w, __builtin_ctzll(b->k))); 
        if (a->op == ADD && isK(a->b)) return mkBin(ADD, mkBin(MUL, a->a, b), K(w, a->b->k * b->k)); } break;
    case UDIV: if (isK(b)) { if (b->k == 1) return a; if (b->k && (b->k & (b->k - 1)) == 0) return mkBin(LSHR, a, K(w, __builtin_ctzll(b->k))); if (a->hi < b->k) return K(w, 0); } break;
    case UREM: if (isK(b)) { if (b->k == 1) return K(w, 0); if (b->k && (b->k & (b->k - 1)) == 0) { int s = __builtin_ctzll(b->k); return mkZext(mkExtract(a, 0, s), w); } if (a->hi < b->k) return a; } break;
    case AND: if (a == b) return a; if (isK(b)) { if (!b->k) return b; if (b->k == mask(w)) return a;
        if (w > 1) { u64 k = b->k; int lo = __builtin_ctzll(k); u64 r = k >> lo; if ((r & (r + 1)) == 0) { int n = __builtin_popcountll(r); Expr* x = mkExtract(a, lo, n); if (lo + n < w) x = mkZext(x, w - lo); if (lo) x = mkConcat(x, K(lo, 0)); return x; } } }
        if (w == 1 && isNotOf(a, b)) return T0; break;
    case OR: if (a == b) return a; if (isK(b)) { if (!b->k) return a; if (b->k == mask(w)) return b; }
        if (w == 1 && isNotOf(a, b)) return T1; break;
    case XOR: if (a == b) return K(w, 0); if (isK(b)) { if (!b->k) return a; if (w == 1) return mkNot(a); if (a->op == XOR && isK(a->b)) return mkBin(XOR, a->a, K(w, a->b->k ^ b->k)); } break;
    case SHL: if (isK(b)) { if (b->k == 0) return a; if (b->k >= (u64)w) return K(w, 0); return mkConcat(mkExtract(a, 0, w - b->k), K(b->k, 0)); } break;
    case LSHR: if (isK(b)) { if (b->k == 0) return a; if (b->k >= (u64)w) return K(w, 0); return mkZext(mkExtract(a, b->k, w - b->k), w); } break;
    case ASHR: if (isK(b)) { if (b->k == 0) return a; if (b->k >= (u64)w) return mkSext(mkExtract(a, w - 1, 1), w); return mkSext(mkExtract(a, b->k, w - b->k), w); } break;
    case EQ: if (a == b) return T1;
        if (w == 1) { if (isK(b)) return b->k ? a : mkNot(a); return mkNot(mkBin(XOR, a, b)); }
        if (a->hi < b->lo || b->hi < a->lo) return T0;
        if (isK(b)) {
            if (a->op == CONCAT) { Expr* l = mkBin(EQ, a->b, mkExtract(b, 0, a->b->w)); if (l == T0) return T0; Expr* h = mkBin(EQ, a->a, mkExtract(b, a->b->w, a->a->w)); return mkBin(AND, h, l); }
            if (a->op == SEXT) { u64 t = b->k & mask(a->a->w); if ((u64)(sx(t, a->a->w) & mask(w)) != b->k) return T0; return mkBin(EQ, a->a, K(a->a->w, t)); }
            if (a->op == ADD && isK(a->b)) return mkBin(EQ, a->a, K(w, b->k - a->b->k));
            if (a->op == XOR && isK(a->b)) return mkBin(EQ, a->a, K(w, b->k ^ a->b->k));
            if (a->op == ITE) { Expr *x = mkBin(EQ, a->b, b), *y = mkBin(EQ, a->c, b); if (isK(x) || isK(y)) return mkIte(a->a, x, y); }
        }
        break;
    case ULT: if (a == b) return T0; if (a->hi < b->lo) return T1; if (a->lo >= b->hi) return T0;
        if (w == 1) return mkBin(AND, mkNot(a), b);
        if (isK(b) && b->k == 1) return mkBin(EQ, a, K(w, 0));
        if (isK(a) && a->k == 0) return mkNot(mkBin(EQ, b, K(w, 0)));
        break;
    case ULE: return mkNot(mkBin(ULT, b, a));
    case SLT: if (a == b) return T0; { u64 s = 1UL << (w - 1); if (a->hi < s && b->hi < s) return mkBin(ULT, a, b); if (a->hi < s && b->lo >= s) return T0; if (a->lo >= s && b->hi < s) return T1; }
        if (a->op == SEXT && isK(b)) { i64 v = sx(b->k, w); int aw = a->a->w; i64 mn = -(i64)(1L << (aw - 1)), mx = (1L << (aw - 1)) - 1; if (v > mx) return T1; if (v <= mn) return T0; return mkBin(SLT, a->a, K(aw, v)); }
        if (b->op == SEXT && isK(a)) { i64 v = sx(a->k, w); int aw = b->a->w; i64 mn = -(i64)(1L << (aw - 1)), mx = (1L << (aw - 1)) - 1; if (v >= mx) return T0; if (v < mn) return T1; return mkBin(SLT, K(aw, v), b->a); }
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(SLT, a->a, b->a);
        break;
    case SLE: return mkNot(mkBin(SLT, b, a));
    default: break;
    }
    if ((op == OR || op == ADD || op == XOR) && w > 1 && (a->op == CONCAT || b->op == CONCAT)) {
        // merge disjoint pieces
        struct Pc { int lo, w; Expr* e; };
        auto flat = [](Expr* e, std::vector<Pc>& v) { int pos = 0; std::vector<Expr*> st; Expr* x = e; while (x->op == CONCAT) { st.push_back(x->a); x = x->b; } st.push_back(x); for (int i = (int)st.size() - 1; i >= 0; --i) { v.push_back({pos, st[i]->w, st[i]}); pos += st[i]->w; } };
        std::vector<Pc> pa, pb; flat(a, pa); flat(b, pb);
        std::set<int> cuts; for (auto& p : pa) cuts.insert(p.lo); for (auto& p : pb) cuts.insert(p.lo); cuts.insert(w);
        bool okk = true; Expr* r = 0; auto it = cuts.begin(); int lo = *it; ++it;
        for (; it != cuts.end() && okk; ++it) {
            int n = *it - lo; Expr *x = mkExtract(a, lo, n), *y = mkExtract(b, lo, n), *p;
            if (isK(x) && x->k == 0) p = y; else if (isK(y) && y->k == 0) p = x; else if (op == OR && (x == y)) p = x; else { okk = false; break; }
            r = r ? mkConcat(p, r) : p; lo = *it;
        }
        if (okk) return r;
        if (op == OR && isK(b)) { // or with constant: split pieces
            Expr* q = 0; for (auto& p : pa) { Expr* x = mkBin(OR, p.e, K(p.w, b->k >> p.lo)); q = q ? mkConcat(x, q) : x; } return q; }
    }
    return mk(op, rw, a, b);
}
// ---- FP constructors
static int prec(int w) { return w == 32 ? 24 : w == 64 ? 53 : 64; }
static ld rnd(int w, ld v) { return w == 32 ? (ld)(float)v : w == 64 ? (ld)(double)v : v; }
static Expr* FK(int w, ld v) { if (v != v) v = __builtin_nanl(""); return mk(FCONST, w, 0, 0, 0, 0, 0, v); }
static inline bool isFK(Expr* e) { return e->op == FCONST; }
static ld ffold(int op, int w, ld x, ld y) {
    if (w == 32) { float a = x, b = y; return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
    if (w == 64) { double a = x, b = y; return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
    return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
}
static Expr* mkFneg(Expr* a) { if (isFK(a)) return FK(a->w, -a->f); if (a->op == FNEG) return a->a; return mk(FNEG, a->w, a); }
static bool mayNaN(Expr* e);
static int leaves(Expr* e, int n) { if (isFK(e)) return n - 1; if (e->op != FITE || n <= 0) return -1; n = leaves(e->b, n); return n < 0 ? n : leaves(e->c, n); }   // selection tree over at most n constants
// number of fractional bits of a value that is computed exactly (sums and differences on one binary grid), or -1
static int grid(Expr* e) {
    auto it = gridMemo.find(e); if (it != gridMemo.end()) return it->second; int k = -1;
    switch (e->op) {
    case FCONST: if (isfinite(e->f) && !(e->f == 0 && signbit(e->f))) for (int q = 0; q < 40 && k < 0; ++q) if (ldexpl(e->f, q) == rintl(ldexpl(e->f, q))) k = q; break;
    case FVAR: k = e->k8; break;
    case FADD: case FSUB: { int x = grid(e->a), y = grid(e->b); if (x >= 0 && y >= 0) k = std::max(x, y); break; }
    case FITE: { int x = grid(e->b), y = grid(e->c); if (x >= 0 && y >= 0) k = std::max(x, y); break; }
    default: break;
    }
    if (k >= 0 && !(std::max(fabsl(e->flo), fabsl(e->fhi)) <= ldexpl(1, (e->w == 32 ? 24 : 53) - k))) k = -1;
    return gridMemo[e] = k;
}
static Expr* mkFbin(int op, Expr* a, Expr* b) {
    int w = a->w;
    if (op == 1 && a->op == FADD && (a->a == b || a->b == b) && grid(a) >= 0) return a->a == b ? a->b : a->a; // (x + y) - y
    if (op == 0 && a->op == FSUB && a->b == b && grid(a) >= 0) return a->a; // (x - y) + y
    if (isFK(a) && isFK(b)) return FK(w, ffold(op, w, a->f, b->f));
    if (isFK(b) && b->f != b->f) return b; if (isFK(a) && a->f != a->f) return a;
    if (op == 0) { if (isFK(b) && b->f == 0 ) return a; if (isFK(a) && a->f == 0 && !signbit(a->f)) return b; if (isFK(a) && isinf(a->f)) return a; if (isFK(b) && isinf(b->f)) return b; }
    if (op == 1) { if (isFK(b) && b->f == 0) return a; if (isFK(b) && isinf(b->f)) return FK(w, -b->f); if (isFK(a) && isinf(a->f)) return a; }
    if (op == 2) { if (isFK(b) && b->f == 1) return a; if (isFK(a) && a->f == 1) return b; if (isFK(b) && b->f == -1) return mkFneg(a); if (isFK(a) && a->f == -1) return mkFneg(b); }
    { auto fin = [](Expr* e) { return !mayNaN(e) && !isinf(e->flo) && !isinf(e->fhi); };   // 0 * x and 0 / x (the sign of the zero is that of the constant)
      if (op == 2 && isFK(b) && b->f == 0 && fin(a)) return b; if (op == 2 && isFK(a) && a->f == 0 && fin(b)) return a; if (op == 3 && isFK(a) && a->f == 0 && fin(b) && (b->flo > 0 || b->fhi < 0)) return a; }
    if (op == 3) { if (isFK(b) && b->f == 1) return a; if (isFK(b) && b->f == -1) return mkFneg(a); if (isFK(b) && isinf(b->f)) return FK(w, 0); }
    // operations on (nested) selections between constants
    if (a->op == FITE && isFK(b) && leaves(a, 6) >= 0) return mkIte(a->a, mkFbin(op, a->b, b), mkFbin(op, a->c, b));
    if (b->op == FITE && isFK(a) && leaves(b, 6) >= 0) return mkIte(b->a, mkFbin(op, a, b->b), mkFbin(op, a, b->c));
    if (a->op == FITE && b->op == FITE && a->a == b->a && leaves(a, 6) >= 0 && leaves(b, 6) >= 0) return mkIte(a->a, mkFbin(op, a->b, b->b), mkFbin(op, a->c, b->c));
    if ((op == 0 || op == 2) && a->hash > b->hash) std::swap(a, b);
    return mk(op == 0 ? FADD : op == 1 ? FSUB : op == 2 ? FMUL : FDIV, w, a, b);
}
// llvm fcmp predicates: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
static bool fcmpv(int p, ld x, ld y) { bool u = x != x || y != y; switch (p) { case 0: return false; case 1: return !u && x == y; case 2: return !u && x > y; case 3: return !u && x >= y; case 4: return !u && x < y; case 5: return !u && x <= y; case 6: return !u && x != y; case 7: return !u; case 8: return u; case 9: return u || x == y; case 10: return u || x > y; case 11: return u || x >= y; case 12: return u || x < y; case 13: return u || x <= y; case 14: return u || x != y; } return true; }
extern "C" { int sx_fpmode = 0; }
static bool mayNaN(Expr* e) { return sx_fpmode == 1 && !(e->op == FVAR || e->op == STOF || e->op == UTOF || (isFK(e) && e->f == e->f) || (e->op == FCONV && !mayNaN(e->a)) || (e->op == FITE && !mayNaN(e->b) && !mayNaN(e->c)) || ((e->op == FNEG || e->op == FABS) && !mayNaN(e->a))); }
static Expr* mkFcmp(int p, Expr* a, Expr* b) {
    if (isFK(a) && isFK(b)) return K(1, fcmpv(p, a->f, b->f));
    if ((isFK(a) && a->f != a->f) || (isFK(b) && b->f != b->f)) return K(1, p >= 8);
    if (!mayNaN(a) && !mayNaN(b)) {   // no NaN: ordered == unordered
        if (p == 7) return T1; if (p == 8) return T0;
        if (isFK(b) && isinf(b->f)) return K(1, fcmpv(p, 0, b->f)); if (isFK(a) && isinf(a->f)) return K(1, fcmpv(p, a->f, 0));
        int q = p >= 9 ? p - 8 : p;
        switch (q) { case 1: break; case 2: return mkFcmp(4, b, a); case 3: return mkNot(mkFcmp(4, a, b)); case 4: if (a == b || a->flo >= b->fhi) return T0; if (a->fhi < b->flo) return T1; return mk(FCMP, 1, a, b, 0, 0, 4); case 5: return mkNot(mkFcmp(4, b, a)); case 6: return mkNot(mkFcmp(1, a, b)); }
        if (a == b) return T1; if (a->fhi < b->flo || b->fhi < a->flo) return T0; if (a->hash > b->hash) std::swap(a, b); return mk(FCMP, 1, a, b, 0, 0, 1);
    }
    if (p >= 8) { static const int inv[] = {7, 7, 0, 0, 0, 0, 0, 0}; (void)inv; switch (p) { case 8: return mkNot(mk(FCMP, 1, a, b, 0, 0, 7)); case 9: return mkNot(mk(FCMP, 1, a, b, 0, 0, 6)); case 10: return mkNot(mk(FCMP, 1, a, b, 0, 0, 5)); case 11: return mkNot(mk(FCMP, 1, a, b, 0, 0, 4)); case 12: return mkNot(mk(FCMP, 1, a, b, 0, 0, 3)); case 13: return mkNot(mk(FCMP, 1, a, b, 0, 0, 2)); case 14: return mkNot(mk(FCMP, 1, a, b, 0, 0, 1)); } }
    if (p == 2) return mk(FCMP, 1, b, a, 0, 0, 4); if (p == 3) return mk(FCMP, 1, b, a, 0, 0, 5);
    return mk(FCMP, 1, a, b, 0, 0, p);
}
static Expr* mkF2B(int w, Expr* a) { if (isFK(a)) { if (w == 32) { float f = a->f; u32 u; memcpy(&u, &f, 4); return K(32, u); } if (w == 64) { double f = a->f; u64 u; memcpy(&u, &f, 8); return K(64, u); } } if (a->op == B2F) return a->a; return mk(F2B, w, a); }
static Expr* mkB2F(int w, Expr* a) { if (isK(a)) { if (w == 32) { u32 u = a->k; float f; memcpy(&f, &u, 4); return FK(32, f); } if (w == 64) { u64 u = a->k; double f; memcpy(&f, &u, 8); return FK(64, f); } }
    if (a->op == F2B) return a->a; if (a->op == ITE) return mkIte(a->a, mkB2F(w, a->b), mkB2F(w, a->c)); return mk(B2F, w, a); }

// ------------------------------------------------------------------ shared state
struct Stats { u64 paths, pruned, branches, queries, sat, unsat, unknown, diverged, steps, completed, crashes, maxdepth, implied, dropped, approx; double solver_s; };
struct Shared {
    pthread_mutex_t mu; pthread_cond_t cv; int idle, stop, nworkers; Stats st; int nviol; u64 qhead, qtail; int hungry; double deadline; u64 covers; int incomplete;
    struct Viol { char kind[16]; char msg[480]; int n; i64 in[4096]; } viol[16];
    struct Samp { int n; u64 obs; u64 hash; i64 in[1024]; } samp[64]; int nsamp;
    char cover[64][96]; u64 covern[64]; int ncover;
    u8 fn[8192];
    u64 qcap; // followed by queue words
};
static Shared* S; static u64* Q;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Item { int bound; u64 expect; std::vector<i64> in; std::vector<ld> hist; };
static void qpush(const Item& it) { // S->mu held
    u64 need = 4 + it.in.size() + 2 * it.hist.size(); if (S->qhead - S->qtail + need > S->qcap) { S->incomplete |= 4; S->st.dropped++; return; }
    auto put = [](u64 v) { Q[S->qhead % S->qcap] = v; S->qhead++; }; put(it.bound); put(it.expect); put(it.in.size()); for (i64 v : it.in) put(v); put(it.hist.size()); for (ld v : it.hist) { u64 w[2] = {0, 0}; memcpy(w, &v, 10); put(w[0]); put(w[1]); }
}
static bool qpop(Item& it) { if (S->qhead == S->qtail) return false; auto get = []() { u64 v = Q[S->qtail % S->qcap]; S->qtail++; return v; }; it.bound = get(); it.expect = get(); u64 n = get(); it.in.resize(n); for (u64 i = 0; i < n; ++i) it.in[i] = get(); n = get(); it.hist.resize(n); for (u64 i = 0; i < n; ++i) { u64 w[2]; w[0] = get(); w[1] = get(); ld v = 0; memcpy(&v, w, 10); it.hist[i] = v; } return true; }

// ------------------------------------------------------------------ Z3 translation
static Z3_context ctx; static Z3_solver slv; static Z3_sort sInt, sReal, sBool;
struct FT { Z3_ast t; bool isInt; int k; double D; double M; int rp; }; // value = t * 2^-k / D ; rp!=0: to be rounded to rp bits
struct FreshR { Expr* e; std::vector<Z3_ast> side; };
static std::unordered_map<Expr*, std::vector<Z3_ast>> roundSide; // side constraints of inexact nodes
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static std::vector<FT*> ftpool;
static void z3init() {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, z3err);
    slv = getenv("SX_TACTIC") ? Z3_mk_solver(ctx) : Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), getenv("SX_QTIMEOUT") ? atoi(getenv("SX_QTIMEOUT")) : 10000);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) & 0xffff : 1);
    Z3_solver_set_params(ctx, slv, p); Z3_params_dec_ref(ctx, p);
    sInt = Z3_mk_int_sort(ctx); sReal = Z3_mk_real_sort(ctx); sBool = Z3_mk_bool_sort(ctx);
}
static void z3reset() { Z3_solver_dec_ref(ctx, slv); Z3_del_context(ctx); for (auto* f : ftpool) delete f; ftpool.clear(); roundSide.clear(); z3init(); }
static Z3_ast zb(Expr* e); static Z3_ast zv(Expr* e); static Z3_ast zf(Expr* e); static FT* ft(Expr* e);
static Z3_ast knum(u64 v, int w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
static Z3_ast inum(const char* s, bool real) { return Z3_mk_numeral(ctx, s, real ? sReal : sInt); }
static std::string ldint(ld v) { char b[8000]; snprintf(b, sizeof b, "%.0Lf", v); return b; }
static Z3_ast and2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(ctx, 2, x); }
static Z3_ast or2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(ctx, 2, x); }
static Z3_ast add2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(ctx, 2, x); }
static Z3_ast mul2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(ctx, 2, x); }
struct VarInfo { std::string name; int kind; int w; i64 lo, hi; int k; Expr* e; };  // kind 0 BV, 1 FP(int var / 2^k)
static std::vector<VarInfo> vars;
// names are unique per (index, kind, width/bounds)
static Z3_ast zvarInt(Expr* e) { char b[64]; snprintf(b, 64, "f%lx_%d", (unsigned long)e->k, (int)e->k8); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), sx_fpmode == 1 ? Z3_mk_bv_sort(ctx, 48) : sInt); }
static Z3_ast zvarBV(Expr* e) { char b[64]; snprintf(b, 64, "b%lx_%d", (unsigned long)e->k, e->w); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bv_sort(ctx, e->w)); }
static Z3_ast toBoolEq1(Z3_ast bv) { return Z3_mk_eq(ctx, bv, knum(1, 1)); }

static Z3_sort fsort(int w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort(ctx, 15, 64); }
static Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
static Z3_ast zf(Expr* e) { // FP theory translation
    if (e->epoch == epoch && e->z) return e->z;
    Z3_ast r = 0; Z3_sort so = fsort(e->w);
    switch (e->op) {
    case FCONST: if (e->f != e->f) r = Z3_mk_fpa_nan(ctx, so); else if (isinf(e->f)) r = Z3_mk_fpa_inf(ctx, so, e->f < 0); else if (e->f == 0) r = Z3_mk_fpa_zero(ctx, so, signbit(e->f)); else { r = Z3_mk_fpa_to_fp_float(ctx, rne(), Z3_mk_fpa_numeral_double(ctx, (double)e->f, fsort(64)), so); if ((ld)(double)e->f != e->f) { int ex; ld m = frexpl(e->f, &ex); std::string s = ldint(ldexpl(m, 64)); Z3_ast i = Z3_mk_fpa_to_fp_int_real(ctx, rne(), inum(std::to_string(ex - 64).c_str(), false), inum(s.c_str(), true), so); r = Z3_simplify(ctx, i); } } break;
    case FVAR: { Z3_ast v = zvarInt(e); r = Z3_mk_fpa_to_fp_signed(ctx, rne(), v, so); if (e->k8) r = Z3_mk_fpa_mul(ctx, rne(), r, Z3_mk_fpa_numeral_double(ctx, ldexp(1, -(int)e->k8), so)); break; }
    case FADD: r = Z3_mk_fpa_add(ctx, rne(), zf(e->a), zf(e->b)); break; case FSUB: r = Z3_mk_fpa_sub(ctx, rne(), zf(e->a), zf(e->b)); break;
    case FMUL: r = Z3_mk_fpa_mul(ctx, rne(), zf(e->a), zf(e->b)); break; case FDIV: r = Z3_mk_fpa_div(ctx, rne(), zf(e->a), zf(e->b)); break;
    case FNEG: r = Z3_mk_fpa_neg(ctx, zf(e->a)); break; case FABS: r = Z3_mk_fpa_abs(ctx, zf(e->a)); break;
    case FITE: r = Z3_mk_ite(ctx, zb(e->a), zf(e->b), zf(e->c)); break;
    case B2F: r = Z3_mk_fpa_to_fp_bv(ctx, zv(e->a), so); break;
    case STOF: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), zv(e->a), so); break; case UTOF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), zv(e->a), so); break;
    case FCONV: r = Z3_mk_fpa_to_fp_float(ctx, rne(), zf(e->a), so); break;
    case FUN: { Z3_ast rm = e->k8 == 2 ? Z3_mk_fpa_rtn(ctx) : e->k8 == 3 ? Z3_mk_fpa_rtp(ctx) : e->k8 == 4 ? Z3_mk_fpa_rtz(ctx) : e->k8 == 5 ? Z3_mk_fpa_rna(ctx) : rne(); r = e->k8 == 7 ? Z3_mk_fpa_sqrt(ctx, rne(), zf(e->a)) : Z3_mk_fpa_round_to_integral(ctx, rm, zf(e->a)); break; }
    default: abort();
    }
    e->z = r; e->epoch = epoch; return r;
}
static Z3_ast toReal(FT* f) { // exact real value of t*2^-k/D (without rounding)
    Z3_ast t = f->isInt ? Z3_mk_int2real(ctx, f->t) : f->t;
    if (f->k == 0 && f->D == 1) return t;
    std::string num = f->k < 0 ? ldint(ldexpl(1, -f->k)) : "1", den = f->k > 0 ? ldint(ldexpl(1, f->k)) : "1";
    // combine denominators
    std::string s = num + "/" + den; Z3_ast r = mul2(t, inum(s.c_str(), true));
    if (f->D != 1) { std::string d = "1/" + ldint(f->D); r = mul2(r, inum(d.c_str(), true)); }
    return r;
}
static FT* newFT(Z3_ast t, bool isInt, int k, double D, double M, int rp) { auto* f = new FT{t, isInt, k, D, M, rp}; ftpool.push_back(f); return f; }
static u64 nApprox = 0;
static FT* freshRound(Expr* e, Z3_ast exact, int p) { // r = RN(exact): |r-x| <= 2^-p |x| (+ tiny)
    char b[64]; snprintf(b, 64, "r_%lx", (unsigned long)e->hash); Z3_ast r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), sReal);
    ++nApprox;
    if (exact && !roundSide.count(e)) {
        std::string u = "1/" + ldint(ldexpl(1, p)); Z3_ast ue = inum(u.c_str(), true); Z3_ast zero = inum("0", true);
        Z3_ast d = mul2(exact, ue); Z3_ast hi = add2(exact, d); Z3_ast md[2] = {exact, d}; Z3_ast lo = Z3_mk_sub(ctx, 2, md);
        Z3_ast pos = Z3_mk_ge(ctx, exact, zero);
        Z3_ast cpos = and2(Z3_mk_ge(ctx, r, lo), Z3_mk_le(ctx, r, hi)), cneg = and2(Z3_mk_ge(ctx, r, hi), Z3_mk_le(ctx, r, lo));
        roundSide[e] = {Z3_mk_ite(ctx, pos, cpos, cneg)};
    } else if (!exact) roundSide[e];
    return newFT(r, false, 0, 1, 1e30, 0);
}
static Z3_ast scaleInt(FT* f, int k, double D) { // integer t' with value = t' * 2^-k / D
    Z3_ast t = f->t; ld m = ldexpl(1, k - f->k) * (D / f->D); if (m == 1) return t; return mul2(t, inum(ldint(m).c_str(), false));
}
static FT* mat(Expr* e, FT* f) { // materialise rounding
    if (!f->rp) return f;
    char b[64]; snprintf(b, 64, "m"); (void)b;
    return freshRound(e, toReal(f), f->rp);
}
static double lcmD(double a, double b) { if (a == b) return a; u64 x = a, y = b; u64 g = x, h = y; while (h) { u64 t = g % h; g = h; h = t; } return (double)(x / g) * y; }
static Expr* matKey(Expr* e) { return e; }
static Z3_ast zint(Expr* x) { // unsigned value of a bit-vector expression as an integer (arithmetic that cannot wrap stays arithmetic)
    u64 h;
    switch (x->op) {
    case CONST: { char b[32]; snprintf(b, 32, "%lu", x->k); return inum(b, false); }
    case ADD: if (!__builtin_add_overflow(x->a->hi, x->b->hi, &h) && h <= mask(x->w)) return add2(zint(x->a), zint(x->b)); break;
    case MUL: if ((isK(x->a) || isK(x->b)) && !__builtin_mul_overflow(x->a->hi, x->b->hi, &h) && h <= mask(x->w)) return mul2(zint(x->a), zint(x->b)); break;
    case SUB: if (x->a->lo >= x->b->hi) { Z3_ast v[2] = {zint(x->a), zint(x->b)}; return Z3_mk_sub(ctx, 2, v); } break;
    case CONCAT: if (isK(x->a) && x->a->k == 0) return zint(x->b); break;
    case ZEXT: return zint(x->a);
    case ITE: return Z3_mk_ite(ctx, zb(x->a), zint(x->b), zint(x->c));
    default: break;
    }
    int nb = 1; while (nb < x->w && x->hi > mask(nb)) ++nb; Expr* y = nb < x->w ? mkExtract(x, 0, nb) : x; if (y != x && y->op == CONST) return zint(y);
    return Z3_mk_bv2int(ctx, zv(y), false);
}
static FT* ft(Expr* e) {
    if (e->epoch == epoch && e->ft) return e->ft;
    FT* r = 0; int p = prec(e->w); double lim = ldexp(1, p);
    switch (e->op) {
    case FCONST: { ld v = e->f; if (!isfinite(v)) { r = freshRound(e, 0, p); break; } if (v == 0) { r = newFT(inum("0", false), true, 0, 1, 0, 0); break; }
        int ex; ld m = frexpl(v, &ex); int k = 0; // v = m*2^ex, find integer mantissa
        ld mi = ldexpl(m, 64); ex -= 64; while (fmodl(mi, 2) == 0) { mi /= 2; ++ex; }
        if (ex >= 0) r = newFT(inum(ldint(v).c_str(), false), true, 0, 1, fabsl(v), 0);
        else { k = -ex; r = newFT(inum(ldint(mi).c_str(), false), true, k, 1, fabsl(mi), 0); }
        break; }
    case FVAR: { double M = e->f > 0 ? (double)e->f : 1e18; r = newFT(zvarInt(e), true, e->k8, 1, M, 0); break; }
    case FNEG: { FT* a = ft(e->a); r = newFT(Z3_mk_unary_minus(ctx, a->t), a->isInt, a->k, a->D, a->M, a->rp); break; }
    case FABS: { FT* a = ft(e->a); Z3_ast z = inum("0", !a->isInt); r = newFT(Z3_mk_ite(ctx, Z3_mk_ge(ctx, a->t, z), a->t, Z3_mk_unary_minus(ctx, a->t)), a->isInt, a->k, a->D, a->M, a->rp); break; }
    case FADD: case FSUB: {
        FT *a = mat(e->a, ft(e->a)), *b = mat(e->b, ft(e->b));
        // huge constant absorbs small operands exactly
        auto absorb = [&](Expr* c, FT* x) { if (!isFK(c) || !x->isInt) return false; ld xm = ldexpl(x->M, -x->k) / x->D; int ex; frexpl(fabsl(c->f), &ex); return c->f != 0 && xm < ldexpl(1, ex - p - 2); };
        if (absorb(e->a, b)) { r = ft(e->a); break; }
        if (absorb(e->b, a)) { r = e->op == FADD ? ft(e->b) : ft(mkFneg(e->b)); break; }
        if (a->isInt && b->isInt && abs(a->k - b->k) < 200) {
            int k = std::max(a->k, b->k); double D = lcmD(a->D, b->D);
            double M = a->M * ldexp(1, k - a->k) * (D / a->D) + b->M * ldexp(1, k - b->k) * (D / b->D);
            Z3_ast x[2] = {scaleInt(a, k, D), scaleInt(b, k, D)};
            Z3_ast t = e->op == FADD ? Z3_mk_add(ctx, 2, x) : Z3_mk_sub(ctx, 2, x);
            FT tmp{t, true, k, D, M, 0};
            if (D == 1 && M <= lim) r = newFT(t, true, k, 1, M, 0); else r = newFT(t, true, k, D, M, p);
            if (r->rp && M > 1e15) r = freshRound(e, toReal(&tmp), p);
            break;
        }
        { Z3_ast x[2] = {toReal(a), toReal(b)}; r = freshRound(e, e->op == FADD ? Z3_mk_add(ctx, 2, x) : Z3_mk_sub(ctx, 2, x), p); }
        break; }
    case FMUL: {
        FT *a = mat(e->a, ft(e->a)), *b = mat(e->b, ft(e->b));
        if (a->isInt && b->isInt) { double M = a->M * b->M; int k = a->k + b->k; Z3_ast t = mul2(a->t, b->t); FT tmp{t, true, k, a->D * b->D, M, 0};
            if (tmp.D == 1 && M <= lim) r = newFT(t, true, k, 1, M, 0); else if (M < 1e15) r = newFT(t, true, k, tmp.D, M, p); else r = freshRound(e, toReal(&tmp), p); break; }
        r = freshRound(e, mul2(toReal(a), toReal(b)), p); break; }
    case FDIV: {
        FT *a = mat(e->a, ft(e->a)), *b = mat(e->b, ft(e->b));
        if (isFK(e->b) && e->b->f != 0 && b->isInt && a->isInt) {
            // a / (bt*2^-bk): t=a->t * sign, D*=|bt|, k = a->k - b->k
            ld bt = ldexpl(e->b->f, b->k); Z3_ast t = bt < 0 ? Z3_mk_unary_minus(ctx, a->t) : a->t; bt = fabsl(bt); int k = a->k - b->k;
            if (bt == 1) { r = newFT(t, true, k, a->D, a->M, a->D == 1 ? (a->M <= lim ? 0 : p) : p); break; }
            if (bt * a->D < 1e12) { r = newFT(t, true, k, a->D * bt, a->M, p); break; }
        }
        { Z3_ast ra = toReal(a), rb = toReal(b);
          if (isFK(e->b) && e->b->f != 0) { r = freshRound(e, Z3_mk_div(ctx, ra, rb), p); break; }
          // r*b ~ a : fresh q with q*b = a, then round
          char nb[64]; snprintf(nb, 64, "q_%lx", (unsigned long)e->hash); Z3_ast q = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nb), sReal);
          r = freshRound(e, q, p); Z3_ast zero = inum("0", true);
          roundSide[e].push_back(or2(Z3_mk_eq(ctx, rb, zero), Z3_mk_eq(ctx, mul2(q, rb), ra))); }
        break; }
    case FITE: {
        FT *a = ft(e->b), *b = ft(e->c); Z3_ast c = zb(e->a);
        int rp = std::max(a->rp, b->rp); auto fits = [&](FT* x) { return x->rp == rp || (!x->rp && x->D == 1 && x->M <= ldexp(1, rp)); }; // rounding an exactly representable value changes nothing
        if (a->isInt && b->isInt && abs(a->k - b->k) < 200 && fits(a) && fits(b)) { int k = std::max(a->k, b->k); double D = lcmD(a->D, b->D); double M = std::max(a->M * ldexp(1, k - a->k) * (D / a->D), b->M * ldexp(1, k - b->k) * (D / b->D));
            r = newFT(Z3_mk_ite(ctx, c, scaleInt(a, k, D), scaleInt(b, k, D)), true, k, D, M, rp); break; }
        a = mat(e->b, a); b = mat(e->c, b); r = newFT(Z3_mk_ite(ctx, c, toReal(a), toReal(b)), false, 0, 1, 1e30, 0); break; }
    case STOF: case UTOF: { Expr* x = e->a; double M = e->op == STOF ? std::max(fabs((double)sx(x->lo, x->w)), fabs((double)sx(x->hi, x->w))) : (double)x->hi; if (e->op == STOF && x->hi > mask(x->w - 1) ) M = ldexp(1, x->w - 1);
        bool sg = e->op == STOF && x->hi > mask(x->w - 1);
        if (x->op == SEXT) { M = std::min(M, ldexp(1, x->a->w - 1)); }
        Z3_ast t = sg ? Z3_mk_bv2int(ctx, zv(x), sg) : zint(x); if (M <= lim) r = newFT(t, true, 0, 1, M, 0); else if (M < 1e15) r = newFT(t, true, 0, 1, M, p); else r = freshRound(e, Z3_mk_int2real(ctx, t), p); break; }
    case FCONV: { FT* a = ft(e->a); if (e->w >= e->a->w) { r = a; break; } a = mat(e->a, a); if (a->isInt && a->D == 1 && a->M <= lim) { r = a; break; } if (a->isInt && a->M < 1e15) r = newFT(a->t, true, a->k, a->D, a->M, p); else r = freshRound(e, toReal(a), p); break; }
    default: r = freshRound(e, 0, p); break;
    }
    if (e->epoch != epoch) e->z = 0;
    e->ft = r; e->epoch = epoch; return r;
}
static std::unordered_map<Expr*, std::pair<i64, i64>> varBounds;
static void varSide(Expr* e) { // range constraint of an input variable
    if (roundSide.count(e)) return; auto& v = roundSide[e]; auto b = varBounds[e]; char s[32];
    if (e->op == FVAR && sx_fpmode != 1) { Z3_ast x = zvarInt(e); snprintf(s, 32, "%ld", (long)b.first); v.push_back(Z3_mk_ge(ctx, x, inum(s, false))); snprintf(s, 32, "%ld", (long)b.second); v.push_back(Z3_mk_le(ctx, x, inum(s, false))); return; }
    Z3_ast x = e->op == FVAR ? zvarInt(e) : zvarBV(e); int w = e->op == FVAR ? 48 : e->w;
    if (e->op == VAR && b.first == b.second - (i64)mask(w) ) return;
    if (b.first >= 0) { if (b.first) v.push_back(Z3_mk_bvuge(ctx, x, knum(b.first & mask(w), w))); if ((u64)b.second < mask(w)) v.push_back(Z3_mk_bvule(ctx, x, knum(b.second & mask(w), w))); return; }
    v.push_back(Z3_mk_bvsge(ctx, x, knum(b.first & mask(w), w))); v.push_back(Z3_mk_bvsle(ctx, x, knum(b.second & mask(w), w)));
}
static Z3_ast freshBV(Expr* e) { char b[64]; snprintf(b, 64, "a_%lx", (unsigned long)e->hash); ++nApprox; return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), e->w == 1 ? sBool : Z3_mk_bv_sort(ctx, e->w)); }
static Z3_ast fcmpZ(Expr* e) {
    int p = e->k8;
    if (sx_fpmode == 1) { Z3_ast a = zf(e->a), b = zf(e->b); switch (p) { case 1: return Z3_mk_fpa_eq(ctx, a, b); case 4: return Z3_mk_fpa_lt(ctx, a, b); case 5: return Z3_mk_fpa_leq(ctx, a, b);
        case 6: return or2(Z3_mk_fpa_lt(ctx, a, b), Z3_mk_fpa_lt(ctx, b, a)); case 7: return and2(Z3_mk_not(ctx, Z3_mk_fpa_is_nan(ctx, a)), Z3_mk_not(ctx, Z3_mk_fpa_is_nan(ctx, b))); case 2: return Z3_mk_fpa_gt(ctx, a, b); case 3: return Z3_mk_fpa_geq(ctx, a, b); } abort(); }
    FT *a = ft(e->a), *b = ft(e->b); int pr = prec(e->a->w);
    Z3_ast x, y;
    if (a->isInt && b->isInt && abs(a->k - b->k) < 200) {
        int k = std::max(a->k, b->k); double D = lcmD(a->D, b->D);
        double X = a->M * ldexp(1, k - a->k) * (D / a->D), Y = b->M * ldexp(1, k - b->k) * (D / b->D);
        if ((!a->rp && !b->rp) || std::max(X, Y) < ldexp(1, pr - 1)) { x = scaleInt(a, k, D); y = scaleInt(b, k, D); return p == 4 ? Z3_mk_lt(ctx, x, y) : Z3_mk_eq(ctx, x, y); }
    }
    a = mat(e->a, a); b = mat(e->b, b); x = toReal(a); y = toReal(b); return p == 4 ? Z3_mk_lt(ctx, x, y) : Z3_mk_eq(ctx, x, y);
}
static Z3_ast zb(Expr* e) {
    if (e->z) return e->z; Z3_ast r;
    switch (e->op) {
    case CONST: r = e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case VAR: varSide(e); r = toBoolEq1(zvarBV(e)); break;
    case AND: r = and2(zb(e->a), zb(e->b)); break; case OR: r = or2(zb(e->a), zb(e->b)); break;
    case XOR: r = isK(e->b) ? (e->b->k ? Z3_mk_not(ctx, zb(e->a)) : zb(e->a)) : Z3_mk_xor(ctx, zb(e->a), zb(e->b)); break;
    case ADD: case SUB: r = Z3_mk_xor(ctx, zb(e->a), zb(e->b)); break; case MUL: r = and2(zb(e->a), zb(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, zb(e->a), zb(e->b), zb(e->c)); break;
    case EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, zb(e->a), zb(e->b)) : Z3_mk_eq(ctx, zv(e->a), zv(e->b)); break;
    case ULT: r = Z3_mk_bvult(ctx, zv(e->a), zv(e->b)); break; case SLT: r = Z3_mk_bvslt(ctx, zv(e->a), zv(e->b)); break;
    case ULE: r = Z3_mk_bvule(ctx, zv(e->a), zv(e->b)); break; case SLE: r = Z3_mk_bvsle(ctx, zv(e->a), zv(e->b)); break;
    case EXTRACT: r = toBoolEq1(Z3_mk_extract(ctx, e->k8, e->k8, zv(e->a))); break;
    case FCMP: r = fcmpZ(e); break;
    case FCLASS: { if (sx_fpmode != 1) { r = freshBV(e); break; } Z3_ast f = zf(e->a), d = Z3_mk_false(ctx); u64 m = e->k; Z3_ast neg = Z3_mk_fpa_is_negative(ctx, f), pos = Z3_mk_not(ctx, neg);
        if ((m & 3)) d = or2(d, Z3_mk_fpa_is_nan(ctx, f)); if (m & 4) d = or2(d, and2(neg, Z3_mk_fpa_is_infinite(ctx, f))); if (m & 0x200) d = or2(d, and2(pos, Z3_mk_fpa_is_infinite(ctx, f)));
        if (m & 8) d = or2(d, and2(neg, Z3_mk_fpa_is_normal(ctx, f))); if (m & 0x100) d = or2(d, and2(pos, Z3_mk_fpa_is_normal(ctx, f))); if (m & 0x10) d = or2(d, and2(neg, Z3_mk_fpa_is_subnormal(ctx, f))); if (m & 0x80) d = or2(d, and2(pos, Z3_mk_fpa_is_subnormal(ctx, f)));
        if (m & 0x20) d = or2(d, and2(neg, Z3_mk_fpa_is_zero(ctx, f))); if (m & 0x40) d = or2(d, and2(pos, Z3_mk_fpa_is_zero(ctx, f))); r = d; break; }
    case OVF: { Z3_ast a = zv(e->a), b = zv(e->b); int op = e->k8 >> 1, sg = e->k8 & 1;
        if (op == 0) { r = Z3_mk_bvadd_no_overflow(ctx, a, b, sg); if (sg) r = and2(r, Z3_mk_bvadd_no_underflow(ctx, a, b)); }
        else if (op == 1) { r = Z3_mk_bvsub_no_underflow(ctx, a, b, sg); if (sg) r = and2(r, Z3_mk_bvsub_no_overflow(ctx, a, b)); }
        else { r = Z3_mk_bvmul_no_overflow(ctx, a, b, sg); if (sg) r = and2(r, Z3_mk_bvmul_no_underflow(ctx, a, b)); }
        r = Z3_mk_not(ctx, r); break; }
    default: r = freshBV(e); break;
    }
    e->z = r; return r;
}
static Z3_ast zv(Expr* e) {
    if (e->w == 1) return Z3_mk_ite(ctx, zb(e), knum(1, 1), knum(0, 1));
    if (e->z) return e->z; Z3_ast r;
    switch (e->op) {
    case CONST: r = knum(e->k, e->w); break;
    case VAR: varSide(e); r = zvarBV(e); break;
    case ADD: r = Z3_mk_bvadd(ctx, zv(e->a), zv(e->b)); break; case SUB: r = Z3_mk_bvsub(ctx, zv(e->a), zv(e->b)); break; case MUL: r = Z3_mk_bvmul(ctx, zv(e->a), zv(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, zv(e->a), zv(e->b)); break; case SDIV: r = Z3_mk_bvsdiv(ctx, zv(e->a), zv(e->b)); break; case UREM: r = Z3_mk_bvurem(ctx, zv(e->a), zv(e->b)); break; case SREM: r = Z3_mk_bvsrem(ctx, zv(e->a), zv(e->b)); break;
    case AND: r = Z3_mk_bvand(ctx, zv(e->a), zv(e->b)); break; case OR: r = Z3_mk_bvor(ctx, zv(e->a), zv(e->b)); break; case XOR: r = Z3_mk_bvxor(ctx, zv(e->a), zv(e->b)); break;
    case SHL: r = Z3_mk_bvshl(ctx, zv(e->a), zv(e->b)); break; case LSHR: r = Z3_mk_bvlshr(ctx, zv(e->a), zv(e->b)); break; case ASHR: r = Z3_mk_bvashr(ctx, zv(e->a), zv(e->b)); break;
    case CONCAT: r = isK(e->a) && e->a->k == 0 ? Z3_mk_zero_ext(ctx, e->a->w, zv(e->b)) : Z3_mk_concat(ctx, zv(e->a), zv(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->k8 + e->w - 1, e->k8, zv(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, zv(e->a)); break; case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, zv(e->a)); break;
    case ITE: r = Z3_mk_ite(ctx, zb(e->a), zv(e->b), zv(e->c)); break;
    case F2B: if (sx_fpmode == 1 && e->w <= 64) { r = freshBV(e); Z3_ast back = Z3_mk_fpa_to_fp_bv(ctx, r, fsort(e->w)); auto& s = roundSide[e]; if (s.empty()) s.push_back(Z3_mk_eq(ctx, back, zf(e->a))); } else r = freshBV(e); break;
    case FTOS: case FTOU: if (sx_fpmode == 1) { r = e->op == FTOS ? Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), zf(e->a), e->w) : Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), zf(e->a), e->w); } else r = freshBV(e); break;
    default: r = freshBV(e); break;
    }
    e->z = r; return r;
}

// ------------------------------------------------------------------ path state
struct Lit { Expr* e; bool flip; };          // e holds on this path; flip: the other side is to be explored
static std::vector<Lit> path; static std::unordered_set<Expr*> held; static u64 pathHash; static int nflip;
static std::vector<i64> inVals, curIn; static std::vector<VarInfo> pvars;
static u64 obsHash; static bool inPath = false; static sigjmp_buf endJmp; static int endKind; static char endMsg[480];
static Stats L;
static int maxDepth = 1 << 20;
enum { END_OK = 1, END_PRUNE, END_FAIL, END_CRASH, END_EXC, END_STEPS };
static void finish(int kind, const char* m) __attribute__((noreturn));
static void finish(int kind, const char* m) { endKind = kind; snprintf(endMsg, sizeof endMsg, "%s", m ? m : ""); siglongjmp(endJmp, 1); }
static Expr* wrap(Expr* e) { return (e->op == CONST || e->op == FCONST) ? 0 : e; }
static void lit(Expr* c, bool v, bool flip = true) {
    if (isK(c)) return; Expr* l = v ? c : mkNot(c);
    if (l->op == AND && l->w == 1) { if (!held.count(l)) { /* decompose conjunctions that hold */ if (!flip) { lit(l->a, true, false); lit(l->b, true, false); return; } } }
    if (!held.insert(l).second) { L.implied++; return; }
    path.push_back({l, flip}); pathHash = mix(pathHash, l->hash); L.branches++;
}
// A value is concretised by attempts "is it v?"; earlier failed attempts are replayed so that every re-execution emits the same literals.
static std::vector<std::pair<size_t, ld>> att; static std::vector<ld> hist;
template <class F> static void attempts(ld actual, F emit) { for (;;) { ld v = att.size() < hist.size() ? hist[att.size()] : actual; att.push_back({path.size(), v}); if (emit(v)) return; } }
// ------------------------------------------------------------------ shadow memory
extern "C" { void* sx_args[128]; void* sx_ret[32]; void* sx_callee; u64 sx_steps, sx_step_limit = 50000000; u8 sx_fn[8192]; u8 sx_pageflag[NPAGES + 1]; }
#define STATE_BASE ((u8*)0x200000000000UL)
#define SLOT_BASE ((u64*)0x300000000000UL)
static std::vector<u32> dirty; static std::map<u64, u64> farSlots;
static inline bool inArena(u64 a) { return a - ARENA_BASE < ARENA_SIZE; }
static inline u64 getSlot(u64 a) { if (inArena(a)) { u64 o = a - ARENA_BASE; return sx_pageflag[o >> 12] ? SLOT_BASE[o] : 0; } if (farSlots.empty()) return 0; auto it = farSlots.find(a); return it == farSlots.end() ? 0 : it->second; }
static inline void setSlot(u64 a, u64 s) {
    if (inArena(a)) { u64 o = a - ARENA_BASE; if (!sx_pageflag[o >> 12]) { if (!s) return; sx_pageflag[o >> 12] = 1; dirty.push_back(o >> 12); } SLOT_BASE[o] = s; return; }
    if (s) { farSlots[a] = s; sx_pageflag[NPAGES] = 1; } else { farSlots.erase(a); if (farSlots.empty()) sx_pageflag[NPAGES] = 0; }
}
static void shadowReset() { for (u32 p : dirty) { sx_pageflag[p] = 0; memset(SLOT_BASE + ((u64)p << 12), 0, 4096 * 8); } if (dirty.size() > 2000) { for (u32 p : dirty) madvise(SLOT_BASE + ((u64)p << 12), 4096 * 8, MADV_DONTNEED); } dirty.clear(); farSlots.clear(); sx_pageflag[NPAGES] = 0; }
#define X(p) ((Expr*)(p))
static void concretizeF(Expr* e, int w, ld v);
static Expr* byteOf(u64 s, u64 addr) { if (!s) return K(8, *(u8*)addr); Expr* e = (Expr*)(s & ~15UL); int i = s & 15; if (isF(e)) { if (e->w == 80) return K(8, *(u8*)addr); e = mkF2B(e->w, e); } return mkExtract(e, i * 8, 8); }
extern "C" {
void* sxs_load(void* p, int n, int k) {
    u64 a = (u64)p; u64 s0 = getSlot(a); bool same = s0 && (s0 & 15) == 0, any = s0 != 0;
    int m = k == 80 ? 10 : n; Expr* e0 = (Expr*)(s0 & ~15UL);
    for (int i = 1; i < m; ++i) { u64 s = getSlot(a + i); any |= s != 0; if (s != s0 + i) same = false; }
    if (!any) return 0; Expr* r = 0;
    int sz = same ? (e0->w == 80 ? 10 : (e0->w + 7) / 8) : 0;
    if (same && sz == m) r = e0;
    else { if (k == 80) { for (int i = 0; i < m; ++i) if (u64 s = getSlot(a + i)) { Expr* e = (Expr*)(s & ~15UL); if (isF(e) && e->w == 80) return 0; lit(mkBin(EQ, byteOf(s, a + i), K(8, *(u8*)(a + i))), true); } return 0; }
        for (int i = m - 1; i >= 0; --i) { Expr* b = byteOf(getSlot(a + i), a + i); r = r ? mkConcat(r, b) : b; } }
    if (k == 1) { if (r->w > 1) r = mkExtract(r, 0, 1); } else if (k == 0) { if (isF(r)) { if (r->w == 80) return 0; r = mkF2B(r->w, r); } } else { if (!isF(r)) r = mkB2F(k, r); }
    return wrap(r);
}
void sxs_clear(void* p, u64 n) { u64 a = (u64)p;
    if (inArena(a)) { u64 o = a - ARENA_BASE, e = o + n; while (o < e) { u64 pg = o >> 12, pe = std::min(e, (pg + 1) << 12); if (sx_pageflag[pg]) memset(SLOT_BASE + o, 0, (pe - o) * 8); o = pe; } return; }
    if (farSlots.empty()) return; auto it = farSlots.lower_bound(a); while (it != farSlots.end() && it->first < a + n) it = farSlots.erase(it); if (farSlots.empty()) sx_pageflag[NPAGES] = 0; }
void sxs_store(void* p, int n, void* e_, int k) { Expr* e = X(e_); u64 a = (u64)p; if (isK(e) || isFK(e)) { sxs_clear(p, n); return; }
    if (!isF(e) && (int)e->w < n * 8) e = mkZext(e, n * 8); if (isK(e)) { sxs_clear(p, n); return; }
    int m = e->w == 80 ? 10 : n; for (int i = 0; i < m; ++i) setSlot(a + i, (u64)e | i); for (int i = m; i < n; ++i) setSlot(a + i, 0); }
void sxs_copy(void* d, void* s, u64 n) { u64 a = (u64)d, b = (u64)s;
    bool any = false; if (inArena(b)) { u64 o = b - ARENA_BASE; for (u64 pg = o >> 12; pg <= (o + (n ? n - 1 : 0)) >> 12; ++pg) any |= sx_pageflag[pg]; } else any = !farSlots.empty();
    if (!any) { sxs_clear(d, n); return; }
    if (a <= b) for (u64 i = 0; i < n; ++i) setSlot(a + i, getSlot(b + i)); else for (u64 i = n; i-- > 0;) setSlot(a + i, getSlot(b + i)); }
void sxs_memset(void* d, void* e, u64 n) { Expr* x = X(e); if (x->w != 8) x = x->w > 8 ? mkExtract(x, 0, 8) : mkZext(x, 8); if (isK(x)) { sxs_clear(d, n); return; } for (u64 i = 0; i < n; ++i) setSlot((u64)d + i, (u64)x); }
void sxs_byval(void* d, void* s, u64 n) { if (s) sxs_copy(d, s, n); else sxs_clear(d, n); }

// ------------------------------------------------------------------ operations
#define EI(e, w, v) ((e) ? X(e) : K(w, v))
#define EF(e, w, v) ((e) ? X(e) : FK(w, v))
void* sxs_bin(int op, int w, void* ea, u64 a, void* eb, u64 b) { static const Op t[] = {ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR}; return wrap(mkBin(t[op], EI(ea, w, a), EI(eb, w, b))); }
void* sxs_icmp(int p, int w, void* ea, u64 a, void* eb, u64 b) { Expr *x = EI(ea, w, a), *y = EI(eb, w, b);
    switch (p) { case 32: return wrap(mkBin(EQ, x, y)); case 33: return wrap(mkNot(mkBin(EQ, x, y))); case 34: return wrap(mkBin(ULT, y, x)); case 35: return wrap(mkNot(mkBin(ULT, x, y))); case 36: return wrap(mkBin(ULT, x, y)); case 37: return wrap(mkNot(mkBin(ULT, y, x)));
    case 38: return wrap(mkBin(SLT, y, x)); case 39: return wrap(mkNot(mkBin(SLT, x, y))); case 40: return wrap(mkBin(SLT, x, y)); case 41: return wrap(mkNot(mkBin(SLT, y, x))); } abort(); }
void* sxs_cast(int op, int f, int t, void* e) { Expr* x = X(e); if (op == 2) return wrap(mkExtract(x, 0, t)); return wrap(op == 1 ? mkSext(x, t) : mkZext(x, t)); }
void* sxs_fbin(int op, int w, void* ea, ld a, void* eb, ld b) { return wrap(mkFbin(op, EF(ea, w, a), EF(eb, w, b))); }
void* sxs_fcmp(int p, int w, void* ea, ld a, void* eb, ld b) { return wrap(mkFcmp(p, EF(ea, w, a), EF(eb, w, b))); }
// rounding operations and conversions to integers fork on the integer result (see sx_evalF)
static ld evalF(Expr* e); static u64 evalI(Expr* e);
static void pinTrunc(Expr* x, ld val) { int w = x->w; // the truncation of x
    attempts(truncl(val), [=](ld r) {
        if (r >= 0) { bool a = val < r + 1, b; lit(mkFcmp(4, x, FK(w, r + 1)), a); if (!a) return false; if (r == 0) { b = -1 < val; lit(mkFcmp(4, FK(w, -1), x), b); } else { b = !(val < r); lit(mkFcmp(4, x, FK(w, r)), !b); } return b; }
        bool a = r - 1 < val; lit(mkFcmp(4, FK(w, r - 1), x), a); if (!a) return false; bool b = r < val; lit(mkFcmp(4, FK(w, r), x), b); return !b; }); }
void* sxs_funop(int op, int w, void* e_) { Expr* e = X(e_);
    if (op == 0) return wrap(mkFneg(e)); if (op == 1) { if (e->op == FABS) return e; if (e->op == FNEG) e = e->a; return mk(FABS, w, e); }
    if (sx_fpmode == 1) { int k = op; return wrap(mk(FUN, w, e, 0, 0, 0, k)); }
    ld v = evalF(e);
    switch (op) { case 2: attempts(floorl(v), [=](ld r) { lit(mkFcmp(4, e, FK(w, r)), v < r); if (v < r) return false; lit(mkFcmp(4, e, FK(w, r + 1)), v < r + 1); return v < r + 1; }); return 0; case 3: attempts(ceill(v), [=](ld r) { lit(mkFcmp(4, FK(w, r), e), r < v); if (r < v) return false; lit(mkFcmp(4, FK(w, r - 1), e), r - 1 < v); return r - 1 < v; }); return 0; case 4: pinTrunc(e, v); return 0; }
    concretizeF(e, w, v); return 0; }
void* sxs_itof(int sg, int fw, int tw, void* e_) { Expr* e = X(e_);
    if (isK(e)) return 0; if (e->op == ITE && isK(e->b) && isK(e->c)) { auto cv = [&](Expr* k) { return FK(tw, sg ? rnd(tw, (ld)sx(k->k, fw)) : rnd(tw, (ld)k->k)); }; return wrap(mkIte(e->a, cv(e->b), cv(e->c))); }
    if (fw == 1) { return wrap(mkIte(e, FK(tw, sg ? -1 : 1), FK(tw, 0))); }
    if (e->op == CONCAT && isK(e->a) && e->a->k == 0 && e->b->w == 1) return wrap(mkIte(e->b, FK(tw, 1), FK(tw, 0)));
    return wrap(mk(sg ? STOF : UTOF, tw, e)); }
void* sxs_ftoi(int sg, int fw, int iw, void* e_) { Expr* e = X(e_); if (sx_fpmode == 1) return wrap(mk(sg ? FTOS : FTOU, iw, e)); pinTrunc(e, evalF(e)); return 0; }
void* sxs_fconv(int fw, int tw, void* e_) { Expr* e = X(e_); if (e->op == FVAR && sx_fpmode != 1 && tw > fw) {} if (tw < fw && e->op == FCONV && e->a->w == (unsigned)tw) return e->a; if (tw > fw && e->op == FITE && isFK(e->b) && isFK(e->c)) return wrap(mkIte(e->a, FK(tw, e->b->f), FK(tw, e->c->f))); return wrap(mk(FCONV, tw, e)); }
void* sxs_f2b(int w, void* e) { if (w > 64) { concretizeF(X(e), 80, evalF(X(e))); return 0; } return wrap(mkF2B(w, X(e))); }
void* sxs_b2f(int w, void* e) { return wrap(mkB2F(w, X(e))); }
void* sxs_select(int w, void* c, bool cv, void* ea, u64 a, void* eb, u64 b) { return wrap(mkIte(X(c), EI(ea, w, a), EI(eb, w, b))); }
void* sxs_fselect(int w, void* c, bool cv, void* ea, ld a, void* eb, ld b) { return wrap(mkIte(X(c), EF(ea, w, a), EF(eb, w, b))); }
void sxs_br(void* c, bool v) { lit(X(c), v); }
void sxs_switch(void* e, int w, u64 v, int n, const u64* ks) { for (int i = 0; i < n; ++i) { lit(mkBin(EQ, X(e), K(w, ks[i])), (v & mask(w)) == (ks[i] & mask(w))); if ((v & mask(w)) == (ks[i] & mask(w))) return; } }
void* sxs_overflow(int op, int sg, int w, void* ea, u64 a, void* eb, u64 b) { Expr *x = EI(ea, w, a), *y = EI(eb, w, b); u64 h;
    if (!sg && op == 0 && !__builtin_add_overflow(x->hi, y->hi, &h) && h <= mask(w)) return 0; if (!sg && op == 1 && x->lo >= y->hi) return 0; if (!sg && op == 2 && !__builtin_mul_overflow(x->hi, y->hi, &h) && h <= mask(w)) return 0;
    return wrap(mk(OVF, 1, x, y, 0, 0, op * 2 + sg)); }
void* sxs_fpclass(int w, void* e, u64 m) { if (sx_fpmode == 1) return wrap(mk(FCLASS, 1, X(e), 0, 0, m)); if ((m & 0x1f8) == 0 || (m & 0x1f8) == 0x1f8) return 0; concretizeF(X(e), w, evalF(X(e))); return 0; }
static void pinI(Expr* e, int w, u64 v) { if (isK(e)) return; v &= mask(w); attempts((ld)v, [=](ld r) { bool t = (u64)r == v; lit(mkBin(EQ, e, K(w, (u64)r)), t); return t; }); }
void sxs_concretize(void* e, int w, u64 v) { pinI(X(e), w, v); }
void sxs_concretize_f(void* e, int w, ld v) { concretizeF(X(e), w, v); }
void sxs_div(void* e, int w, u64 v) { lit(mkBin(EQ, X(e), K(w, 0)), (v & mask(w)) == 0); }
void sxs_timeout(void) { finish(END_STEPS, "step limit exceeded (does not terminate within the bound)"); }
void sxs_addr(void* e, void* p, u64 n, int wr) { pinI(X(e), 64, (u64)p); }
void sxs_chk(void* p, u64 n, int wr) {
    if (n == 0) return; u64 a = (u64)p; if (a < 65536) { char b[96]; snprintf(b, 96, "memory: null pointer %s", wr ? "write" : "read"); finish(END_CRASH, b); }
    u64 o = a - ARENA_BASE; if (o >= HEAP_SIZE) return;
    for (u64 i = 0; i < n; ++i) { u8 s = o + i < HEAP_SIZE ? STATE_BASE[o + i] : 0; if (s != 1) { char b[96]; snprintf(b, 96, "memory: %s %s", s == 2 ? "use after free" : "out of bounds", wr ? "write" : "read"); finish(END_CRASH, b); } }
}
}
static void concretizeF(Expr* e, int w, ld v) { attempts(v, [=](ld r) { lit(mkFcmp(1, e, FK(w, r)), r == v); return r == v; }); }

// concrete evaluation of an expression under the current inputs
static std::unordered_map<Expr*, ld> evF; static std::unordered_map<Expr*, u64> evI;
static ld evalF0(Expr* e); static u64 evalI0(Expr* e);
static ld evalF(Expr* e) { auto it = evF.find(e); if (it != evF.end()) return it->second; ld r = evalF0(e); evF[e] = r; return r; }
static u64 evalI(Expr* e) { auto it = evI.find(e); if (it != evI.end()) return it->second; u64 r = evalI0(e) & mask(e->w); evI[e] = r; return r; }
static ld evalF0(Expr* e) {
    switch (e->op) { case FCONST: return e->f; case FVAR: return ldexpl((ld)curIn[e->k & 0xffff], -(int)e->k8); case FADD: case FSUB: case FMUL: case FDIV: return ffold(e->op - FADD, e->w, evalF(e->a), evalF(e->b)); case FNEG: return -evalF(e->a); case FABS: return fabsl(evalF(e->a));
    case FITE: return evalI(e->a) ? evalF(e->b) : evalF(e->c); case STOF: return rnd(e->w, (ld)sx(evalI(e->a), e->a->w)); case UTOF: return rnd(e->w, (ld)evalI(e->a)); case FCONV: return rnd(e->w, evalF(e->a));
    case B2F: { u64 u = evalI(e->a); if (e->w == 32) { u32 x = u; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &u, 8); return d; } default: abort(); } }
static u64 evalI0(Expr* e) {
    switch (e->op) { case CONST: return e->k; case VAR: return curIn[e->k & 0xffff]; case CONCAT: return (evalI(e->a) << e->b->w) | evalI(e->b); case EXTRACT: return evalI(e->a) >> e->k8; case SEXT: return sx(evalI(e->a), e->a->w); case ZEXT: return evalI(e->a); case ITE: return evalI(e->a) ? evalI(e->b) : evalI(e->c);
    case FCMP: return fcmpv(e->k8, evalF(e->a), evalF(e->b)); case F2B: { ld v = evalF(e->a); if (e->w == 32) { float f = v; u32 x; memcpy(&x, &f, 4); return x; } double d = v; u64 x; memcpy(&x, &d, 8); return x; }
    case FTOS: return (i64)evalF(e->a); case FTOU: return (u64)evalF(e->a);
    case OVF: case FCLASS: abort(); default: return fold(e->op, e->a->w, evalI(e->a), evalI(e->b)); } }

// ------------------------------------------------------------------ allocator
static u64 bump = 64, allocs = 0; // fresh memory is filled with a value that differs between allocations, as in replay.cpp
extern "C" {
void* sx_malloc(size_t n) {
    if (!inPath) return malloc(n ? n : 1);
    if (n > (64UL << 20)) throw std::bad_alloc();
    u64 tot = ((n + 15) & ~15UL) + 48; if (bump + tot + 4096 > HEAP_SIZE) throw std::bad_alloc();
    u64 o = bump + 32; bump += tot; *(u64*)(ARENA_BASE + o - 16) = n; memset(STATE_BASE + o, 1, n); memset((void*)(ARENA_BASE + o), 0x80 | (++allocs * 37 & 0x7f), n); return (void*)(ARENA_BASE + o);
}
void sx_free(void* p) {
    if (!p) return; u64 o = (u64)p - ARENA_BASE; if (o >= HEAP_SIZE) { free(p); return; }
    if (!inPath) return;
    u64 n = *(u64*)((u64)p - 16); if (o < 64 || n > HEAP_SIZE || (n && STATE_BASE[o] != 1)) finish(END_CRASH, n && STATE_BASE[o] == 2 ? "memory: double free" : "memory: invalid free");
    memset(STATE_BASE + o, 2, n); }
void sx_free2(void* p, size_t) { sx_free(p); }
void* sx_calloc(size_t a, size_t b) { void* p = sx_malloc(a * b); memset(p, 0, a * b); sxs_clear(p, a * b); return p; }
void* sx_realloc(void* p, size_t n) { if (!p) return sx_malloc(n); if (!inArena((u64)p)) return realloc(p, n); u64 o = *(u64*)((u64)p - 16); void* q = sx_malloc(n); u64 m = std::min<u64>(o, n); memcpy(q, p, m); sxs_copy(q, p, m); sx_free(p); return q; }
}
namespace fmt { inline namespace v9 { void vprint(FILE*, string_view, format_args) {} void vprint(string_view, format_args) {} } }
void operator delete(void* p) noexcept { if (inArena((u64)p)) sx_free(p); else free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
// ------------------------------------------------------------------ inputs and observations
static i64 nextIn(i64 lo, i64 hi, u64& idx) { idx = curIn.size(); if (idx > 4000) finish(END_CRASH, "too many symbolic inputs"); i64 v = idx < inVals.size() ? inVals[idx] : (lo > 0 ? lo : hi < 0 ? hi : 0); if (v < lo) v = lo; if (v > hi) v = hi; curIn.push_back(v); return v; }
static Expr* newVar(Op op, int w, u64 idx, i64 lo, i64 hi, int k8) {
    u64 key = (idx & 0xffff) | (mix(mix(7, lo), hi) << 16);
    Expr* e = mk(op, w, 0, 0, 0, key, k8); varBounds[e] = {lo, hi};
    if (op == VAR && lo >= 0) { e->lo = lo; e->hi = std::min<u64>(hi, mask(w)); }
    if (op == FVAR) { e->f = std::max(fabs((double)lo), fabs((double)hi)); e->flo = ldexpl(lo, -k8); e->fhi = ldexpl(hi, -k8); }
    pvars.push_back({"", op == FVAR, w, lo, hi, k8, e}); return e; }
extern "C" {
int sx_int(const char*, int lo, int hi) { u64 i; i64 v = nextIn(lo, hi, i); sx_ret[0] = wrap(newVar(VAR, 32, i, lo, hi, 0)); if (lo == hi) sx_ret[0] = 0; return v; }
u64 sx_u64(const char*) { u64 i; i64 v = nextIn(INT64_MIN, INT64_MAX, i); Expr* e = newVar(VAR, 64, i, INT64_MIN, INT64_MAX, 0); sx_ret[0] = e; return v; }
u32 sx_u32(const char*) { u64 i; i64 v = nextIn(0, 0xffffffff, i); sx_ret[0] = newVar(VAR, 32, i, 0, 0xffffffff, 0); return v; }
u8 sx_byte(const char*) { u64 i; i64 v = nextIn(0, 255, i); sx_ret[0] = newVar(VAR, 8, i, 0, 255, 0); return v; }
bool sx_bool(const char*) { u64 i; i64 v = nextIn(0, 1, i); sx_ret[0] = newVar(VAR, 1, i, 0, 1, 0); return v; }
float sx_real(const char*, int lo, int hi, int k) { u64 i; i64 v = nextIn(lo, hi, i); sx_ret[0] = lo == hi ? 0 : newVar(FVAR, 32, i, lo, hi, k); return ldexpf((float)v, -k); }
double sx_reald(const char*, int lo, int hi, int k) { u64 i; i64 v = nextIn(lo, hi, i); sx_ret[0] = lo == hi ? 0 : newVar(FVAR, 64, i, lo, hi, k); return ldexp((double)v, -k); }
long sx_clock_default; long (*sx_clock_fn)() = 0;
long sx_clock() { if (sx_clock_fn) return sx_clock_fn(); sx_ret[0] = 0; return sx_clock_default += 1000; }
int sx_pin(int v) { return v; } float sx_pinf(float v) { return v; }
void sx_fail(const char* m) { finish(END_FAIL, m); }
void sx_prune() { finish(END_PRUNE, ""); }
void sx_fpexact(int on) { sx_fpmode = on; }
void sx_steplimit(u64 n) { sx_step_limit = n; }
static u64 coverBits; static const char* coverNames[64];
void sx_cover(const char* n) { for (int i = 0; i < 64; ++i) { if (!coverNames[i]) coverNames[i] = n; if (!strcmp(coverNames[i], n)) { coverBits |= 1UL << i; return; } } }
void sx_observe(u64 v) { obsHash = mix(obsHash, v); }
size_t sx_hash_bytes(const void*, size_t, size_t) { return 7; }
ld sx_real_strtold(const char* s, char** e) { return strtold(s, e); }
void sx_pin_bytes(const char* s) { for (;; ++s) { if (u64 sl = getSlot((u64)s)) { lit(mkBin(EQ, byteOf(sl, (u64)s), K(8, *(u8*)s)), true); } if (!*s) break; } }
struct GEnt { void* p; u64 n; }; extern GEnt sx_globals[];
void sx_test();
}
// ------------------------------------------------------------------ running one path
static std::vector<std::string> gsnap; static ucontext_t mainCtx, pathCtx;
static void entry() {
    try { sx_test(); endKind = END_OK; endMsg[0] = 0; }
    catch (std::exception& e) { char b[400]; int st; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); snprintf(b, 400, "uncaught exception %s: %s", d ? d : "?", e.what()); finish(END_EXC, b); }
    catch (...) { finish(END_EXC, "uncaught exception"); }
    siglongjmp(endJmp, 1);
}
static void onSig(int s) { if (!inPath) { signal(s, SIG_DFL); raise(s); return; } const char* m = s == SIGSEGV ? "crash: segmentation fault" : s == SIGFPE ? "crash: integer division by zero" : s == SIGABRT ? "crash: abort" : s == SIGBUS ? "crash: bus error" : "crash: illegal instruction"; endKind = END_CRASH; snprintf(endMsg, sizeof endMsg, "%s", m); siglongjmp(endJmp, 1); }
static void runPath(const std::vector<i64>& in, const std::vector<ld>& hs) {
    inVals = in; hist = hs; att.clear(); curIn.clear(); pvars.clear(); path.clear(); held.clear(); pathHash = 1; obsHash = 1; coverBits = 0; evF.clear(); evI.clear(); sx_callee = 0; sx_steps = 0; sx_clock_default = 1000000000; sx_clock_fn = 0;
    memset(STATE_BASE, 0, bump + 64); bump = 64; allocs = 0; shadowReset();
    for (size_t i = 0; i < gsnap.size(); ++i) memcpy(sx_globals[i].p, gsnap[i].data(), gsnap[i].size());
    memset((void*)__cxxabiv1::__cxa_get_globals(), 0, 16);
    for (auto& x : sx_args) x = 0; for (auto& x : sx_ret) x = 0;
    inPath = true;
    if (!sigsetjmp(endJmp, 1)) { getcontext(&pathCtx); pathCtx.uc_stack.ss_sp = (void*)(ARENA_BASE + HEAP_SIZE); pathCtx.uc_stack.ss_size = STACK_SIZE; pathCtx.uc_link = 0; makecontext(&pathCtx, entry, 0); setcontext(&pathCtx); }
    inPath = false; sx_clock_fn = 0; L.steps += sx_steps;
    memset((void*)__cxxabiv1::__cxa_get_globals(), 0, 16);
}
// ------------------------------------------------------------------ solver stack
struct Fr { Expr* e; std::vector<Expr*> sides; };
static std::vector<Fr> stk; static std::unordered_set<Expr*> sideOn;
static void collect(Expr* e, std::unordered_set<Expr*>& vis, std::vector<Expr*>& out) {
    std::vector<Expr*> st{e}; while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!x || isK(x) || isFK(x) || !vis.insert(x).second) continue;
        if (x->op == VAR || x->op == FVAR) varSide(x); auto it = roundSide.find(x); if (it != roundSide.end() && !it->second.empty()) out.push_back(x); st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); } }
static const std::vector<Expr*>& sides(Expr* e) { if (!e->rnd) { e->rnd = new std::vector<Expr*>; std::unordered_set<Expr*> v; zb(e); collect(e, v, *e->rnd); collect(e, v, *e->rnd); } return *e->rnd; }
static void assertLit(Expr* l, std::vector<Expr*>* rec) { Z3_ast z = zb(l); for (Expr* s : sides(l)) if (sideOn.insert(s).second) { if (rec) rec->push_back(s); for (Z3_ast c : roundSide[s]) Z3_solver_assert(ctx, slv, c); } Z3_solver_assert(ctx, slv, z); }
static void sync(size_t n) { // solver stack = path[0..n)
    size_t k = 0; while (k < stk.size() && k < n && stk[k].e == path[k].e) ++k;
    if (k < stk.size()) { Z3_solver_pop(ctx, slv, stk.size() - k); while (stk.size() > k) { for (Expr* s : stk.back().sides) sideOn.erase(s); stk.pop_back(); } }
    for (; k < n; ++k) { Z3_solver_push(ctx, slv); Fr f; f.e = path[k].e; assertLit(f.e, &f.sides); stk.push_back(std::move(f)); }
}
static bool modelToInput(std::vector<i64>& out) {
    Z3_model m = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, m); out = curIn;
    for (size_t i = 0; i < pvars.size(); ++i) { Expr* e = pvars[i].e; Z3_ast v = e->op == FVAR ? zvarInt(e) : zvarBV(e); Z3_ast r; if (!Z3_model_eval(ctx, m, v, false, &r)) continue; if (Z3_get_ast_kind(ctx, r) != Z3_NUMERAL_AST) continue;
        if (e->op == FVAR && sx_fpmode != 1) { int64_t x; if (Z3_get_numeral_int64(ctx, r, &x)) out[i] = x; }
        else { uint64_t x; if (Z3_get_numeral_uint64(ctx, r, &x)) { int w = e->op == FVAR ? 48 : e->w; out[i] = pvars[i].lo < 0 ? sx(x, w) : (i64)x; } } }
    Z3_model_dec_ref(ctx, m); return true;
}
static std::deque<Item> local;
static const char* dumpQ;
static void donate() { if (S->hungry <= 0 || local.size() < 2) return; pthread_mutex_lock(&S->mu); int n = std::max<int>(1, std::min<int>(local.size() / 2, S->hungry * 2)); while (n-- > 0 && local.size() > 1) { qpush(local.front()); local.pop_front(); } pthread_cond_broadcast(&S->cv); pthread_mutex_unlock(&S->mu); }
static void explore(int bound) {
    u64 h = 1; size_t n = path.size();
    for (size_t i = 0; i < n; ++i) {
        Expr* l = path[i].e; u64 hp = h; h = mix(h, l->hash);
        if ((int)i < bound || !path[i].flip) continue;
        if (S->stop) return;
        if (now() > S->deadline) { S->incomplete |= 1; return; }
        sync(i); Z3_solver_push(ctx, slv); Expr* nl = mkNot(l); std::vector<Expr*> rec; assertLit(nl, &rec);
        double t0 = now(); Z3_lbool r = Z3_solver_check(ctx, slv); double dt = now() - t0; L.solver_s += dt; L.queries++;
        if (dt > 1 && getenv("SX_SLOW")) { fprintf(stderr, "slow query %.2fs res %d depth %zu\n%s\n", dt, r, i, Z3_solver_to_string(ctx, slv)); }
        if (r == Z3_L_TRUE) { L.sat++; Item it; it.bound = i + 1; it.expect = mix(hp, nl->hash); modelToInput(it.in); for (auto& a : att) { if (a.first > i) break; it.hist.push_back(a.second); } local.push_back(std::move(it)); }
        else if (r == Z3_L_FALSE) L.unsat++; else { L.unknown++; S->incomplete |= 2; }
        Z3_solver_pop(ctx, slv, 1); for (Expr* s : rec) sideOn.erase(s);
        donate();
    }
}
static void mergeStats() { auto& g = S->st; g.paths += L.paths; g.pruned += L.pruned; g.branches += L.branches; g.queries += L.queries; g.sat += L.sat; g.unsat += L.unsat; g.unknown += L.unknown; g.diverged += L.diverged; g.steps += L.steps; g.completed += L.completed; g.crashes += L.crashes; g.implied += L.implied; g.solver_s += L.solver_s; g.maxdepth = std::max(g.maxdepth, L.maxdepth); g.approx += nApprox; nApprox = 0; L = Stats(); for (int i = 0; i < 8192; ++i) S->fn[i] |= sx_fn[i]; }
static void recordEnd() {
    bool viol = endKind == END_FAIL || endKind == END_CRASH || endKind == END_EXC || endKind == END_STEPS;
    pthread_mutex_lock(&S->mu);
    if (viol) { int k = -1; for (int i = 0; i < S->nviol; ++i) if (!strcmp(S->viol[i].msg, endMsg)) k = i;
        if (k < 0 && S->nviol < 16) { auto& v = S->viol[S->nviol++]; snprintf(v.kind, 16, "%s", endKind == END_FAIL ? "assert" : endKind == END_CRASH ? "crash" : endKind == END_EXC ? "exception" : "steps"); snprintf(v.msg, 480, "%s", endMsg); v.n = std::min<size_t>(curIn.size(), 4096); for (int i = 0; i < v.n; ++i) v.in[i] = curIn[i]; if (!getenv("SX_KEEP_GOING")) { S->stop = 1; pthread_cond_broadcast(&S->cv); } } }
    if (endKind == END_OK) { u64 c = S->st.completed + L.completed; int slot = -1; if (S->nsamp < 24) slot = S->nsamp++; else if (S->nsamp < 64 && (c & (c - 1)) == 0) slot = S->nsamp++; else if ((c & 255) == 0) slot = 24 + (mix(c, 5) % 40) % std::max(1, S->nsamp - 24);
        if (slot >= 0 && slot < 64 && curIn.size() <= 1024) { if (slot >= S->nsamp) slot = S->nsamp++; auto& s = S->samp[slot]; s.n = curIn.size(); s.obs = obsHash; for (int i = 0; i < s.n; ++i) s.in[i] = curIn[i]; } }
    if (endKind != END_PRUNE) for (int i = 0; i < 64 && coverNames[i]; ++i) if (coverBits >> i & 1) { int j; for (j = 0; j < S->ncover; ++j) if (!strcmp(S->cover[j], coverNames[i])) break; if (j == S->ncover && j < 64) { snprintf(S->cover[j], 96, "%s", coverNames[i]); S->ncover++; } if (j < 64) S->covern[j]++; }
    mergeStats(); pthread_mutex_unlock(&S->mu);
}
static bool getItem(Item& it) {
    if (!local.empty()) { it = std::move(local.back()); local.pop_back(); return true; }
    pthread_mutex_lock(&S->mu); bool ok = false; S->hungry++;
    for (;;) { if (S->stop || now() > S->deadline) break; if (qpop(it)) { ok = true; break; } S->idle++; if (S->idle == S->nworkers) { S->stop |= 2; pthread_cond_broadcast(&S->cv); S->idle--; break; }
        timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 100000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; } pthread_cond_timedwait(&S->cv, &S->mu, &ts); S->idle--; }
    S->hungry--; if (!ok && !S->stop) S->incomplete |= 1; pthread_mutex_unlock(&S->mu); return ok;
}
static void init01() { T1 = K(1, 1); T0 = K(1, 0); }
static void worker() {
    z3init(); init01(); Item it;
    while (getItem(it)) {
        if (nExprs > 2000000 || roundSide.size() > 400000) { for (Expr* e : table) delete e->rnd; stk.clear(); sideOn.clear(); held.clear(); path.clear(); varBounds.clear(); evF.clear(); evI.clear(); shadowReset(); resetExprs(); z3reset(); init01(); }
        runPath(it.in, it.hist); L.paths++; L.maxdepth = std::max<u64>(L.maxdepth, path.size());
        u64 h = 1; bool div = (int)path.size() < it.bound; for (int i = 0; i < it.bound && !div; ++i) h = mix(h, path[i].e->hash);
        if (it.bound && (div || h != it.expect)) { L.diverged++; S->incomplete |= 16; if (getenv("SX_DIV")) { u64 g = 1; fprintf(stderr, "diverged bound %d path %zu hist %zu att", it.bound, path.size(), it.hist.size()); for (auto& a : att) fprintf(stderr, " %zu:%Lg", a.first, a.second); fprintf(stderr, "\n"); if (it.bound <= (int)path.size()) for (int i = std::max(0, it.bound - 3); i < it.bound; ++i) fprintf(stderr, "   %d %s\n", i, Z3_ast_to_string(ctx, zb(path[i].e))); } if (endKind == END_FAIL || endKind == END_CRASH || endKind == END_EXC || endKind == END_STEPS) recordEnd(); else { pthread_mutex_lock(&S->mu); mergeStats(); pthread_mutex_unlock(&S->mu); } continue; }
        if (endKind == END_PRUNE) L.pruned++; else L.completed++;
        int ek = endKind; if (ek == END_CRASH) L.crashes++;
        recordEnd(); explore(it.bound);
    }
    if (!local.empty()) S->incomplete |= 1;
    pthread_mutex_lock(&S->mu); S->st.dropped += local.size(); mergeStats(); S->nworkers--; if (S->idle >= S->nworkers) pthread_cond_broadcast(&S->cv); pthread_mutex_unlock(&S->mu);
}
static std::string esc(const char* s) { std::string r; for (; *s; ++s) { if (*s == '"' || *s == '\\') { r += '\\'; r += *s; } else if ((u8)*s < 32 || (u8)*s > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (u8)*s); r += b; } else r += *s; } return r; }
static void report(const char* f, double t0) {
    FILE* o = f ? fopen(f, "w") : stdout; if (!o) { perror(f); return; } auto& g = S->st;
    fprintf(o, "{\"paths\":%lu,\"completed\":%lu,\"pruned\":%lu,\"branches\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"diverged\":%lu,\"implied\":%lu,\"steps\":%lu,\"maxdepth\":%lu,\"approx\":%lu,\"dropped\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"incomplete\":%d,\n", g.paths, g.completed, g.pruned, g.branches, g.queries, g.sat, g.unsat, g.unknown, g.diverged, g.implied, g.steps, g.maxdepth, g.approx, g.dropped, g.solver_s, now() - t0, S->incomplete);
    fprintf(o, "\"violations\":["); for (int i = 0; i < S->nviol; ++i) { auto& v = S->viol[i]; fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"input\":[", i ? "," : "", v.kind, esc(v.msg).c_str()); for (int j = 0; j < v.n; ++j) fprintf(o, "%s%ld", j ? "," : "", (long)v.in[j]); fprintf(o, "]}"); }
    fprintf(o, "],\n\"samples\":["); for (int i = 0; i < S->nsamp && i < 64; ++i) { auto& v = S->samp[i]; fprintf(o, "%s{\"obs\":\"%lx\",\"input\":[", i ? ",\n" : "", v.obs); for (int j = 0; j < v.n; ++j) fprintf(o, "%s%ld", j ? "," : "", (long)v.in[j]); fprintf(o, "]}"); }
    fprintf(o, "],\n\"covers\":{"); for (int i = 0; i < S->ncover; ++i) fprintf(o, "%s\"%s\":%lu", i ? "," : "", esc(S->cover[i]).c_str(), S->covern[i]);
    fprintf(o, "},\n\"fns\":["); bool first = true; for (int i = 0; i < 8192; ++i) if (S->fn[i]) { fprintf(o, "%s%d", first ? "" : ",", i); first = false; } fprintf(o, "]}\n"); if (f) fclose(o);
}
static void mapAt(void* p, size_t n) { if (mmap(p, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != p) { perror("mmap arena"); exit(4); } }
int main(int argc, char** argv) {
    double t0 = now(); int nw = getenv("SX_WORKERS") ? atoi(getenv("SX_WORKERS")) : 8; double lim = getenv("SX_TIME") ? atof(getenv("SX_TIME")) : 60;
    mapAt((void*)ARENA_BASE, ARENA_SIZE); mapAt(STATE_BASE, HEAP_SIZE); mapAt(SLOT_BASE, ARENA_SIZE * 8);
    u64 qn = 8UL << 20; char* sh = (char*)mmap(0, sizeof(Shared) + qn * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); S = (Shared*)sh; Q = (u64*)(sh + sizeof(Shared)); S->qcap = qn;
    pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &ma); pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED); pthread_cond_init(&S->cv, &ca);
    for (GEnt* g = sx_globals; g->p; ++g) gsnap.push_back(std::string((char*)g->p, g->n));
    stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, 0);
    S->deadline = now() + lim; S->nworkers = nw; Item it0; it0.bound = 0; it0.expect = 0; qpush(it0);
    std::vector<pid_t> ps; for (int i = 0; i < nw; ++i) { pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(); _exit(0); } ps.push_back(p); }
    int bad = 0; for (size_t i = 0; i < ps.size(); ++i) { int st; pid_t p = waitpid(-1, &st, 0); if (p > 0 && (!WIFEXITED(st) || WEXITSTATUS(st))) { bad = 1; fprintf(stderr, "symx: worker died (status %x)\n", st); S->incomplete |= 8; S->stop |= 4; for (pid_t q : ps) if (q != p) { } } }
    if (S->stop & 4) S->incomplete |= 8;
    u64 left = 0; { Item it; while (qpop(it)) ++left; } S->st.dropped += left; if (left) S->incomplete |= 1;
    report(getenv("SX_OUT"), t0); return bad ? 5 : 0;
}
