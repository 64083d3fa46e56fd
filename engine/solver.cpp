#include <iostream>
// SMT back end: constraint slicing, query cache, model reuse, z3 (QF_BV) behind.
#include "expr.h"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <memory>
#include <unordered_map>
#include <unistd.h>

SolverStats g_ss;
namespace {
size_t LITMAX = 120;
struct KeyHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = v.size(); for (uint32_t x : v) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; } return h; } };
struct Cached { bool sat; std::vector<std::pair<uint16_t, uint64_t>> m; };
std::unordered_map<std::vector<uint32_t>, Cached, KeyHash> cache;

struct Z {
    z3::context ctx;
    z3::solver s;
    void fresh() { lit.clear(); s = z3::solver(ctx, "QF_BV"); z3::params p(ctx); p.set("rlimit", 0u); s.set(p); }
    std::unordered_map<E, Z3_ast> memo;
    std::unordered_map<E, Z3_ast> lit;
    std::unordered_map<uint64_t, Z3_ast> var;
    std::vector<z3::expr> keep;
    Z() : s(ctx, "QF_BV") { z3::params p(ctx); p.set("rlimit", 0u); s.set(p); }
    Z3_ast hold(z3::expr e) { keep.push_back(e); return e; }
    z3::expr ex(Z3_ast a) { return z3::expr(ctx, a); }
    z3::expr bv(E e) { z3::expr x = tr(e); return e->w == 1 ? z3::ite(x, ctx.bv_val(1, 1), ctx.bv_val(0, 1)) : x; }
    z3::expr tr(E e) {
        auto it = memo.find(e);
        if (it != memo.end()) return ex(it->second);
        z3::expr r = build(e);
        memo[e] = hold(r);
        return r;
    }
    z3::expr build(E e) {
        int w = e->w;
        auto K = [&](int i) { return tr(e->k[i]); };
        switch (e->op) {
            case OP_CONST: return w == 1 ? ctx.bool_val(e->c != 0) : ctx.bv_val((uint64_t)e->c, w);
            case OP_VAR: case OP_UNINIT: {
                std::string n = (e->op == OP_VAR ? "v" : "u") + std::to_string(e->c) + "_" + std::to_string(w);
                return w == 1 ? ctx.bool_const(n.c_str()) : ctx.bv_const(n.c_str(), w);
            }
            case OP_LIN: {
                bool have = e->c != 0; z3::expr r = ctx.bv_val((uint64_t)e->c, w);
                for (uint32_t i = 0; i < e->nk; ++i) {
                    uint64_t co = e->coef[i]; z3::expr t = K(i); bool neg = false;
                    if (co != 1) {
                        uint64_t nc = (0 - co) & maskw(w);
                        if (nc < co) { neg = true; co = nc; }
                        if (co != 1) { if (!(co & (co - 1))) t = z3::shl(t, ctx.bv_val(__builtin_ctzll(co), w)); else t = t * ctx.bv_val(co, w); }
                    }
                    if (!have) { r = neg ? -t : t; have = true; } else r = neg ? r - t : r + t;
                }
                return r;
            }
            case OP_AND: return w == 1 ? K(0) && K(1) : K(0) & K(1);
            case OP_OR: return w == 1 ? K(0) || K(1) : K(0) | K(1);
            case OP_XOR: return w == 1 ? K(0) != K(1) : K(0) ^ K(1);
            case OP_SHL: return z3::shl(bv(e->k[0]), bv(e->k[1]));
            case OP_LSHR: return z3::lshr(bv(e->k[0]), bv(e->k[1]));
            case OP_ASHR: return z3::ashr(bv(e->k[0]), bv(e->k[1]));
            case OP_MUL: return K(0) * K(1);
            case OP_UDIV: return z3::udiv(K(0), K(1));
            case OP_SDIV: return K(0) / K(1);
            case OP_UREM: return z3::urem(K(0), K(1));
            case OP_SREM: return z3::srem(K(0), K(1));
            case OP_EQ: return K(0) == K(1);
            case OP_ULT: return z3::ult(bv(e->k[0]), bv(e->k[1]));
            case OP_SLT: return z3::slt(bv(e->k[0]), bv(e->k[1]));
            case OP_NOT: return !K(0);
            case OP_ITE: return z3::ite(K(0), K(1), K(2));
            case OP_EXTRACT: { z3::expr x = bv(e->k[0]).extract((unsigned)e->c + w - 1, (unsigned)e->c); return w == 1 ? x == ctx.bv_val(1, 1) : x; }
            case OP_ZEXT: return z3::zext(bv(e->k[0]), w - e->k[0]->w);
            case OP_SEXT: return z3::sext(bv(e->k[0]), w - e->k[0]->w);
            case OP_CONCAT: return z3::concat(bv(e->k[0]), bv(e->k[1]));
        }
        abort();
    }
    z3::expr literal(E e) {
        auto it = lit.find(e);
        if (it != lit.end()) return ex(it->second);
        z3::expr l = ctx.bool_const(("p" + std::to_string(e->id)).c_str());
        s.add(z3::implies(l, tr(e)));
        lit[e] = hold(l);
        return l;
    }
};
// The same queries over the integers: every term stands for its unsigned value; a sum that may leave its range gets an
// explicit quotient variable.  Linear comparisons that stall a bit-blaster are quick here.
typedef __int128 I128;
struct ZI {
    z3::context ctx; z3::solver s; bool ok = true; int fresh_ = 0;
    struct T { Z3_ast a; I128 lo, hi; };
    std::unordered_map<E, T> memo; std::unordered_map<E, Z3_ast> bmemo, lit; std::vector<z3::expr> keep;
    ZI() : s(ctx, "QF_LIA") { z3::params p(ctx); p.set("timeout", 4000u); s.set(p); }
    struct No { int line; };
    Z3_ast hold(z3::expr e) { keep.push_back(e); return e; }
    z3::expr num(I128 v) { bool n = v < 0; unsigned __int128 u = n ? (unsigned __int128)-v : (unsigned __int128)v; std::string d; do { d += char('0' + (int)(u % 10)); u /= 10; } while (u); if (n) d += '-'; return ctx.int_val(std::string(d.rbegin(), d.rend()).c_str()); }
    z3::expr X(Z3_ast a) { return z3::expr(ctx, a); }
    static I128 full(int w) { return ((I128)1) << w; }
    T mk(z3::expr e, I128 lo, I128 hi) { return T{hold(e), lo, hi}; }
    T wrap(z3::expr raw, I128 lo, I128 hi, int w) {
        if (lo >= 0 && hi < full(w)) return mk(raw, lo, hi);
        auto fl = [&](I128 x) { I128 m = full(w); return x >= 0 ? x / m : -((-x + m - 1) / m); };
        I128 a = fl(lo), b = fl(hi);
        if (a == b) return mk(raw - num(a * full(w)), lo - a * full(w), hi - a * full(w));
        z3::expr k = ctx.int_const(("k" + std::to_string(fresh_++)).c_str()); z3::expr v = raw - k * num(full(w));
        s.add(k >= num(a)); s.add(k <= num(b)); s.add(v >= 0); s.add(v < num(full(w)));
        return mk(v, 0, full(w) - 1);
    }
    T shr(T t, int c) {   // floor division by 2^c
        if (c == 0) return t;
        I128 m = (I128)1 << c; auto fl = [&](I128 x) { return x >= 0 ? x / m : -((-x + m - 1) / m); };
        I128 a = fl(t.lo), b = fl(t.hi); if (a == b) return mk(num(a), a, a);
        z3::expr q = ctx.int_const(("k" + std::to_string(fresh_++)).c_str()); z3::expr r = X(t.a) - q * num(m);
        s.add(q >= num(a)); s.add(q <= num(b)); s.add(r >= 0); s.add(r < num(m));
        return mk(q, a, b);
    }
    // bits a term may have set
    uint64_t ones(E e) {
        uint64_t all = e->w == 64 ? ~0ull : (1ull << e->w) - 1;
        switch (e->op) {
            case OP_CONST: return e->c & all;
            case OP_ZEXT: return ones(e->k[0]);
            case OP_SHL: if (e->k[1]->op == OP_CONST && e->k[1]->c < 64) return (ones(e->k[0]) << e->k[1]->c) & all; return all;
            case OP_LSHR: if (e->k[1]->op == OP_CONST && e->k[1]->c < 64) return ones(e->k[0]) >> e->k[1]->c; return all;
            case OP_AND: return ones(e->k[0]) & ones(e->k[1]);
            case OP_OR: case OP_XOR: return ones(e->k[0]) | ones(e->k[1]);
            case OP_ITE: return ones(e->k[1]) | ones(e->k[2]);
            case OP_LIN: if (e->nk == 1 && e->c == 0 && e->coef[0] && (e->coef[0] & (e->coef[0] - 1)) == 0) { I128 h = term(e->k[0]).hi * (I128)e->coef[0]; if (h < full(e->w)) return ones(e->k[0]) * e->coef[0]; } [[fallthrough]];
            default: { I128 h = term(e).hi; uint64_t m = (uint64_t)h; for (int s = 1; s < 64; s <<= 1) m |= m >> s; return m & all; }
        }
    }
    T signedOf(E e) { T t = term(e); I128 h = full(e->w - 1); if (t.hi < h) return t; if (t.lo >= h) return mk(X(t.a) - num(full(e->w)), t.lo - full(e->w), t.hi - full(e->w)); z3::expr x = X(t.a); return mk(z3::ite(x >= num(h), x - num(full(e->w)), x), -h, std::min(t.hi, h - 1)); }
    T term(E e) {
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        T r = build(e); memo[e] = r; return r;
    }
    T build(E e) {
        int w = e->w;
        if (w == 1 && e->op != OP_CONST) { z3::expr b = boo(e); return mk(z3::ite(b, ctx.int_val(1), ctx.int_val(0)), 0, 1); }
        switch (e->op) {
            case OP_CONST: return mk(num((I128)e->c), (I128)e->c, (I128)e->c);
            case OP_VAR: { z3::expr v = ctx.int_const(("v" + std::to_string(e->c) + "_" + std::to_string(w)).c_str()); s.add(v >= 0); s.add(v < num(full(w))); return mk(v, 0, full(w) - 1); }
            case OP_LIN: {
                int64_t c0 = sextw(e->c, w); I128 lo = c0, hi = c0; z3::expr raw = num(c0); I128 lim = ((I128)1) << 100;
                for (uint32_t i = 0; i < e->nk; ++i) {
                    T t = term(e->k[i]); int64_t co = sextw(e->coef[i], w);
                    z3::expr x = co == 1 ? X(t.a) : num(co) * X(t.a); raw = raw + x;
                    if (t.hi > (lim / ((I128)1 << 64)) && (co > (1 << 30) || co < -(1 << 30))) throw No{__LINE__};
                    lo += co >= 0 ? co * t.lo : co * t.hi; hi += co >= 0 ? co * t.hi : co * t.lo;
                }
                // a negative constant may as well be a large positive one; the quotient covers both
                return wrap(raw, lo, hi, w);
            }
            case OP_ITE: { z3::expr b = boo(e->k[0]); T x = term(e->k[1]), y = term(e->k[2]); return mk(z3::ite(b, X(x.a), X(y.a)), std::min(x.lo, y.lo), std::max(x.hi, y.hi)); }
            case OP_ZEXT: return term(e->k[0]);
            case OP_SEXT: { T t = signedOf(e->k[0]); if (t.lo >= 0) return t; if (t.hi < 0) return mk(X(t.a) + num(full(w)), t.lo + full(w), t.hi + full(w)); z3::expr x = X(t.a); return mk(z3::ite(x < 0, x + num(full(w)), x), 0, full(w) - 1); }
            case OP_EXTRACT: { T t = shr(term(e->k[0]), (int)e->c); return wrap(X(t.a), t.lo, t.hi, w); }
            case OP_LSHR: if (e->k[1]->op != OP_CONST) throw No{__LINE__}; if (e->k[1]->c >= (uint64_t)w) return mk(num(0), 0, 0); return shr(term(e->k[0]), (int)e->k[1]->c);
            case OP_ASHR: { if (e->k[1]->op != OP_CONST || e->k[1]->c >= (uint64_t)w) throw No{__LINE__}; T t = shr(signedOf(e->k[0]), (int)e->k[1]->c); return wrap(X(t.a), t.lo, t.hi, w); }
            case OP_SHL: { if (e->k[1]->op != OP_CONST || e->k[1]->c > 30) throw No{__LINE__}; T t = term(e->k[0]); I128 f = (I128)1 << (int)e->k[1]->c; return wrap(X(t.a) * num(f), t.lo * f, t.hi * f, w); }
            case OP_OR: case OP_XOR: {
                if (ones(e->k[0]) & ones(e->k[1])) throw No{__LINE__};
                T a = term(e->k[0]), b = term(e->k[1]); return mk(X(a.a) + X(b.a), a.lo + b.lo, std::min(a.hi + b.hi, full(w) - 1));
            }
            case OP_AND: {
                int i = e->k[0]->op == OP_CONST ? 0 : e->k[1]->op == OP_CONST ? 1 : -1; if (i < 0) throw No{__LINE__};
                uint64_t c = e->k[i]->c, all = w == 64 ? ~0ull : (1ull << w) - 1; T t = term(e->k[!i]); uint64_t o = ones(e->k[!i]); c &= o; if (!c) return mk(num(0), 0, 0); if ((o & ~c & all) == 0) return t;
                auto field = [&](uint64_t m, T& r) { int k = __builtin_ctzll(m); uint64_t n = m >> k; if (n & (n + 1)) return false; T f = shr(t, k); f = wrap(X(f.a), f.lo, f.hi, __builtin_popcountll(n)); I128 g = (I128)1 << k; r = mk(X(f.a) * num(g), f.lo * g, f.hi * g); return true; };
                T r; if (field(c, r)) return r;
                uint64_t inv = o & ~c & all; if (field(inv, r)) return mk(X(t.a) - X(r.a), 0, t.hi);
                throw No{__LINE__};
            }
            case OP_CONCAT: { T h = term(e->k[0]), l = term(e->k[1]); I128 f = full(e->k[1]->w); return mk(X(h.a) * num(f) + X(l.a), h.lo * f + l.lo, h.hi * f + l.hi); }
            default: throw No{__LINE__};
        }
    }
    z3::expr boo(E e) {
        auto it = bmemo.find(e); if (it != bmemo.end()) return X(it->second);
        z3::expr r = buildB(e); bmemo[e] = hold(r); return r;
    }
    z3::expr buildB(E e) {
        switch (e->op) {
            case OP_CONST: return ctx.bool_val(e->c != 0);
            case OP_VAR: return ctx.bool_const(("v" + std::to_string(e->c) + "_1").c_str());
            case OP_NOT: return !boo(e->k[0]);
            case OP_AND: return boo(e->k[0]) && boo(e->k[1]);
            case OP_OR: return boo(e->k[0]) || boo(e->k[1]);
            case OP_XOR: return boo(e->k[0]) != boo(e->k[1]);
            case OP_ITE: return z3::ite(boo(e->k[0]), boo(e->k[1]), boo(e->k[2]));
            case OP_EQ: if (e->k[0]->w == 1) return boo(e->k[0]) == boo(e->k[1]); { T a = term(e->k[0]), b = term(e->k[1]); return X(a.a) == X(b.a); }
            case OP_ULT: { T a = term(e->k[0]), b = term(e->k[1]); return X(a.a) < X(b.a); }
            case OP_SLT: { T a = signedOf(e->k[0]), b = signedOf(e->k[1]); return X(a.a) < X(b.a); }
            default: if (getenv("SYMEX_SLOW")) fprintf(stderr, "No op %d w %d\n", (int)e->op, (int)e->w); throw No{__LINE__};
        }
    }
    z3::expr literal(E e) {
        auto it = lit.find(e); if (it != lit.end()) return X(it->second);
        z3::expr b = boo(e); z3::expr l = ctx.bool_const(("p" + std::to_string(e->id)).c_str());
        s.add(z3::implies(l, b)); lit[e] = hold(l); return l;
    }
};
ZI* zi = nullptr;
std::unordered_map<E, int> linMemo;
// 0: no sums compared, 1: has sums
int hasSum(E e) {
    auto it = linMemo.find(e); if (it != linMemo.end()) return it->second;
    int r = e->op == OP_LIN && (e->nk > 1 || (e->nk == 1 && e->w > 8)); for (uint32_t i = 0; i < e->nk && !r; ++i) r = hasSum(e->k[i]);
    return linMemo[e] = r;
}
Z* zs = nullptr;
int dumpLeft = 0; std::string dumpPath;
// truth tables of constraints over a single variable of at most 8 bits
struct Table { uint64_t w[4]; };
std::unordered_map<E, Table> tables;
const Table& tableOf(E e, int var) {
    auto it = tables.find(e); if (it != tables.end()) return it->second;
    Table t{}; Model m(var + 1, 0);
    for (int x = 0; x < 256; ++x) { m[var] = x; if (evalFresh(e, m)) t.w[x >> 6] |= 1ull << (x & 63); }
    return tables[e] = t;
}
uint64_t smallCount = 0;
std::vector<Model> recent; size_t recentPos = 0;
}
void solverDumpTo(const char* p, int n) { dumpPath = p; dumpLeft = n; }
void solverReset() { delete zs; zs = nullptr; delete zi; zi = nullptr; }

bool solverCheck(const std::vector<E>& pc, E extra, const Model& base, Model& out) {
    g_ss.queries++;
    if (extra->op == OP_CONST) { out = base; if (extra->c) g_ss.sat++; else g_ss.unsat++; return extra->c != 0; }
    // slice: constraints transitively sharing variables with extra
    VarSet vs = extra->vs;
    std::vector<E> sl; std::vector<char> in(pc.size(), 0);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) if (!in[i] && pc[i]->vs.meets(vs)) { in[i] = 1; sl.push_back(pc[i]); if (!pc[i]->vs.within(vs)) { vs.add(pc[i]->vs); ch = true; } }
    }
    std::sort(sl.begin(), sl.end(), [](E a, E b) { return a->id < b->id; });
    sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
    // exact decision for slices over one small variable; every 64th answer is cross-checked with z3 below
    bool small = false, smallSat = false; int sv = -1, nv = 0;
    for (int i = 0; i < MAXVARS / 64; ++i) { nv += __builtin_popcountll(vs.w[i]); if (vs.w[i] && sv < 0) sv = i * 64 + __builtin_ctzll(vs.w[i]); }
    if (nv == 1 && varWidth(sv) <= 8 && !extra->taint) {
        Table t = tableOf(extra, sv); int dom = 1 << varWidth(sv);
        for (E e : sl) { const Table& u = tableOf(e, sv); for (int i = 0; i < 4; ++i) t.w[i] &= u.w[i]; }
        int x = -1; for (int i = 0; i < 4 && x < 0; ++i) if (t.w[i]) x = i * 64 + __builtin_ctzll(t.w[i]);
        small = true; smallSat = x >= 0 && x < dom; g_ss.tableHits++;
        if (++smallCount % 64) {
            if (smallSat) { out = base; if (out.size() <= (size_t)sv) out.resize(sv + 1, 0); out[sv] = x; g_ss.sat++; } else g_ss.unsat++;
            return smallSat;
        }
        g_ss.crossChecked++;
    }
    // exact case split over one small variable: decided when substituting each of its possible values leaves nothing open
    bool split = false, splitSat = false; int splitX = 0;
    // exact decision for slices over two or three small variables whose value combinations are few
    if ((nv == 2 || nv == 3) && !extra->taint) {
        std::vector<int> vv; std::vector<std::vector<int>> dom; size_t prod = 1; bool all = true;
        for (int i = 0; i < MAXVARS / 64 && all; ++i) for (uint64_t w = vs.w[i]; w; w &= w - 1) { int v = i * 64 + __builtin_ctzll(w); if (varWidth(v) > 8) { all = false; break; } vv.push_back(v); }
        if (all) for (int v : vv) {
            VarSet one; one.clear(); one.set(v); Table t; for (auto& x : t.w) x = ~0ull;
            for (E e : sl) if (e->vs.within(one)) { const Table& u = tableOf(e, v); for (int q = 0; q < 4; ++q) t.w[q] &= u.w[q]; }
            std::vector<int> d; for (int x = 0; x < (1 << varWidth(v)); ++x) if (t.w[x >> 6] >> (x & 63) & 1) d.push_back(x);
            prod *= d.size(); dom.push_back(d);
        }
        if (all && prod <= 1024) {
            std::vector<E> rest; for (E e : sl) { int n = 0; for (auto w : e->vs.w) n += __builtin_popcountll(w); if (n > 1) rest.push_back(e); }
            Model m(MAXVARS, 0); std::vector<size_t> ix(vv.size(), 0); bool found = false;
            for (size_t k = 0; k < prod && !found; ++k) {
                size_t q = k; for (size_t j = 0; j < vv.size(); ++j) { m[vv[j]] = dom[j][q % dom[j].size()]; q /= dom[j].size(); }
                newGen(); if (!evalE(extra, m)) continue;
                bool ok = true; for (E e : rest) if (!evalE(e, m)) { ok = false; break; }
                found = ok;
            }
            if (found) { out = base; for (int v : vv) { if (out.size() <= (size_t)v) out.resize(v + 1, 0); out[v] = m[v]; } }
            g_ss.tableHits++;
            if (++smallCount % 64) { if (found) g_ss.sat++; else g_ss.unsat++; return found; }
            g_ss.crossChecked++; small = true; smallSat = found;
        }
    }
    if (nv > 1 && !extra->taint && !small) {
        int bv = -1, bd = 1000; Table bt{};
        for (int i = 0; i < MAXVARS / 64; ++i) for (uint64_t w = extra->vs.w[i]; w; w &= w - 1) {
            int v = i * 64 + __builtin_ctzll(w); if (varWidth(v) > 8) continue;
            VarSet one; one.clear(); one.set(v); Table t; for (auto& x : t.w) x = ~0ull; int dom = 1 << varWidth(v); if (dom < 64) { t.w[0] = (1ull << dom) - 1; t.w[1] = t.w[2] = t.w[3] = 0; } else if (dom < 256) for (int q = dom / 64; q < 4; ++q) t.w[q] = 0;
            for (E e : sl) if (e->vs.within(one)) { const Table& u = tableOf(e, v); for (int q = 0; q < 4; ++q) t.w[q] &= u.w[q]; }
            int n = 0; for (auto x : t.w) n += __builtin_popcountll(x);
            if (n < bd) { bd = n; bv = v; bt = t; }
        }
        if (bv >= 0 && bd <= 64) {
            VarSet one; one.clear(); one.set(bv); Model m(bv + 1, 0); bool open = false;
            for (int x = 0; x < 256 && !open && !splitSat; ++x) if (bt.w[x >> 6] >> (x & 63) & 1) {
                m[bv] = x; std::unordered_map<E, E> memo;
                E r = substVars(extra, one, m, memo);
                if (r->op == OP_CONST && !r->c) continue;
                if (r->op != OP_CONST) { open = true; break; }
                Model b = base; if (b.size() <= (size_t)bv) b.resize(bv + 1, 0); b[bv] = x; newGen(); bool ok = true;
                for (E e : sl) if (!evalE(e, b)) { ok = false; break; }
                if (ok) { splitSat = true; splitX = x; out = b; } else open = true;
            }
            split = splitSat || !open; (void)splitX;
            if (split) {
                g_ss.splitHits++;
                if (++smallCount % 64) { if (splitSat) g_ss.sat++; else g_ss.unsat++; return splitSat; }
                g_ss.crossChecked++; small = true; smallSat = splitSat;
            }
        }
    }
    std::vector<uint32_t> key; for (E e : sl) key.push_back(e->id); key.push_back(0); key.push_back(extra->id);
    auto it = cache.find(key);
    if (it != cache.end() && !small) {
        g_ss.cacheHits++;
        if (it->second.sat) { out = base; for (auto& p : it->second.m) { if (out.size() <= p.first) out.resize(p.first + 1, 0); out[p.first] = p.second; } g_ss.sat++; }
        else g_ss.unsat++;
        return it->second.sat;
    }
    auto remember = [&](bool sat) {
        Cached c; c.sat = sat;
        if (sat) for (int v = 0; v < MAXVARS; ++v) if (vs.has(v)) c.m.emplace_back((uint16_t)v, (size_t)v < out.size() ? out[v] : 0);
        cache.emplace(std::move(key), std::move(c));
    };
    for (size_t r = 0; r < recent.size() && !small; ++r) {
        newGen(); const Model& m = recent[r];
        if (!evalE(extra, m)) continue;
        bool ok = true; for (E e : sl) if (!evalE(e, m)) { ok = false; break; }
        if (ok) {
            out = base; for (int v = 0; v < MAXVARS; ++v) if (vs.has(v)) { if (out.size() <= (size_t)v) out.resize(v + 1, 0); out[v] = (size_t)v < m.size() ? m[v] : 0; }
            g_ss.modelHits++; g_ss.sat++; remember(true); return true;
        }
    }
    g_ss.z3calls++;
    auto t0 = std::chrono::steady_clock::now();
    if (zs && zs->keep.size() > 20000) solverReset();
    if (zs && zs->lit.size() > LITMAX) zs->fresh();
    if (!zs) zs = new Z();
    if (dumpLeft > 0) {
        --dumpLeft;
        z3::solver d(zs->ctx, "QF_BV"); for (E e : sl) d.add(zs->tr(e)); d.add(zs->tr(extra));
        std::ofstream f(dumpPath + "/q" + std::to_string(getpid()) + "_" + std::to_string(g_ss.z3calls) + ".smt2");
        z3::check_result dr = d.check();
        f << "(set-logic QF_BV)\n; expect " << (dr == z3::sat ? "sat" : "unsat") << "\n" << d.to_smt2();
    }
    z3::check_result r = z3::unknown; bool viaInt = false;
    bool sums = hasSum(extra); for (E e : sl) sums = sums || hasSum(e);
    if (sums && !extra->taint && !small) {
        if (zi && (zi->keep.size() > 20000 || zi->lit.size() > 400)) { delete zi; zi = nullptr; }
        if (!zi) zi = new ZI();
        try {
            z3::expr_vector is(zi->ctx); for (E e : sl) is.push_back(zi->literal(e)); is.push_back(zi->literal(extra));
            r = zi->s.check(is); viaInt = r != z3::unknown;
        } catch (ZI::No& no) { r = z3::unknown; if (getenv("SYMEX_SLOW")) fprintf(stderr, "not linear: line %d\n", no.line); }
        catch (z3::exception& ex) { if (getenv("SYMEX_SLOW")) fprintf(stderr, "z3 %s\n", ex.msg()); r = z3::unknown; delete zi; zi = nullptr; }
        if (viaInt) {
            g_ss.lia++;
            static uint64_t n = 0;
            static uint64_t every = getenv("SYMEX_XCHECK") ? 1 : 64;
            if (++n % every == 0) {   // the bit-vector encoding must agree, where it answers within two seconds
                z3::solver d(zs->ctx, "QF_BV"); z3::params p(zs->ctx); p.set("timeout", 2000u); d.set(p); for (E e : sl) d.add(zs->tr(e)); d.add(zs->tr(extra));
                z3::check_result q = d.check(); if (q != z3::unknown) { g_ss.crossChecked++; if (q != r) throw SolverUnknown{"integer and bit-vector encodings disagree"}; }
            }
        }
    }
    if (!viaInt) {
    z3::expr_vector as(zs->ctx);
    for (E e : sl) as.push_back(zs->literal(e));
    as.push_back(zs->literal(extra));
    try { r = zs->s.check(as); }
    catch (z3::exception& ex) { throw SolverUnknown{ex.msg()}; }
    }
    if (r == z3::unknown) {   // once more, without the incremental state
        solverReset(); zs = new Z();
        z3::expr_vector bs(zs->ctx);
        for (E e : sl) bs.push_back(zs->literal(e));
        bs.push_back(zs->literal(extra));
        r = zs->s.check(bs);
        if (r == z3::unknown) throw SolverUnknown{zs->s.reason_unknown()};
    }
    if (r == z3::sat) {
        z3::model zm = viaInt ? zi->s.get_model() : zs->s.get_model();
        out = base;
        std::vector<std::pair<int, uint64_t>> got;
        for (unsigned i = 0; i < zm.num_consts(); ++i) {
            z3::func_decl d = zm.get_const_decl(i);
            std::string n = d.name().str();
            if (n.empty() || n[0] != 'v') continue;
            int idx = atoi(n.c_str() + 1); if (!vs.has(idx)) continue;
            int w = atoi(n.c_str() + n.find('_') + 1);
            z3::expr val = zm.get_const_interp(d);
            uint64_t x = 0;
            if (w == 1) x = val.is_true(); else x = val.get_numeral_uint64();
            got.emplace_back(idx, x);
        }
        // variables the model leaves open keep any value; use 0, then check
        for (int v = 0; v < MAXVARS; ++v) if (vs.has(v)) { if (out.size() <= (size_t)v) out.resize(v + 1, 0); out[v] = 0; }
        for (auto& g : got) out[g.first] = g.second;
        newGen();
        bool ok = extra->taint || evalE(extra, out); for (E e : sl) ok = ok && evalE(e, out);
        if (!ok) throw SolverUnknown{"model does not satisfy the query (encoding error)"};
        if (recent.size() < 24) recent.push_back(out); else { recent[recentPos++ % 24] = out; }
    }
    if (getenv("SYMEX_SLOW")) { double q = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (q > 0.1) fprintf(stderr, "slow %.2f int=%d sums=%d nv=%d slice=%zu %s\n", q, viaInt, sums, nv, sl.size(), r == z3::sat ? "sat" : "unsat"); }
    g_ss.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    bool sat = r == z3::sat;
    if (small && sat != smallSat) throw SolverUnknown{"truth table and z3 disagree"};
    if (sat) g_ss.sat++; else g_ss.unsat++;
    if (!extra->taint) remember(sat);
    return sat;
}
