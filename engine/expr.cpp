#include "expr.h"
#include <algorithm>
#include <unordered_map>
#include <cstdlib>
#include <cstdio>

uint64_t g_exprCount = 0;
static uint64_t g_gen = 1;

namespace {
// bump allocator
char* ap = nullptr; size_t aleft = 0;
void* alloc(size_t n) {
    n = (n + 7) & ~size_t(7);
    if (n > aleft) { aleft = 1 << 20; if (n > aleft) aleft = n; ap = (char*)malloc(aleft); if (!ap) abort(); }
    void* r = ap; ap += n; aleft -= n; return r;
}
struct Table {
    std::vector<Expr*> b; std::vector<uint64_t> h; size_t n = 0;
    Table() : b(1 << 16, nullptr), h(1 << 16, 0) {}
    void grow() {
        std::vector<Expr*> nb(b.size() * 2, nullptr); std::vector<uint64_t> nh(b.size() * 2, 0);
        size_t m = nb.size() - 1;
        for (size_t i = 0; i < b.size(); ++i) if (b[i]) { size_t j = h[i] & m; while (nb[j]) j = (j + 1) & m; nb[j] = b[i]; nh[j] = h[i]; }
        b.swap(nb); h.swap(nh);
    }
} T;
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }

E make(Op op, int w, uint64_t c, const E* k, uint32_t nk, const uint64_t* coef) {
    uint64_t h = mix(op * 131 + w, c);
    for (uint32_t i = 0; i < nk; ++i) { h = mix(h, k[i]->id); if (coef) h = mix(h, coef[i]); }
    size_t m = T.b.size() - 1, j = h & m;
    while (T.b[j]) {
        Expr* e = T.b[j];
        if (T.h[j] == h && e->op == op && e->w == w && e->c == c && e->nk == nk && !memcmp(e->k, k, nk * sizeof(E)) && (!coef || !memcmp(e->coef, coef, nk * 8))) return e;
        j = (j + 1) & m;
    }
    Expr* e = (Expr*)alloc(sizeof(Expr));
    e->op = op; e->w = w; e->c = c; e->nk = nk; e->id = (uint32_t)++g_exprCount; e->gen = 0; e->val = 0;
    e->k = nullptr; e->coef = nullptr; e->taint = op == OP_UNINIT; e->cleaves = 0; e->vs.clear();
    if (nk) { e->k = (E*)alloc(nk * sizeof(E)); memcpy((void*)e->k, k, nk * sizeof(E)); }
    if (coef) { e->coef = (uint64_t*)alloc(nk * 8); memcpy(e->coef, coef, nk * 8); }
    for (uint32_t i = 0; i < nk; ++i) { e->taint |= k[i]->taint; e->vs.add(k[i]->vs); }
    if (op == OP_VAR) { if (c >= MAXVARS) { fprintf(stderr, "ENGINE-ERROR: too many symbolic variables\n"); fflush(stdout); _Exit(2); } e->vs.set((int)c); }
    e->ite = op == OP_ITE; for (uint32_t i = 0; i < nk; ++i) e->ite |= k[i]->ite;
    if (op == OP_CONST) e->cleaves = 1;
    if (op == OP_ITE && k[1]->cleaves && k[2]->cleaves && k[1]->cleaves + k[2]->cleaves < 40) e->cleaves = k[1]->cleaves + k[2]->cleaves;
    T.b[j] = e; T.h[j] = h; if (++T.n * 2 > T.b.size()) T.grow();
    return e;
}
inline E make1(Op op, int w, uint64_t c, E a) { return make(op, w, c, &a, 1, nullptr); }
inline E make2(Op op, int w, E a, E b) { E k[2] = {a, b}; return make(op, w, 0, k, 2, nullptr); }
inline bool isC(E e) { return e->op == OP_CONST; }
inline bool cite(E e) { return e->op == OP_ITE && e->cleaves; }

// a linear combination being assembled
struct LinB {
    std::vector<std::pair<E, uint64_t>> t; uint64_t c = 0; int w;
    void add(E e, uint64_t k) {
        if (isC(e)) c += e->c * k;
        else if (e->op == OP_LIN) { c += e->c * k; for (uint32_t i = 0; i < e->nk; ++i) t.emplace_back(e->k[i], e->coef[i] * k); }
        else t.emplace_back(e, k);
    }
    E done() {
        uint64_t m = maskw(w); c &= m;
        std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
        std::vector<E> k; std::vector<uint64_t> co;
        for (size_t i = 0; i < t.size();) {
            uint64_t s = 0; size_t j = i; for (; j < t.size() && t[j].first == t[i].first; ++j) s += t[j].second;
            s &= m; if (s) { k.push_back(t[i].first); co.push_back(s); }
            i = j;
        }
        if (k.empty()) return mkConst(w, c);
        if (k.size() == 1 && co[0] == 1 && c == 0) return k[0];
        if (k.size() == 1 && cite(k[0])) {  // keep trees of constants as such
            struct R { static E go(E e, uint64_t a, uint64_t b, int w) { return isC(e) ? mkConst(w, e->c * a + b) : mkIte(e->k[0], go(e->k[1], a, b, w), go(e->k[2], a, b, w)); } };
            return R::go(k[0], co[0], c, w);
        }
        return make(OP_LIN, w, c, k.data(), (uint32_t)k.size(), co.data());
    }
};
template<class F> E mapLeaves(E e, F f) { return isC(e) ? f(e) : mkIte(e->k[0], mapLeaves(e->k[1], f), mapLeaves(e->k[2], f)); }
}

Val toVal(E e) { if (e->op == OP_CONST) return Val{nullptr, e->c}; return Val{e, 0}; }
E mkConst(int w, uint64_t v) { return make(OP_CONST, w, v & maskw(w), nullptr, 0, nullptr); }
E mkVar(int idx, int w) { return make(OP_VAR, w, idx, nullptr, 0, nullptr); }
E mkUninit(int w) { static uint64_t n = 0; return make(OP_UNINIT, w, ++n, nullptr, 0, nullptr); }

uint64_t evalOp(Op op, int w, uint64_t a, uint64_t b) {
    uint64_t m = maskw(w);
    switch (op) {
        case OP_AND: return a & b; case OP_OR: return a | b; case OP_XOR: return a ^ b;
        case OP_SHL: return b >= (uint64_t)w ? 0 : (a << b) & m;
        case OP_LSHR: return b >= (uint64_t)w ? 0 : a >> b;
        case OP_ASHR: return (uint64_t)(sextw(a, w) >> (b >= (uint64_t)w ? w - 1 : b)) & m;
        case OP_MUL: return (a * b) & m;
        case OP_UDIV: return b ? a / b : m;
        case OP_UREM: return b ? a % b : a;
        case OP_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
        case OP_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case OP_EQ: return a == b; case OP_ULT: return a < b; case OP_SLT: return sextw(a, w) < sextw(b, w);
        default: abort();
    }
}

E mkAdd(E a, E b) { if (a->w == 1) return mkBin(OP_XOR, a, b); LinB l; l.w = a->w; l.add(a, 1); l.add(b, 1); return l.done(); }
E mkSub(E a, E b) { if (a->w == 1) return mkBin(OP_XOR, a, b); LinB l; l.w = a->w; l.add(a, 1); l.add(b, ~0ull); return l.done(); }
E mkMulC(E a, uint64_t c) { if (a->w == 1) return c & 1 ? a : mkConst(1, 0); LinB l; l.w = a->w; l.add(a, c); return l.done(); }
E mkMul(E a, E b) {
    if (a->w == 1) return mkBin(OP_AND, a, b);
    if (isC(a)) return mkMulC(b, a->c);
    if (isC(b)) return mkMulC(a, b->c);
    if (a->id > b->id) std::swap(a, b);
    return make2(OP_MUL, a->w, a, b);
}
E mkNot(E a) {
    if (isC(a)) return mkConst(1, !a->c);
    if (a->op == OP_NOT) return a->k[0];
    if (cite(a)) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
    return make1(OP_NOT, 1, 0, a);
}
E mkBin(Op op, E a, E b) {
    int w = a->w;
    if (isC(a) && isC(b)) return mkConst(w, evalOp(op, w, a->c, b->c));
    if (cite(a) && isC(b)) return mapLeaves(a, [&](E x) { return mkBin(op, x, b); });
    if (cite(b) && isC(a)) return mapLeaves(b, [&](E x) { return mkBin(op, a, x); });
    uint64_t m = maskw(w);
    switch (op) {
        case OP_AND:
            if (isC(a)) std::swap(a, b);
            if (isC(b)) {
                if (b->c == 0) return b;
                if (b->c == m) return a;
                if (((b->c + 1) & b->c) == 0) { int n = __builtin_popcountll(b->c); return mkZExt(mkExtract(a, 0, n), w); }
            }
            if (a == b) return a;
            if (w == 1 && mkNot(a) == b) return mkConst(1, 0);
            break;
        case OP_OR:
            if (isC(a)) std::swap(a, b);
            if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
            if (a == b) return a;
            if (w == 1 && mkNot(a) == b) return mkConst(1, 1);
            break;
        case OP_XOR:
            if (isC(a)) std::swap(a, b);
            if (isC(b)) { if (b->c == 0) return a; if (w == 1) return mkNot(a); }
            if (a == b) return mkConst(w, 0);
            break;
        case OP_SHL:
            if (isC(b)) { if (b->c >= (uint64_t)w) return mkConst(w, 0); return mkMulC(a, 1ull << b->c); }
            if (isC(a) && a->c == 0) return a;
            break;
        case OP_LSHR:
            if (isC(b)) { if (b->c == 0) return a; if (b->c >= (uint64_t)w) return mkConst(w, 0); return mkZExt(mkExtract(a, (int)b->c, w - (int)b->c), w); }
            if (isC(a) && a->c == 0) return a;
            break;
        case OP_ASHR:
            if (isC(b)) { if (b->c == 0) return a; int s = b->c >= (uint64_t)w ? w - 1 : (int)b->c; return mkSExt(mkExtract(a, s, w - s), w); }
            break;
        case OP_MUL: return mkMul(a, b);
        case OP_UDIV:
            if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(OP_LSHR, a, mkConst(w, __builtin_ctzll(b->c)));
            break;
        case OP_UREM:
            if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(OP_AND, a, mkConst(w, b->c - 1));
            break;
        default: break;
    }
    if ((op == OP_AND || op == OP_OR || op == OP_XOR) && a->id > b->id) std::swap(a, b);
    return make2(op, w, a, b);
}
E mkEq(E a, E b) {
    if (a == b) return mkConst(1, 1);
    if (isC(a) && isC(b)) return mkConst(1, a->c == b->c);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (cite(a)) return mapLeaves(a, [&](E x) { return mkConst(1, x->c == b->c); });
        if (a->w == 1) return b->c ? a : mkNot(a);
        if (a->op == OP_ZEXT) { if (b->c >> a->k[0]->w) return mkConst(1, 0); return mkEq(a->k[0], mkConst(a->k[0]->w, b->c)); }
        if (a->op == OP_SEXT) { int n = a->k[0]->w; if (((uint64_t)sextw(b->c, n) & maskw(a->w)) != b->c) return mkConst(1, 0); return mkEq(a->k[0], mkConst(n, b->c)); }
        if (a->op == OP_LIN && a->nk == 1 && a->coef[0] == 1) return mkEq(a->k[0], mkConst(a->w, b->c - a->c));
        if (a->op == OP_CONCAT) { int lw = a->k[1]->w; return mkBin(OP_AND, mkEq(a->k[0], mkConst(a->k[0]->w, b->c >> lw)), mkEq(a->k[1], mkConst(lw, b->c))); }
    } else {
        if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == OP_LIN || b->op == OP_LIN) { E d = mkSub(a, b); if (isC(d)) return mkConst(1, d->c == 0); }
        if (a->w == 1) return mkNot(mkBin(OP_XOR, a, b));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return make2(OP_EQ, 1, a, b);
}
E mkUlt(E a, E b) {
    if (a == b) return mkConst(1, 0);
    if (isC(a) && isC(b)) return mkConst(1, a->c < b->c);
    int w = a->w;
    if (w == 1) return mkBin(OP_AND, mkNot(a), b);
    if (isC(b)) {
        if (b->c == 0) return mkConst(1, 0);
        if (b->c == 1) return mkEq(a, mkConst(w, 0));
        if (b->c == maskw(w)) return mkNot(mkEq(a, b));
        if (cite(a)) return mapLeaves(a, [&](E x) { return mkConst(1, x->c < b->c); });
        if (a->op == OP_ZEXT) { int n = a->k[0]->w; if (b->c > maskw(n)) return mkConst(1, 1); return mkUlt(a->k[0], mkConst(n, b->c)); }
    }
    if (isC(a)) {
        if (a->c == maskw(w)) return mkConst(1, 0);
        if (a->c == 0) return mkNot(mkEq(b, a));
        if (cite(b)) return mapLeaves(b, [&](E x) { return mkConst(1, a->c < x->c); });
        if (b->op == OP_ZEXT) { int n = b->k[0]->w; if (a->c >= maskw(n)) return mkConst(1, 0); return mkUlt(mkConst(n, a->c), b->k[0]); }
    }
    if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkUlt(a->k[0], b->k[0]);
    return make2(OP_ULT, 1, a, b);
}
E mkSlt(E a, E b) {
    if (a == b) return mkConst(1, 0);
    int w = a->w;
    if (isC(a) && isC(b)) return mkConst(1, sextw(a->c, w) < sextw(b->c, w));
    if (w == 1) return mkBin(OP_AND, a, mkNot(b));
    if (isC(b) && cite(a)) return mapLeaves(a, [&](E x) { return mkConst(1, sextw(x->c, w) < sextw(b->c, w)); });
    if (isC(a) && cite(b)) return mapLeaves(b, [&](E x) { return mkConst(1, sextw(a->c, w) < sextw(x->c, w)); });
    // zero-extended values are non-negative
    bool az = a->op == OP_ZEXT || (isC(a) && !(a->c >> (w - 1))), bz = b->op == OP_ZEXT || (isC(b) && !(b->c >> (w - 1)));
    if (az && bz) return mkUlt(a, b);
    if (az && isC(b)) return mkConst(1, 0);
    if (bz && isC(a)) return mkConst(1, 1);
    return make2(OP_SLT, 1, a, b);
}
E mkIte(E c, E a, E b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == OP_NOT) return mkIte(c->k[0], b, a);
    if (a->w == 1) {
        if (isC(a)) return a->c ? mkBin(OP_OR, c, b) : mkBin(OP_AND, mkNot(c), b);
        if (isC(b)) return b->c ? mkBin(OP_OR, mkNot(c), a) : mkBin(OP_AND, c, a);
    }
    if (a->op == OP_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == OP_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    E k[3] = {c, a, b};
    return make(OP_ITE, a->w, 0, k, 3, nullptr);
}
E mkExtract(E a, int lo, int w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(w, a->c >> lo);
    if (cite(a)) return mapLeaves(a, [&](E x) { return mkConst(w, x->c >> lo); });
    switch (a->op) {
        case OP_EXTRACT: return mkExtract(a->k[0], lo + (int)a->c, w);
        case OP_ZEXT: {
            int n = a->k[0]->w;
            if (lo >= n) return mkConst(w, 0);
            if (lo + w <= n) return mkExtract(a->k[0], lo, w);
            return mkZExt(mkExtract(a->k[0], lo, n - lo), w);
        }
        case OP_SEXT: {
            int n = a->k[0]->w;
            if (lo + w <= n) return mkExtract(a->k[0], lo, w);
            if (lo < n) return mkSExt(mkExtract(a->k[0], lo, n - lo), w);
            break;
        }
        case OP_CONCAT: {
            int lw = a->k[1]->w;
            if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
            if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
            return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
        }
        case OP_LIN:
            if (lo == 0 && w > 1) { LinB l; l.w = w; l.c = a->c; for (uint32_t i = 0; i < a->nk; ++i) l.add(mkExtract(a->k[i], 0, w), a->coef[i]); return l.done(); }
            break;
        case OP_AND: case OP_OR: case OP_XOR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        case OP_ITE: return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        default: break;
    }
    return make1(OP_EXTRACT, w, lo, a);
}
E mkZExt(E a, int w) {
    if (w == a->w) return a;
    if (isC(a)) return mkConst(w, a->c);
    if (cite(a)) return mapLeaves(a, [&](E x) { return mkConst(w, x->c); });
    if (a->op == OP_ZEXT) return mkZExt(a->k[0], w);
    if (a->op == OP_ITE) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
    return make1(OP_ZEXT, w, 0, a);
}
E mkSExt(E a, int w) {
    if (w == a->w) return a;
    if (isC(a)) return mkConst(w, (uint64_t)sextw(a->c, a->w));
    if (cite(a)) return mapLeaves(a, [&](E x) { return mkConst(w, (uint64_t)sextw(x->c, x->w)); });
    if (a->op == OP_SEXT) return mkSExt(a->k[0], w);
    if (a->op == OP_ZEXT) return mkZExt(a->k[0], w);
    return make1(OP_SEXT, w, 0, a);
}
E mkConcat(E hi, E lo) {
    int w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst(w, hi->c << lo->w | lo->c);
    if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
    if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], (int)lo->c, w);
    return make2(OP_CONCAT, w, hi, lo);
}

void newGen() { ++g_gen; }
uint64_t evalE(E e, const Model& m) {
    if (e->op == OP_CONST) return e->c;
    if (e->gen == g_gen) return e->val;
    uint64_t r = 0; uint64_t mk = maskw(e->w);
    switch (e->op) {
        case OP_VAR: r = (e->c < m.size() ? m[e->c] : 0) & mk; break;
        case OP_UNINIT: r = 0; break;
        case OP_LIN: r = e->c; for (uint32_t i = 0; i < e->nk; ++i) r += evalE(e->k[i], m) * e->coef[i]; r &= mk; break;
        case OP_NOT: r = !evalE(e->k[0], m); break;
        case OP_ITE: r = evalE(e->k[0], m) ? evalE(e->k[1], m) : evalE(e->k[2], m); break;
        case OP_EXTRACT: r = (evalE(e->k[0], m) >> e->c) & mk; break;
        case OP_ZEXT: r = evalE(e->k[0], m); break;
        case OP_SEXT: r = (uint64_t)sextw(evalE(e->k[0], m), e->k[0]->w) & mk; break;
        case OP_CONCAT: r = evalE(e->k[0], m) << e->k[1]->w | evalE(e->k[1], m); break;
        default: r = evalOp(e->op, e->k[0]->w, evalE(e->k[0], m), evalE(e->k[1], m)); break;
    }
    e->gen = g_gen; e->val = r;
    return r;
}
uint64_t evalFresh(E e, const Model& m) { newGen(); return evalE(e, m); }

static E rebuild(E e, const E* k) {
    switch (e->op) {
        case OP_LIN: { LinB l; l.w = e->w; l.c = e->c; for (uint32_t i = 0; i < e->nk; ++i) l.add(k[i], e->coef[i]); return l.done(); }
        case OP_NOT: return mkNot(k[0]);
        case OP_ITE: return mkIte(k[0], k[1], k[2]);
        case OP_EXTRACT: return mkExtract(k[0], (int)e->c, e->w);
        case OP_ZEXT: return mkZExt(k[0], e->w);
        case OP_SEXT: return mkSExt(k[0], e->w);
        case OP_CONCAT: return mkConcat(k[0], k[1]);
        case OP_EQ: return mkEq(k[0], k[1]);
        case OP_ULT: return mkUlt(k[0], k[1]);
        case OP_SLT: return mkSlt(k[0], k[1]);
        default: return mkBin(e->op, k[0], k[1]);
    }
}
static E subst0(E e, std::unordered_map<E, E>& memo) {
    if (!e->taint) return e;
    if (e->op == OP_UNINIT) return mkConst(e->w, 0);
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    std::vector<E> k(e->nk);
    for (uint32_t i = 0; i < e->nk; ++i) k[i] = subst0(e->k[i], memo);
    E r = rebuild(e, k.data());
    memo[e] = r; return r;
}
static E substV(E e, const VarSet& f, const Model& m, std::unordered_map<E, E>& memo) {
    if (!e->vs.meets(f)) return e;
    if (e->op == OP_VAR) return mkConst(e->w, (e->c < m.size() ? m[e->c] : 0) & maskw(e->w));
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    E kk[4]; std::vector<E> big; E* k = kk; if (e->nk > 4) { big.resize(e->nk); k = big.data(); }
    if (e->op == OP_ITE) {
        k[0] = substV(e->k[0], f, m, memo);
        if (k[0]->op == OP_CONST) { E r = substV(k[0]->c ? e->k[1] : e->k[2], f, m, memo); memo[e] = r; return r; }
        k[1] = substV(e->k[1], f, m, memo); k[2] = substV(e->k[2], f, m, memo);
    } else for (uint32_t i = 0; i < e->nk; ++i) k[i] = substV(e->k[i], f, m, memo);
    E r = rebuild(e, k);
    memo[e] = r; return r;
}
E substVars(E e, const VarSet& f, const Model& m, std::unordered_map<E, E>& memo) { return substV(e, f, m, memo); }
E substLits(E e, std::unordered_map<E, E>& memo) {
    if (e->op == OP_CONST || (!e->ite && e->w != 1)) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    if (!e->ite && e->op != OP_AND && e->op != OP_OR && e->op != OP_XOR && e->op != OP_NOT) return e;
    E kk[4]; std::vector<E> big; E* k = kk; if (e->nk > 4) { big.resize(e->nk); k = big.data(); }
    bool ch = false;
    if (e->op == OP_ITE) {
        k[0] = substLits(e->k[0], memo);
        if (k[0]->op == OP_CONST) { E r = substLits(k[0]->c ? e->k[1] : e->k[2], memo); memo[e] = r; return r; }
        k[1] = substLits(e->k[1], memo); k[2] = substLits(e->k[2], memo);
        ch = k[0] != e->k[0] || k[1] != e->k[1] || k[2] != e->k[2];
    } else for (uint32_t i = 0; i < e->nk; ++i) { k[i] = substLits(e->k[i], memo); ch |= k[i] != e->k[i]; }
    E r = ch ? rebuild(e, k) : e;
    if (ch && r != e && r->op != OP_CONST) { auto j = memo.find(r); if (j != memo.end()) r = j->second; }
    memo[e] = r; return r;
}
E substUninit0(E e) { std::unordered_map<E, E> memo; return subst0(e, memo); }

std::string show(E e, int d) {
    static const char* nm[] = {"c", "v", "uninit", "+", "and", "or", "xor", "shl", "lshr", "ashr", "mul", "udiv", "sdiv", "urem", "srem", "=", "u<", "s<", "not", "ite", "extract", "zext", "sext", "concat"};
    if (e->op == OP_CONST) return std::to_string(e->c);
    if (e->op == OP_VAR) return "v" + std::to_string(e->c) + ":" + std::to_string(e->w);
    if (e->op == OP_UNINIT) return "UNINIT:" + std::to_string(e->w);
    if (d == 0) return "...";
    std::string s = "("; s += nm[e->op];
    if (e->op == OP_LIN || e->op == OP_EXTRACT) s += " " + std::to_string(e->c);
    for (uint32_t i = 0; i < e->nk; ++i) { s += " "; if (e->op == OP_LIN && e->coef[i] != 1) s += std::to_string((long long)sextw(e->coef[i], e->w)) + "*"; s += show(e->k[i], d - 1); }
    return s + ")";
}
