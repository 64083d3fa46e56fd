// C12: keyed operations on entries whose key and value watch their own construction, moves and destruction
#include "tok.h"
#ifndef OT
#define OT Tok
#endif
#ifndef BINARY
#define BINARY false
#endif
typedef OT O; typedef std::pair<O, O> KV;
typedef BppTree<KV, LEAFB(KV), INTLB(sizeof(O)), DEPTH>::mixins<OrderedBuilder<>::binary_search<BINARY>> Tr;
typedef Tr::Transient T; typedef Tr::Persistent P;
struct R { u32 k[64], v[64]; u64 n = 0;
    u64 lower(u32 x) const { u64 i = 0; while (i < n && k[i] < x) ++i; return i; }
    bool at(u64 i, u32 x) const { return i < n && k[i] == x; }
    void insert(u64 i, u32 x, u32 y) { for (u64 j = n; j > i; --j) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; ++n; }
    void erase(u64 i) { for (u64 j = i; j + 1 < n; ++j) { k[j] = k[j + 1]; v[j] = v[j + 1]; } --n; } };
template <typename Tree> static void same(Tree const& t, R const& r) {
    CHECK(t.size() == r.n, "size() differs from the reference"); u64 i = 0; auto e = t.cend();
    for (auto it = t.cbegin(); it != e; ++it, ++i) { CHECK(i < r.n, "traversal is too long"); CHECK((*it).first.get() == r.k[i], "a key differs from the reference"); CHECK((*it).second.get() == r.v[i], "a value differs from the reference"); }
    CHECK(i == r.n, "traversal is too short");
    for (i = 0; i < r.n; ++i) { O key(r.k[i]); CHECK(t.contains(key), "a stored key is not found"); CHECK(t.at_key(key).get() == r.v[i], "at_key() differs from the reference"); }
}
static void step(T& t, R& r) {
    u64 op = sym_choice(15, "op"), slot = sym_choice(2 * r.n + 1, "slot"); u32 k = (u32)(slot * 8 + 8), v = sym_u32("v"); u64 i = r.lower(k); bool has = r.at(i, k);
    O key(k), val(v);
    auto ins = [&] { if (!has) r.insert(i, k, v); }; auto set = [&] { if (has) r.v[i] = v; else r.insert(i, k, v); };
    if ((op >= 6 && op <= 9) || op == 13) sym_assume(has);
    switch (op) {
        case 0: { KV e(key, val); t.insert_v(e); ins(); CHECK(e.first.get() == k, "an argument passed as an lvalue was moved from"); break; }
        case 1: t.insert_v(KV(key, val)); ins(); break;
        case 2: t.insert_v(key, val); ins(); CHECK(key.get() == k && val.get() == v, "an argument passed as an lvalue was moved from"); break;
        case 3: t.insert_or_assign(std::move(key), std::move(val)); set(); break;
        case 4: { const KV e(key, val); t.insert_or_assign(e); set(); break; }
        case 5: t.insert_or_assign(std::piecewise_construct, std::forward_as_tuple(std::move(key)), std::forward_as_tuple(v)); set(); break;
        case 6: t.assign_v(KV(key, val)); r.v[i] = v; break;
        case 7: { u32 seen = 0; t.update_key(key, [&](O const& o) { seen = o.get(); return O(v); }); CHECK(seen == r.v[i], "update_key() passed a different value to the updater"); r.v[i] = v; break; }
        case 8: t.erase_key(key); r.erase(i); sym_reach("erase"); break;
        case 9: { auto it = t.cbegin() + (i64)i; t.erase_key((*it).first); r.erase(i); break; }
        case 10: t[key] = val; set(); CHECK(val.get() == v, "an argument passed as an lvalue was moved from"); break;
        case 11: t[key] = std::move(val); set(); break;
        case 12: t[key] = KV(key, val); set(); break;
        case 13: { auto it = t.cbegin() + (i64)i; u64 j = sym_choice(r.n, "source"); auto jt = t.cbegin() + (i64)j; t[(*it).first] = (*jt).second; r.v[i] = r.v[j]; break; }
        default: { sym_assume(r.n > 0); u64 j = sym_choice(r.n, "source"); auto jt = t.cbegin() + (i64)j; u32 w = r.v[j]; t.insert_or_assign(key, (*jt).second); if (has) r.v[i] = w; else r.insert(i, k, w); break; }
    }
}
extern "C" void harness() {
    u64 heap = sym_live_heap(); i64 live0 = Tok::live;
    {
        T t; static R r, old; u64 n = sym_param("n", 5), lo = sym_param("lo", 0), sh = sym_choice(3, "shape"); n = lo + sym_choice(n - lo + 1, "n");
        for (u64 j = 0; j < n; ++j) { u64 i = sh == 0 ? j : sh == 1 ? n - 1 - j : j * 2 < n + (n & 1) ? j * 2 : (j * 2 - (n + (n & 1)) + 1); u32 k = (u32)(i * 16 + 16), v = sym_u32("elem"); t.insert_v(O(k), O(v)); r.insert(r.lower(k), k, v); }
        bool shared = sym_choice(2, "shared"); P snap = shared ? t.persistent() : P(); if (shared) { old = r; sym_reach("shared"); }
        for (u64 q = 0, k = sym_param("k", 1); q < k; ++q) { step(t, r); same(t, r); if (shared) same(snap, old); }
        if (t.depth() >= 3) sym_reach("depth>=3");
        if (shared && sym_choice(2, "keep")) { snap = P(); same(t, r); }
        sym_observe(t.size());
    }
    CHECK(Tok::live == live0, "element objects are still alive after every handle is gone");
    CHECK(sym_live_heap() == heap, "memory is still allocated after every handle is gone");
}
