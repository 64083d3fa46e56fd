// C18: operations that report an error leave the tree as it was.  Compiled with BPPTREE_SAFETY_CHECKS.
#define BPPTREE_SAFETY_CHECKS
#include <stdexcept>
#include "common.h"
typedef u32 K; typedef u32 V;
// KIND 0 ordered pairs with sums and positions; 1 set; 2 tuples in binary-search order with minima
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef std::pair<K, V> KV; static KV mk(K k, V v) { return {k, v}; } static K kof(KV const& e) { return e.first; } static V vof(KV const& e) { return e.second; }
typedef BppTree<KV, LEAFB(KV), INTLB(4 + 4 + 8), DEPTH>::mixins<OrderedBuilder<>, SummedBuilder<PairExtractor<1>>, IndexedBuilder<>> Tr;
#elif KIND == 1
typedef K KV; static KV mk(K k, V) { return k; } static K kof(KV const& e) { return e; } static V vof(KV const& e) { return e; }
typedef BppTree<KV, LEAFB(KV), INTLB(4), DEPTH>::mixins<OrderedBuilder<ValueExtractor>> Tr;
#else
typedef std::tuple<K, V> KV; static KV mk(K k, V v) { return {k, v}; } static K kof(KV const& e) { return std::get<0>(e); } static V vof(KV const& e) { return std::get<1>(e); }
typedef BppTree<KV, LEAFB(KV), INTLB(8), DEPTH>::mixins<MinBuilder<TupleExtractor<1>>, OrderedBuilder<TupleExtractor<0>>::binary_search<true>> Tr;
#endif
typedef Tr::Transient T; typedef Tr::Persistent P;
struct R { K k[64]; V v[64]; u64 n = 0;
    u64 lower(K x) const { u64 i = 0; while (i < n && k[i] < x) ++i; return i; }
    bool has(K x) const { u64 i = lower(x); return i < n && k[i] == x; }
    void insert(u64 i, K x, V y) { for (u64 j = n; j > i; --j) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; ++n; }
    void erase(u64 i) { for (u64 j = i; j + 1 < n; ++j) { k[j] = k[j + 1]; v[j] = v[j + 1]; } --n; } };
struct Boom { u32 tag; };
template <typename Tree> static void same(Tree const& t, R const& r) {
    CHECK(t.size() == r.n, "size() differs after a reported error"); u64 i = 0; auto e = t.cend(); V s = 0;
    for (auto it = t.cbegin(); it != e; ++it, ++i) {
        CHECK(i < r.n, "the tree holds more elements than before the error"); CHECK(kof(*it) == r.k[i], "a key differs after a reported error");
        if (KIND != 1) CHECK(vof(*it) == r.v[i], "a value differs after a reported error"); s += r.v[i];
#if KIND == 0
        CHECK(t.sum_inclusive(it) == s, "a prefix sum differs after a reported error"); CHECK((u64)t.order(it) == i, "a position differs after a reported error");
#endif
    }
    CHECK(i == r.n, "the tree holds fewer elements than before the error");
#if KIND == 0
    CHECK(t.sum() == s, "the sum differs after a reported error");
#elif KIND == 2
    if (r.n) { V m = r.v[0]; for (u64 j = 1; j < r.n; ++j) m = r.v[j] < m ? r.v[j] : m; CHECK(t.min() == m, "the minimum differs after a reported error"); }
#endif
    for (u64 j = 0; j < r.n; ++j) CHECK(t.contains(r.k[j]), "a key is no longer found after a reported error");
}
template <typename Exc, typename F> static void throws(F&& f, const char* msg) { bool thrown = false; try { f(); } catch (Exc const&) { thrown = true; } CHECK(thrown, msg); }
#define THROWS(what, ...) throws<std::logic_error>([&] { __VA_ARGS__; }, what " is not reported")
extern "C" void harness() {
    T t; static R r, old; u64 n = sym_param("n", 4), lo = sym_param("lo", 0); n = lo + sym_choice(n - lo + 1, "n"); u64 desc = sym_choice(2, "descending");
    for (u64 j = 0; j < n; ++j) { u64 i = desc ? n - 1 - j : j; K k = (K)(i * 16 + 16); V v = (V)sym_var((int)sym_param("vb", 8), "elem"); t.insert_v(mk(k, v)); r.insert(r.lower(k), k, KIND == 1 ? k : v); }
    bool shared = sym_choice(2, "shared"); P snap = shared ? t.persistent() : P(); if (shared) { old = r; sym_reach("shared"); }
    P p = shared ? snap : P();
    T const& c = t;
    for (u64 q = 0, k = sym_param("k", 1); q < k; ++q) {
        u64 op = sym_choice(19, "op"); K x = (K)sym_u8("x"); V y = (V)sym_var((int)sym_param("vb", 8), "y");
        if (op < 8) { sym_assume(!r.has(x)); }
        switch (op) {
#if KIND != 1
            case 0: THROWS("reading an absent key with at_key()", V v = t.at_key(x); sym_observe(v)); sym_reach("absent key"); break;
            case 1: THROWS("reading an absent key with []", V v = c[x]; sym_observe(v)); break;
            case 2: THROWS("assigning to an absent key", t.assign_v(mk(x, y))); break;
            case 3: { bool called = false; THROWS("updating an absent key", t.update_key(x, [&](V const& o) { called = true; return o + y; })); CHECK(!called, "the updater of an absent key is called"); break; }
            case 4: THROWS("erasing an absent key", t.erase_key(x)); break;
            case 5: THROWS("compound assignment to an absent key", t[x] += y); break;
            case 6: THROWS("incrementing an absent key", t[x]++); break;
            case 7: THROWS("reading an absent key through a reference", V v = t[x]; sym_observe(v)); break;
            case 8: { K other = (K)sym_u8("other"); sym_assume(other != x); THROWS("storing an entry under a different key", t[x] = mk(other, y)); sym_reach("mismatching key"); break; }
            case 9: { K other = (K)sym_u8("other"); sym_assume(other != x); const KV e = mk(other, y); THROWS("storing an entry under a different key", t[x] = e); break; }
            case 10: { K other = (K)sym_u8("other"); sym_assume(other != x); KV e = mk(other, y); THROWS("storing an entry under a different key", t[x] = e); break; }
            case 11: sym_assume(r.has(x)); throws<Boom>([&] { t.update_key(x, [&](V const&) -> V { throw Boom{1}; }); }, "an updater's exception is swallowed by update_key()"); sym_reach("throwing updater"); break;
#else
            case 2: THROWS("assigning to an absent key", t.assign_v(x)); sym_reach("absent key"); break;
            case 3: THROWS("updating an absent key", t.update_key(x, [&](K const& o) { return o; })); break;
            case 4: THROWS("erasing an absent key", t.erase_key(x)); break;
            case 8: { sym_assume(r.has(x)); K other = (K)sym_u8("other"); sym_assume(other != x); THROWS("updating an element to a different key", t.update_key(x, [&](K const&) { return other; })); sym_reach("mismatching key"); break; }
            case 11: sym_assume(r.has(x)); throws<Boom>([&] { t.update_key(x, [&](K const&) -> K { throw Boom{1}; }); }, "an updater's exception is swallowed by update_key()"); sym_reach("throwing updater"); break;
#endif
            case 12: { sym_assume(r.n > 0); auto it = t.begin() + (i64)sym_choice(r.n, "at"); throws<Boom>([&] { t.update(it, [&](KV const&) -> KV { throw Boom{2}; }); }, "an updater's exception is swallowed by update()"); break; }
#if KIND == 0
            case 13: { sym_assume(r.n > 0); u64 i = sym_choice(r.n, "at"); throws<Boom>([&] { t.update_index(i, [&](KV const&) -> KV { throw Boom{3}; }); }, "an updater's exception is swallowed by update_index()"); break; }
#endif
            case 14: { T o; o.insert_v(mk(7, 7)); bool lt = false; THROWS("ordering iterators of different trees", lt = t.begin() < o.begin()); THROWS("ordering iterators of different trees", lt = t.cbegin() >= o.cend()); THROWS("ordering reverse iterators of different trees", lt = t.crbegin() > o.crend()); THROWS("ordering iterators of different trees", lt = t.end() <= o.end()); sym_reach("different trees"); break; }
            case 15: sym_assume(shared); THROWS("ordering iterators of two snapshots", bool lt = snap.cbegin() < p.cbegin(); (void)lt); break;
            case 16: sym_assume(shared && !r.has(x)); THROWS("erasing an absent key of a persistent tree", P w = snap.erase_key(x)); THROWS("assigning to an absent key of a persistent tree", P w = snap.assign_v(mk(x, y))); sym_reach("persistent tree"); break;
            case 17: sym_assume(shared && r.has(x)); throws<Boom>([&] { P w = snap.update_key(x, [&](V const&) -> V { throw Boom{4}; }); }, "an updater's exception is swallowed by the persistent update_key()"); break;
            case 18: { sym_assume(shared && r.n > 0); auto it = snap.cbegin() + (i64)sym_choice(r.n, "at"); throws<Boom>([&] { P w = snap.update(it, [&](KV const&) -> KV { throw Boom{5}; }); }, "an updater's exception is swallowed by the persistent update()"); break; }
            default: sym_assume(false);
        }
        same(t, r); if (shared) same(snap, old);
        if (t.depth() >= 3) sym_reach("depth>=3");
    }
    // still usable
    u64 use = sym_choice(3, "use"); u64 i;
    if (use == 0) { K k = (K)sym_u8("k2"); V v = (V)sym_var((int)sym_param("vb", 8), "v2"); i = r.lower(k); t.insert_or_assign(mk(k, v)); if (r.has(k)) r.v[i] = KIND == 1 ? k : v; else r.insert(i, k, KIND == 1 ? k : v); }
    else if (use == 1) { sym_assume(r.n > 0); i = sym_choice(r.n, "gone"); t.erase_key(r.k[i]); r.erase(i); }
    else { sym_assume(r.n > 0); i = sym_choice(r.n, "set"); V v = (V)sym_var((int)sym_param("vb", 8), "v3"); t.assign_v(mk(r.k[i], v)); if (KIND != 1) r.v[i] = v; }
    same(t, r); if (shared) same(snap, old);
    sym_observe(t.size()); for (auto it = t.cbegin(); it != t.cend(); ++it) { sym_observe(kof(*it)); sym_observe(vof(*it)); }
}
