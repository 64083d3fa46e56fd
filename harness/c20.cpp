// C20: several mixins together, in several orders and subsets; every query of every mixin against the reference.
// Elements are (key, value) pairs with increasing keys; MIX selects the list.
#include "common.h"
typedef u32 K; typedef u32 V; typedef std::pair<K, V> KV;
typedef IndexedBuilder<> I; typedef OrderedBuilder<> O; typedef SummedBuilder<PairExtractor<1>> S; typedef MinBuilder<PairExtractor<1>> N; typedef MaxBuilder<PairExtractor<1>> X;
#ifndef MIX
#define MIX I, O, S, N, X
#endif
template <typename B, typename... L> constexpr bool in = (std::is_same_v<B, L> || ...);
template <typename... L> struct Set { static constexpr bool i = in<I, L...>, o = in<O, L...>, s = in<S, L...>, n = in<N, L...>, x = in<X, L...>;
    static constexpr int bytes = (i ? 8 : 0) + (o ? 4 : 0) + (s ? 4 : 0) + (n ? 4 : 0) + (x ? 4 : 0);
    typedef typename BppTree<KV, LEAFB(KV), INTLB(bytes), DEPTH>::template mixins<L...> Tr; };
typedef Set<MIX> M; typedef M::Tr Tr; typedef Tr::Transient T; typedef Tr::Persistent P;
struct R { K k[96]; V v[96]; u64 n = 0;
    u64 lower(K x) const { u64 i = 0; while (i < n && k[i] < x) ++i; return i; }
    void insert(u64 i, K x, V y) { for (u64 j = n; j > i; --j) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; ++n; }
    void erase(u64 i) { for (u64 j = i; j + 1 < n; ++j) { k[j] = k[j + 1]; v[j] = v[j + 1]; } --n; } };
template <typename Tree, typename It> static u64 posOf(Tree const& t, It const& x) { u64 i = 0; auto e = t.cend(); for (auto it = t.cbegin(); it != e; ++it, ++i) if (it == x) return i; return i; }
template <typename Tree> static void all(Tree& tm, R const& r) {
    Tree const& t = tm;
    CHECK(t.size() == r.n, "size() differs"); u64 i = 0; V s = 0;
    for (auto it = t.cbegin(); it != t.cend(); ++it, ++i) {
        CHECK(i < r.n, "the tree holds more elements than the reference"); CHECK((*it).first == r.k[i], "a key differs"); CHECK((*it).second == r.v[i], "a value differs");
        if constexpr (M::s) { CHECK(t.sum_exclusive(it) == s, "sum_exclusive() differs"); s += r.v[i]; CHECK(t.sum_inclusive(it) == s, "sum_inclusive() differs"); }
        if constexpr (M::i) { CHECK((u64)t.order(it) == i, "order() differs"); CHECK(t.at_index(i).second == r.v[i], "at_index() differs"); }
        if constexpr (M::o) { CHECK(posOf(t, t.find(r.k[i])) == i, "find() differs"); CHECK(posOf(t, t.lower_bound(r.k[i])) == i, "lower_bound() differs"); CHECK(posOf(t, t.upper_bound(r.k[i])) == i + 1, "upper_bound() differs"); CHECK(t.at_key(r.k[i]) == r.v[i], "at_key() differs"); }
    }
    CHECK(i == r.n, "the tree holds fewer elements than the reference");
    if constexpr (M::s) { CHECK(t.sum() == s, "sum() differs"); V run = 0; u64 q = 0; V target = r.n ? r.v[0] + (r.n > 1 ? r.v[1] : 0) : 0; while (q < r.n) { run += r.v[q]; if (run >= target) break; ++q; } if (r.n) CHECK(posOf(t, t.sum_lower_bound(target)) == q, "sum_lower_bound() differs"); }
    if (r.n) {
        if constexpr (M::n) { V m = r.v[0]; for (u64 j = 1; j < r.n; ++j) m = r.v[j] < m ? r.v[j] : m; CHECK(t.min() == m, "min() differs"); u64 p = posOf(t, t.min_element()); CHECK(p < r.n && r.v[p] == m, "min_element() differs");
            V m2 = r.v[r.n / 2]; for (u64 j = r.n / 2; j < r.n; ++j) m2 = r.v[j] < m2 ? r.v[j] : m2; CHECK(t.min(t.cbegin() + (i64)(r.n / 2), t.cend()) == m2, "min() of a range differs"); }
        if constexpr (M::x) { V m = r.v[0]; for (u64 j = 1; j < r.n; ++j) m = m < r.v[j] ? r.v[j] : m; CHECK(t.max() == m, "max() differs"); u64 p = posOf(t, t.max_element()); CHECK(p < r.n && r.v[p] == m, "max_element() differs");
            V m2 = r.v[0]; for (u64 j = 0; j < (r.n + 1) / 2; ++j) m2 = m2 < r.v[j] ? r.v[j] : m2; CHECK(t.max(t.cbegin(), t.cbegin() + (i64)((r.n + 1) / 2)) == m2, "max() of a range differs"); }
    }
}
static V val(const char* n) { return (V)sym_var((int)sym_param("vb", 3), n); }
template <typename T> static void step(T& t, R& r) {
    u64 op = sym_choice(8, "op"); if (op) sym_assume(r.n > 0);
    switch (op) {
        case 0: { u64 p = sym_choice(r.n + 1, "pos"); K k = p ? r.k[p - 1] + 3 : r.n ? r.k[0] - 3 : 1000; V v = val("val"); auto it = t.begin() + (i64)p; t.insert(it, KV(k, v)); r.insert(p, k, v); break; }
        case 1: { u64 p = sym_choice(r.n, "pos"); auto it = t.begin() + (i64)p; t.erase(it); r.erase(p); break; }
        case 2: { u64 p = sym_choice(r.n, "pos"); V v = val("val"); K k = r.k[p] + (K)sym_choice(2, "rekey"); auto it = t.begin() + (i64)p; t.assign(it, KV(k, v)); r.k[p] = k; r.v[p] = v; break; }
        case 3: { u64 p = sym_choice(r.n, "pos"); V v = val("val"); auto it = t.begin() + (i64)p; t.update(it, [&](KV const& o) { return KV(o.first, o.second ^ v); }); r.v[p] ^= v; break; }
        case 4: t.pop_back(); r.erase(r.n - 1); break;
        case 5: t.pop_front(); r.erase(0); break;
        case 6: if constexpr (M::o) { u64 p = sym_choice(r.n, "pos"), how = sym_choice(4, "how"); V v = val("val"); K k = r.k[p];
                if (how == 0) { t.insert_or_assign(k, v); r.v[p] = v; } else if (how == 1) { t.erase_key(k); r.erase(p); } else if (how == 2) { t.insert_or_assign(k + 1, v); r.insert(p + 1, k + 1, v); } else { t.update_key(k, [&](V const& o) { return o + v; }); r.v[p] += v; } } else sym_assume(false); break;
        default: if constexpr (M::i) { u64 p = sym_choice(r.n, "pos"), how = sym_choice(3, "how"); V v = val("val");
                if (how == 0) { t.erase_index(p); r.erase(p); } else if (how == 1) { t.insert_index(p + 1, KV(r.k[p] + 2, v)); r.insert(p + 1, r.k[p] + 2, v); } else { t.assign_index(p, KV(r.k[p], v)); r.v[p] = v; } } else sym_assume(false); break;
    }
}
extern "C" void harness() {
    T t; static R r, old; u64 n = sym_param("n", 4), lo = sym_param("lo", 0); n = lo + (n > lo ? sym_choice(n - lo + 1, "n") : 0); u64 sh = sym_choice(sym_param("shapes", 3), "shape");
    auto add = [&](u64 i) { K k = (K)(1000 + i * 16); V v = val("elem"); u64 p = r.lower(k); if (p == r.n) t.push_back(KV(k, v)); else if (!p) t.push_front(KV(k, v)); else { auto it = t.begin() + (i64)p; t.insert(it, KV(k, v)); } r.insert(p, k, v); };
    if (sh == 0) for (u64 i = 0; i < n; ++i) add(i); else if (sh == 1) for (u64 i = n; i-- > 0;) add(i); else { for (u64 i = 0; i < 2 * n; i += 2) add(i); for (u64 i = 1; i < 2 * n; i += 2) add(i); for (u64 i = 0; i < n; ++i) { auto it = t.begin() + (i64)i; t.erase(it); r.erase(i); } }
    bool shared = sym_choice(2, "shared"); P snap = shared ? t.persistent() : P(); if (shared) { old = r; sym_reach("shared"); }
    for (u64 i = 0, k = sym_param("k", 1); i < k; ++i) step(t, r);
    all(t, r); if (shared) all(snap, old);
    if (t.depth() >= 3) sym_reach("depth>=3");
    sym_observe(t.size()); for (auto it = t.cbegin(); it != t.cend(); ++it) sym_observe((*it).second);
}
