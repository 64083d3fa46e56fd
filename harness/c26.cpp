// C26: the number of comparisons and extractions an operation makes is logarithmic in the size of the tree
#define CONCRETE_FILL
#define DEPTH 8
#include "common.h"
typedef u32 K; typedef std::pair<K, u32> KV;
static u64 compared, extracted;
struct Less { bool operator()(K const& a, K const& b) const { ++compared; return a < b; } };
struct Ex { template <typename... A> u32 operator()(A const&... a) const { ++extracted; return (u32)PairExtractor<1>()(a...); } };
#ifndef BINARY
#define BINARY false
#endif
typedef BppTree<KV, LEAFB(KV), INTLB(4 + 4 + 4), DEPTH>::mixins<OrderedBuilder<PairExtractor<0>, Less>::binary_search<BINARY>, SummedBuilder<Ex>, MinBuilder<PairExtractor<1>, Less>> Tr;
typedef Tr::Transient T; typedef Tr::Persistent P;
extern "C" void harness() {
    T t; u64 n = sym_param("n", 64), sh = sym_choice(4, "shape"), half = sym_choice(2, "half"); if (half) n = n / 2 + 1;
    for (u64 j = 0; j < n; ++j) { u64 i = sh == 0 ? j : sh == 1 ? n - 1 - j : sh == 2 ? (j & 1 ? n - 1 - j / 2 : j / 2) : (j * 37) % n; K k = (K)(i * 4 + 4); t.insert_v(KV(k, (k * 2654435761u) >> 20)); }
    sym_assume(t.size() == n);
    u64 d = t.depth(), level = d * IN + LN, op = sym_choice(13, "op"), i = 0; CHECK(d < DEPTH, "the tree is at its maximum depth: choose a larger one"); K k = 0;
    if (op <= 4 || (op >= 6 && op <= 8)) { k = (K)sym_var(16, "key"); if (op == 4 || op == 7 || op == 8) { sym_assume(k % 4 == 0); sym_assume(k >= 4 && k <= 4 * n); } if (op == 2) sym_assume(k <= 4 * n); if (op == 3 && k > 4 * n) sym_reach("key after the last"); }   // any key, or any key in the tree
    else i = sym_choice(n, "at");
    if (d >= 4) sym_reach("depth>=4");
    bool shared = op >= 6 && op < 10 && sym_choice(2, "shared"); P s = shared ? t.persistent() : P();
    u64 m = sym_param("mult", 0), lim = level * (m ? m : 3); auto it = t.cbegin() + (i64)i; u64 j = i;
    if (op == 11 || op == 12) j = i + 1 + sym_choice(n - i, "to"); auto jt = t.cbegin() + (i64)j;
    compared = extracted = 0;
    switch (op) {
        case 0: sym_observe(t.contains(k)); lim = 2 * level + 4; break;
        case 1: { auto f = t.find(k); sym_observe(f == t.end()); lim = 2 * level + 4; break; }
        case 2: { auto f = t.lower_bound(k); sym_observe((*f).get().first); lim = 2 * level + 4; break; }
        case 3: { auto f = t.upper_bound(k); sym_observe(f == t.end()); lim = 2 * level + 4; break; }
        case 4: sym_observe(t.at_key(k)); lim = 2 * level + 4; break;
        case 5: sym_observe(t.sum()); lim = level + 2; break;
        case 6: t.insert_or_assign(KV(k, 7)); break;
        case 7: t.erase_key(k); break;
        case 8: t.update_key(k, [](u32 const& o) { return o + 1; }); break;
        case 9: { auto ft = t.begin() + (i64)i; t.erase(ft); break; }
        case 10: sym_observe(t.sum_inclusive(it)); sym_observe(t.sum_exclusive(it)); lim = 3 * level + 4; break;
        case 11: sym_observe(t.min(it, jt)); lim = 2 * level + 4; break;
        default: { auto f = t.min_element(it, jt); sym_observe((*f).get().second); lim = 2 * level + 4; break; }
    }
    CHECK(compared <= lim, "an operation makes more comparisons than its path through the tree accounts for");
    CHECK(extracted <= lim, "an operation extracts more elements than its path through the tree accounts for");
}
