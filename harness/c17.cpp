// C17: element references obtained from an iterator, an index or a key behave like the element itself
#include "common.h"
#ifndef PV
#define PV u32
#endif
#ifndef VIA
#define VIA 0       // 0 *iterator, 1 t[index], 2 map[key]
#endif
typedef PV V;
template <> struct Fresh<int32_t> { static int32_t get(const char* n) { return (int32_t)sym_var(16, n) - 0x8000; } };
template <> struct Fresh<i64> { static i64 get(const char* n) { return (i64)sym_var(16, n) - 0x8000; } };
#ifdef WIDE                                  // narrow elements summed in a wider type
typedef bpptree::detail::WrappedCastingExtractor<ValueExtractor, u64> SX; typedef u64 W;
#else
typedef ValueExtractor SX; typedef V W;
#endif
#if VIA == 2
typedef std::pair<u32, V> KV;
typedef BppTree<KV, LEAFB(KV), INTLB(4 + sizeof(V)), DEPTH>::mixins<OrderedBuilder<>, SummedBuilder<PairExtractor<1>>> Tr;
#else
#ifdef WITHMIN
enum { MINB = sizeof(V) };
#else
enum { MINB = 0 };
#endif
typedef BppTree<V, LEAFB(V), INTLB(8 + sizeof(W) + MINB), DEPTH>::mixins<IndexedBuilder<>, SummedBuilder<SX>
#ifdef WITHMIN
  , MinBuilder<>
#endif
> Tr;
#endif
typedef Tr::Transient T; typedef Tr::Persistent P; typedef Ref<V, 64> R;
enum { NOPS = 18 };
// applies operator `op` through `p` (a proxy) and to the plain object `x`; the values seen must agree
#ifndef OPV
#define OPV V                                // type of the right operand
#endif
template <typename Pr> static void apply(Pr&& p, V& x, OPV y, u64 op) {
    int sh = (int)((u64)y % (sizeof(V) * 8 - 1));
    switch (op) {
        case 0: p = y; x = y; break;
        case 1: p += y; x += y; break;
        case 2: p -= y; x -= y; break;
        case 3: p *= y; x *= y; break;
        case 4: sym_assume(y != 0); p /= y; x /= y; break;
        case 5: sym_assume(y != 0); p %= y; x %= y; break;
        case 6: p ^= y; x ^= y; break;
        case 7: p &= y; x &= y; break;
        case 8: p |= y; x |= y; break;
        case 9: if (std::is_signed_v<V>) sym_assume(x >= 0 && (i64)x < 256 && sh < 8); p <<= sh; x <<= sh; break;
        case 10: p >>= sh; x >>= sh; break;
        case 11: { ++p; ++x; break; }
        case 12: { --p; --x; break; }
        case 13: { V a = p++, b = x++; CHECK(a == b, "post-increment yields a different value than on a plain object"); break; }
        case 14: { V a = p--, b = x--; CHECK(a == b, "post-decrement yields a different value than on a plain object"); break; }
        case 15: { V const& v = p; CHECK(v == x, "conversion to the value reads a different value"); CHECK(p.get() == x, "get() reads a different value"); break; }
        case 16: CHECK((p == y) == (x == y), "== on a reference"); CHECK((p < y) == (x < y), "< on a reference"); CHECK((p > y) == (x > y), "> on a reference"); CHECK((p <= y) == (x <= y), "<= on a reference"); CHECK((p >= y) == (x >= y), ">= on a reference"); CHECK((y < p) == (y < x), "< with a reference on the right"); break;
        default: CHECK(p + y == x + y, "+ on a reference"); CHECK(p - y == x - y, "- on a reference"); CHECK(y - p == y - x, "- with a reference on the right"); CHECK(p * y == x * y, "* on a reference"); CHECK((p ^ y) == (x ^ y), "^ on a reference"); CHECK((p & y) == (x & y), "& on a reference"); CHECK((p | y) == (x | y), "| on a reference"); CHECK((p >> sh) == (x >> sh), ">> on a reference"); if (y != 0) { CHECK(p % y == x % y, "% on a reference"); CHECK(p / y == x / y, "/ on a reference"); } if (!std::is_signed_v<V>) CHECK((p << sh) == (x << sh), "<< on a reference"); break;
    }
}
template <typename Pr> static void chain(Pr&& p, V& x, OPV y, u64 op) {       // the result of an assignment is the reference again
    switch (op) { case 0: (p += y) ^= y; (x += y) ^= y; break; case 1: ++(p = y); ++(x = y); break; default: { V a = --(p |= y); V b = --(x |= y); CHECK(a == b, "the result of a pre-decrement is not the new value"); break; } }
}
#if VIA == 2
static u32 keyAt(u64 i) { return (u32)(i * 3 + 1); }
#endif
static void same(T const& t, R const& r) {
    CHECK(t.size() == r.n, "size changed"); u64 i = 0; W s{}; auto e = t.cend();
    for (auto it = t.cbegin(); it != e; ++it, ++i) {
#if VIA == 2
        CHECK((*it).first == keyAt(i), "a key changed"); CHECK((*it).second == r[i], "an element differs from a plain object put through the same operations");
#else
        CHECK(*it == r[i], "an element differs from a plain object put through the same operations");
#endif
        s = (W)(s + r[i]); CHECK((W)t.sum_inclusive(it) == s, "a prefix sum does not follow the elements");
    }
    CHECK(i == r.n, "the number of elements changed"); CHECK((W)t.sum() == s, "the sum does not follow the elements");
#ifdef WITHMIN
    if (r.n) { V m = r[0]; for (u64 j = 1; j < r.n; ++j) m = r[j] < m ? r[j] : m; CHECK(t.min() == m, "the minimum does not follow the elements"); }
#endif
}
extern "C" void harness() {
    T t; static R r, old; u64 n = sym_param("n", 4), lo = sym_param("lo", 1), k = sym_param("k", 1);
#if VIA == 2
    n = lo + sym_choice(n - lo + 1, "n"); for (u64 i = 0; i < n; ++i) { V v = Fresh<V>::get("elem"); t.insert_v(keyAt(i), v); r.insert(i, v); }
#else
    u64 only = sym_param("shape", 99); u64 sh = only < 6 ? only : sym_choice(3, "shape"); build(t, r, sh, lo + sym_choice(n - lo + 1, "n"));
#endif
    bool shared = sym_choice(2, "shared"); P snap = shared ? t.persistent() : P(); if (shared) { old = r; sym_reach("shared"); }
    for (u64 q = 0; q < k; ++q) {
        u64 i = sym_choice(r.n, "at"), op = sym_choice(NOPS + (VIA == 0 ? 6 : 4), "op"); OPV y = Fresh<OPV>::get("y");
#if VIA == 0
        auto it = t.begin() + (i64)i;
        if (op < NOPS) apply(*it, r[i], y, op);
        else if (op < NOPS + 3) chain(*it, r[i], y, op - NOPS);
        else {
            u64 j = sym_choice(r.n, "other"); auto jt = t.begin() + (i64)j;
            if (op == NOPS + 3) { swap(*it, *jt); V a = r[i]; r[i] = r[j]; r[j] = a; sym_reach("swap"); }
            else if (op == NOPS + 4) { *it = *jt; r[i] = r[j]; }
            else { CHECK((*it == *jt) == (r[i] == r[j]), "== of two references"); CHECK((*it < *jt) == (r[i] < r[j]), "< of two references"); CHECK((V)(*it + *jt) == (V)(r[i] + r[j]), "+ of two references"); auto rt = t.rbegin() + (i64)(r.n - 1 - i); apply(*rt, r[i], y, 1); sym_reach("reverse iterator"); }
        }
        CHECK(it.get() == r[i], "reading back through the iterator");
#elif VIA == 1
        if (op < NOPS) { size_t ix = i; apply(t[ix], r[i], y, op); } else if (op < NOPS + 3) { size_t ix = i; chain(t[ix], r[i], y, op - NOPS); }
        else { u64 j = sym_choice(r.n, "other"); V v = t[j]; t[i] = v; r[i] = r[j]; }
        CHECK(t.at_index(i) == r[i], "reading back by index"); CHECK(t[i] == r[i], "reading back by index");
#else
        u32 key = keyAt(i);
        if (op < NOPS) apply(t[key], r[i], y, op); else if (op < NOPS + 3) chain(t[key], r[i], y, op - NOPS);
        else { t[key] = KV(key, (V)y); r[i] = (V)y; sym_reach("whole entry"); }
        CHECK(t.at_key(key) == r[i], "reading back by key"); CHECK(t[key] == r[i], "reading back by key");
#endif
    }
    same(t, r);
    if (shared) { u64 i = 0; for (auto it = snap.cbegin(); it != snap.cend(); ++it, ++i)
#if VIA == 2
        CHECK((*it).second == old[i], "a snapshot changed");
#else
        CHECK(*it == old[i], "a snapshot changed");
#endif
    }
    if (t.depth() >= 3) sym_reach("depth>=3");
    sym_observe((u64)t.sum()); for (u64 i = 0; i < r.n; ++i) sym_observe((u64)r[i]);
}
