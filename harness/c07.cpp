// C07/C08: minimum and maximum of the tree and of every range, with arbitrary element values and ties
#ifndef DEPTH
#define DEPTH 6
#endif
#include "common.h"
// MAXQ: maximum instead of minimum.  KINDM 0: plain values; 1: values with a comparator that ignores the low bits;
// 2: pair compared by its second component; 3: signed values; 4: reversed comparator
#ifdef MAXQ
#define MQ(n) max##n
#define MQB MaxBuilder
#define STR "max"
#else
#define MQ(n) min##n
#define MQB MinBuilder
#define STR "min"
#endif
#ifndef KINDM
#define KINDM 0
#endif
#ifdef MAXQ
typedef bpptree::detail::MaxComparator DefCmp;
#else
typedef bpptree::detail::MinComparator DefCmp;
#endif
struct Coarse { bool operator()(u32 const& a, u32 const& b) const { return DefCmp()((u32)(a >> 1), (u32)(b >> 1)); } };
struct Rev { bool operator()(u32 const& a, u32 const& b) const { return DefCmp()(b, a); } };
#if KINDM == 0
typedef u32 E; typedef MQB<> B; static u32 kf(E const& e) { return e; } static bool before(u32 a, u32 b) { return DefCmp()(a, b); }
#elif KINDM == 1
typedef u32 E; typedef MQB<>::compare<Coarse> B; static u32 kf(E const& e) { return e; } static bool before(u32 a, u32 b) { return Coarse()(a, b); }
#elif KINDM == 2
typedef std::pair<u64, u32> E; typedef MQB<>::extractor<PairExtractor<1>> B; static u32 kf(E const& e) { return e.second; } static bool before(u32 a, u32 b) { return DefCmp()(a, b); }
#elif KINDM == 3
typedef int32_t E; typedef MQB<> B; static int32_t kf(E const& e) { return e; } static bool before(int32_t a, int32_t b) { return DefCmp()(a, b); }
#else
typedef u32 E; typedef MQB<>::compare<Rev> B; static u32 kf(E const& e) { return e; } static bool before(u32 a, u32 b) { return Rev()(a, b); }
#endif
template <> struct Fresh<int32_t> { static int32_t get(const char* n) { typedef int32_t V; return (int32_t)sym_var(VBITS, n) - (1 << (VBITS - 1)); } };
typedef decltype(kf(E())) Kk;
typedef BppTree<E, LEAFB(E), INTLB(sizeof(Kk)), DEPTH>::mixins<B> Tr;
typedef Tr::Transient T; typedef Tr::Persistent P; typedef Ref<E, 300> R;
template <typename Tree, typename X> static u64 posOf(Tree const& t, X const& x) { u64 i = 0; auto e = t.cend(); for (auto it = t.cbegin(); it != e; ++it, ++i) if (it == x) return i; return (u64)-1; }
static void isBest(R const& r, u64 a, u64 b, Kk k, const char* what) {     // k is the best key of [a,b)
    bool in = false, best = true;
    for (u64 i = a; i < b; ++i) { in |= kf(r[i]) == k; best &= !before(kf(r[i]), k); }
    CHECK(in, STR "() is not the key of an element of the range");
    CHECK(best, STR "() is beaten by another element of the range");
    (void)what;
}
template <typename Tree> static void whole(Tree& t, R const& r) {
    if (!r.n) return;
    Tree const& c = t;
    isBest(r, 0, r.n, c.MQ()(), "whole tree");
    auto it = c.MQ(_element_const)(); u64 p = posOf(c, it);
    CHECK(p < r.n, STR "_element() is no position of the tree"); CHECK(it.get() == r[p], STR "_element() reads a different element");
    isBest(r, 0, r.n, kf(r[p]), "element"); CHECK(!before(c.MQ()(), kf(r[p])) && !before(kf(r[p]), c.MQ()()), STR "() and " STR "_element() disagree");
    auto jt = t.MQ(_element)(); CHECK(jt == it, STR "_element() and its const form disagree");
}
template <typename Tree> static void ranges(Tree& t, R const& r, u64 dirs) {
    if (!r.n) return;
    Tree const& c = t;
    u64 a = sym_choice(r.n, "from"), b = a + 1 + sym_choice(r.n - a, "to");
    auto range = [&](auto x, auto y) {
        isBest(r, a, b, c.MQ()(x, y), "range");
        auto it = c.MQ(_element_const)(x, y); u64 p = posOf(c, it);
        CHECK(p >= a && p < b, STR "_element(begin, end) lies outside the range"); CHECK(it.get() == r[p], STR "_element(begin, end) reads a different element");
        isBest(r, a, b, kf(r[p]), "range element");
        auto jt = t.MQ(_element)(x, y); CHECK(jt == it, STR "_element(begin, end) and its const form disagree");
    };
    u64 d = dirs > 1 ? sym_choice(dirs, "direction") : 0;
    if (d == 0) range(c.cbegin() + (i64)a, c.cbegin() + (i64)b);
    else if (d == 1) { range(c.crbegin() + (i64)(r.n - b), c.crbegin() + (i64)(r.n - a)); sym_reach("reverse range"); }
    else range(t.begin() + (i64)a, t.begin() + (i64)b);
    if (b < r.n && a > 0) sym_reach("inner range");
}
extern "C" void harness() {
    T t; static R r; u64 k = sym_param("k", 1);
    if (sym_param("deep", 0)) {            // tall trees: fixed values with ties, one of them replaced by any value
        u64 n = sym_param("n", 22), lo = sym_param("lo", 22), sh = sym_choice(3, "fill"); n = lo + sym_choice(n - lo + 1, "size");
        for (u64 j = 0; j < n; ++j) { E e = Const<E>::get((u32)((j * 2654435761u) >> 29)); if (sh == 0) { t.push_front(e); r.insert(0, e); } else { u64 p = sh == 1 ? r.n / 2 : (r.n ? r.n - 1 : 0); auto it = t.begin() + (i64)p; t.insert(it, e); r.insert(p, e); } }
        CHECK(t.depth() < DEPTH, "the tree is at its maximum depth: choose a larger one");
        u64 p = sym_choice(n, "at"); E x = Fresh<E>::get("val"); auto it = t.begin() + (i64)p; t.assign(it, x); r[p] = x; if (t.depth() >= 4) sym_reach("depth>=4");
        whole(t, r); ranges(t, r, 1); return;
    }
    prestate(t, r);
    bool shared = sym_param("snap", 1) && sym_choice(2, "shared"); P snap = shared ? t.persistent() : P(); static R old; if (shared) old = r;
    for (u64 i = 0; i < k; ++i) edit(t, r);
    if (sym_param("q", 0) == 0 || k == 0) whole(t, r);
    if (sym_param("q", 0) == 1) ranges(t, r, sym_param("dirs", 3));
    if (shared) { sym_reach("shared"); whole(snap, old); }
    if (t.depth() >= 3) sym_reach("depth>=3");
    if (r.n) sym_observe((u64)t.MQ()());
}
