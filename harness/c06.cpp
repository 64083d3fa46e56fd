// C06: searching by prefix sum with any non-negative values and any target
#ifndef DEPTH
#define DEPTH 6
#endif
#include "common.h"
// values are 8-bit so that no sum overflows its type; SUMK 0 u64 sums, 1 u32, 2 i64, 3 u16
#ifndef SUMK
#define SUMK 0
#endif
#if SUMK == 0
typedef u64 W;
#elif SUMK == 1
typedef u32 W;
#elif SUMK == 2
typedef i64 W;
#else
typedef uint16_t W;
#endif
typedef W E;
template <> struct Fresh<E> { static E get(const char* n) { return (E)(sym_param("bits", 8) == 8 ? sym_var(8, n) : sym_var((int)sym_param("bits", 8), n)); } };
typedef BppTree<E, LEAFB(E), INTLB(sizeof(W)), DEPTH>::mixins<SummedBuilder<ValueExtractor>> Tr;
typedef Tr::Transient T; typedef Tr::Persistent P; typedef Ref<E, 300> R;
template <typename Tree> static void search(Tree& t, R const& r, W target) {
    auto it = t.sum_lower_bound(target);
    u64 i = 0; W s{};
    auto e = t.cend();
    if (it == e) { for (; i < r.n; ++i) s = (W)(s + r[i]); CHECK(r.n == 0 || s < target, "sum_lower_bound() is the end although the total reaches the target"); if (r.n) sym_reach("beyond the total"); return; }
    auto w = t.cbegin(); for (; i < r.n && !(w == it); ++i, ++w) s = (W)(s + r[i]);
    CHECK(i < r.n, "sum_lower_bound() returned an iterator that is no position of the tree");
    CHECK((W)(s + r[i]) >= target, "sum_lower_bound(): the sum up to the element found does not reach the target");
    CHECK(i == 0 || s < target, "sum_lower_bound(): an earlier element already reaches the target");
    CHECK(it.get() == r[i], "sum_lower_bound() designates a different element");
    CHECK(t.sum_inclusive(it) == (W)(s + r[i]), "sum_inclusive() of the element found");
    sym_reach("found");
}
extern "C" void harness() {
    T t; static R r; u64 k = sym_param("k", 1);
    if (sym_param("deep", 0)) {            // tall trees: fixed values (zeros among them), one of them replaced by any value, any target
        u64 n = sym_param("n", 30), lo = sym_param("lo", 9), sh = sym_choice(3, "fill"); n = lo + sym_choice(n - lo + 1, "size");
        for (u64 j = 0; j < n; ++j) { E e = (E)((u32)(j * 2654435761u) >> 30); if (sh == 0) { t.push_front(e); r.insert(0, e); } else { u64 p = sh == 1 ? r.n / 2 : (r.n ? r.n - 1 : 0); auto it = t.begin() + (i64)p; t.insert(it, e); r.insert(p, e); } }
        CHECK(t.depth() < DEPTH, "the tree is at its maximum depth: choose a larger one");
        u64 p = sym_choice(n, "at"); E x = Fresh<E>::get("val"); auto it = t.begin() + (i64)p; t.assign(it, x); r[p] = x; if (t.depth() >= 4) sym_reach("depth>=4");
        W target = (W)sym_var(12, "target"); search(t, r, target); P s = t.persistent(); search(s, r, target); return;
    }
    prestate(t, r);
    P snap = t.persistent(); static R old; old = r; bool shared = k && sym_choice(2, "shared"); if (!shared) snap = P();
    for (u64 i = 0; i < k; ++i) edit(t, r, OP_CLR);
    W target = (W)sym_var(sizeof(W) < 4 ? 12 : 32, "target");
    search(t, r, target);
    if (sym_param("const", 1)) { T const& ct = t; auto a = t.sum_lower_bound(target); auto b = ct.sum_lower_bound(target); auto c = t.sum_lower_bound_const(target); CHECK(a == b && b == c, "const variants of sum_lower_bound() differ"); }
    if (shared) { sym_reach("shared"); search(snap, old, target); }
    if (t.depth() >= 3) sym_reach("depth>=3");
    { auto it = t.sum_lower_bound(target); sym_observe(it == t.end()); sym_observe((u64)t.sum()); }
}
