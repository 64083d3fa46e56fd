// C05: prefix sums after any edit; sums between any two positions
#include "common.h"
// SUMK 0: u32 elements; 1: u64; 2: i64 (bounded so that no sum overflows); 3: u8 elements summed as u64; 4: pair, sum of the second; 5: u16 elements and sums
#ifndef SUMK
#define SUMK 0
#endif
template <typename W, typename X> struct Casting { template <typename... A> W operator()(A const&... a) const { return (W)X()(a...); } };
#if SUMK == 0
typedef u32 E; typedef u32 W; typedef ValueExtractor X; static W ext(E const& e) { return e; }
#elif SUMK == 1
typedef u64 E; typedef u64 W; typedef ValueExtractor X; static W ext(E const& e) { return e; }
#elif SUMK == 2
typedef i64 E; typedef i64 W; typedef ValueExtractor X; static W ext(E const& e) { return e; }
template <> struct Fresh<i64> { static i64 get(const char* n) { return (i64)(int32_t)sym_var(32, n); } };
#elif SUMK == 3
typedef uint8_t E; typedef u64 W; typedef bpptree::detail::WrappedCastingExtractor<ValueExtractor, u64> X; static W ext(E const& e) { return e; }
#elif SUMK == 4
typedef std::pair<u32, u64> E; typedef u64 W; typedef PairExtractor<1> X; static W ext(E const& e) { return e.second; }
#else
typedef uint16_t E; typedef uint16_t W; typedef ValueExtractor X; static W ext(E const& e) { return e; }
#endif
typedef BppTree<E, LEAFB(E), INTLB(sizeof(W)), DEPTH>::mixins<SummedBuilder<X>> Tr;
typedef Tr::Transient T; typedef Tr::Persistent P; typedef Ref<E, 300> R;
extern "C" void harness() {
    T t; static R r; u64 k = sym_param("k", 1);
    prestate(t, r);
    bool shared = sym_choice(2, "snapshot"); P snap = shared ? t.persistent() : P(); static R old; if (shared) old = r; else old.n = 0;   // copy-on-write variant of every edit
    for (u64 i = 0; i < k; ++i) { edit(t, r); if (i + 1 < k) same_sums<W>(t, r, ext); }
    same_sums<W>(t, r, ext);
    if (shared) { sym_reach("shared"); same_sums<W>(snap, old, ext); }
    // an element and a range by symbolic choice, also through reverse and mutable iterators
    if (r.n) {
        u64 a = sym_choice(r.n, "a"); W before{}; for (u64 i = 0; i < a; ++i) before = (W)(before + ext(r[i]));
        auto it = t.begin() + (i64)a; CHECK(t.sum_exclusive(it) == before, "sum_exclusive of a mutable iterator");
        CHECK(t.sum_inclusive(it) == (W)(before + ext(r[a])), "sum_inclusive of a mutable iterator");
        auto rit = t.crbegin() + (i64)(r.n - 1 - a); CHECK(t.sum_exclusive(rit) == before, "sum_exclusive of a reverse iterator");
        u64 b = a + sym_choice(r.n - a + 1, "b"); W mid{}; for (u64 i = a; i < b; ++i) mid = (W)(mid + ext(r[i]));
        auto jt = t.cbegin() + (i64)b; CHECK((W)(t.sum_exclusive(jt) - t.sum_exclusive(it)) == mid, "sum between two iterators");
    }
    if (t.depth() >= 3) sym_reach("depth>=3");
    sym_observe((u64)t.sum()); { u64 i = 0; for (auto it = t.cbegin(); i < r.n; ++it, ++i) sym_observe((u64)t.sum_inclusive(it)); }
}
