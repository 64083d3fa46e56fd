// C27: the options of BppTreeMap, BppTreeSet, BppTreeVector and the mixin builders configure the tree they name, in whatever order they are given
#ifndef BPPTREE_DISABLE_EXCEPTIONS
#error "compiled with BPPTREE_DISABLE_EXCEPTIONS set to each value"
#endif
#define DEPTH 3
#include "common.h"
struct Boom {};
// copying a value of 0 throws
struct Vx { u32 v; Vx(u32 v = 1) : v(v) {} Vx(Vx const& o) : v(o.v) { if (!v) throw Boom(); } Vx(Vx&& o) noexcept : v(o.v) {} Vx& operator=(Vx const& o) { if (!o.v) throw Boom(); v = o.v; return *this; } Vx& operator=(Vx&& o) noexcept { v = o.v; return *this; } bool operator==(Vx const& o) const { return v == o.v; } };
typedef u32 K; typedef std::pair<K, Vx> KV;
struct Greater { bool operator()(K const& a, K const& b) const { return b < a; } bool operator()(Vx const& a, Vx const& b) const { return b.v < a.v; } };
struct Low { bool operator()(u32 const& a, u32 const& b) const { return (a & 0xf) < (b & 0xf); } };
struct Ex { template <typename... A> u32 operator()(A const&... a) const { return PairExtractor<1>()(a...).v; } };
#define LB LEAFB(KV)
#define IB INTLB(sizeof(K) + 4 + 4)
template <typename M> using MixM = typename M::template mixins<SummedBuilder<Ex>, typename MinBuilder<>::template extractor<Ex>::template compare<Low>>;
typedef MixM<BppTreeMap<K, Vx>::compare<Greater>::binary_search<true>::leaf_node_bytes<LB>::internal_node_bytes<IB>::depth_limit<3>::disable_exceptions<false>> M0;
typedef MixM<BppTreeMap<K, Vx>::binary_search<true>::leaf_node_bytes<LB>::internal_node_bytes<IB>::depth_limit<3>::disable_exceptions<false>::compare<Greater>> M1;
typedef MixM<BppTreeMap<K, Vx>::leaf_node_bytes<LB>::internal_node_bytes<IB>::depth_limit<3>::disable_exceptions<false>::compare<Greater>::binary_search<true>> M2;
typedef MixM<BppTreeMap<K, Vx>::internal_node_bytes<IB>::depth_limit<3>::disable_exceptions<false>::compare<Greater>::leaf_node_bytes<LB>> M3;
typedef MixM<BppTreeMap<K, Vx>::depth_limit<3>::disable_exceptions<false>::compare<Greater>::binary_search<false>::leaf_node_bytes<LB>::internal_node_bytes<IB>> M4;
typedef MixM<BppTreeMap<K, Vx>::disable_exceptions<false>::compare<Greater>::leaf_node_bytes<LB>::internal_node_bytes<IB>::depth_limit<3>> M5;
// the same tree spelled out
typedef BppTree<KV, LB, IB, 3, false>::mixins<OrderedBuilder<PairExtractor<0>, Greater>, SummedBuilder<Ex>, MinBuilder<Ex, Low>> MD;
typedef BppTree<KV, LB, IB, 3, false>::mixins<OrderedBuilder<>::binary_search<true>::compare<Greater>::extractor<PairExtractor<0>>, SummedBuilder<Ex>, MinBuilder<>::compare<Low>::extractor<Ex>> MB;
#define SLB LEAFB(Vx)
#define SIB INTLB(sizeof(K))
typedef BppTreeSet<Vx>::compare<Greater>::binary_search<true>::leaf_node_bytes<SLB>::internal_node_bytes<SIB>::depth_limit<3>::disable_exceptions<false>::mixins<> S0;
typedef BppTreeSet<Vx>::disable_exceptions<false>::binary_search<true>::leaf_node_bytes<SLB>::internal_node_bytes<SIB>::depth_limit<3>::compare<Greater>::mixins<> S1;
typedef BppTreeSet<Vx>::leaf_node_bytes<SLB>::internal_node_bytes<SIB>::depth_limit<3>::disable_exceptions<false>::compare<Greater>::binary_search<false>::mixins<> S2;
typedef BppTreeSet<Vx>::internal_node_bytes<SIB>::depth_limit<3>::disable_exceptions<false>::compare<Greater>::leaf_node_bytes<SLB>::mixins<> S3;
typedef BppTreeSet<Vx>::depth_limit<3>::disable_exceptions<false>::compare<Greater>::leaf_node_bytes<SLB>::internal_node_bytes<SIB> S4b; struct S4 { typedef S4b::Transient Transient; typedef S4b::Persistent Persistent; };
typedef BppTree<Vx, SLB, SIB, 3, false>::mixins<OrderedBuilder<>::extractor<ValueExtractor>::compare<Greater>> SD;
typedef uint8_t SZ;
#define VLB LEAFB(Vx)
#define VIB INTLB(8)    // (the options given so far must make a valid tree at every step, so there is room for an index of 8 bytes)
typedef BppTreeVector<Vx>::size_type<SZ>::leaf_node_bytes<VLB>::internal_node_bytes<VIB>::depth_limit<3>::disable_exceptions<false>::mixins<> V0;
typedef BppTreeVector<Vx>::leaf_node_bytes<VLB>::internal_node_bytes<VIB>::depth_limit<3>::disable_exceptions<false>::size_type<SZ>::mixins<> V1;
typedef BppTreeVector<Vx>::internal_node_bytes<VIB>::depth_limit<3>::disable_exceptions<false>::size_type<SZ>::leaf_node_bytes<VLB>::mixins<> V2;
typedef BppTreeVector<Vx>::depth_limit<3>::disable_exceptions<false>::size_type<SZ>::leaf_node_bytes<VLB>::internal_node_bytes<VIB>::mixins<> V3;
typedef BppTreeVector<Vx>::disable_exceptions<false>::size_type<SZ>::leaf_node_bytes<VLB>::internal_node_bytes<VIB>::depth_limit<3> V4b; struct V4 { typedef V4b::Transient Transient; typedef V4b::Persistent Persistent; };
typedef BppTree<Vx, VLB, VIB, 3, false>::mixins<IndexedBuilder<SZ>> VD;
static K kof(KV const& e) { return e.first; } static K kof(Vx const& e) { return e.v; }
static KV mk(K k, u32 v, KV*) { return KV(k, Vx(v)); } static Vx mk(K k, u32 v, Vx*) { return Vx(v ? k : 0); }
static K probe(K k, KV*) { return k; } static Vx probe(K k, Vx*) { return Vx(k); }
// two trees built by the same calls: the same elements in the same nodes
template <typename A, typename B> static void alike(A const& a, B const& b) {
    CHECK(a.size() == b.size() && a.depth() == b.depth(), "the tree differs in size or depth from the one spelled out");
    auto i = a.cbegin(); auto j = b.cbegin(); for (; j != b.cend(); ++i, ++j) CHECK(i != a.cend() && *i == *j, "the tree differs in content from the one spelled out");
    CHECK(i == a.cend(), "the tree holds more than the one spelled out");
}
template <typename A, typename D, typename E> static void keyed() {
    typename A::Transient a; typename D::Transient d; u64 n = sym_param("n", 5), zero = 0;
    u64 b0 = sym_allocs(), ba = 0, bd = 0;
    CHECK(a.max_depth() == d.max_depth() && a.max_depth() == 3, "the depth limit is not the one given");
    for (u64 i = 0; i < n; ++i) {
        K k = i + 1 == n ? (K)sym_var(8, "key") : (K)(i * 5 % 13 + 1) * 8;
        u32 v = i + 1 == n ? (u32)sym_var(8, "val") : (u32)i + 1; E const e(mk(k, v, (E*)nullptr)); bool ta = false, td = false; b0 = sym_allocs();
        try { a.insert_or_assign(e); } catch (Boom&) { ta = true; } ba += sym_allocs() - b0; b0 = sym_allocs();
        try { d.insert_or_assign(e); } catch (Boom&) { td = true; } bd += sym_allocs() - b0;
        CHECK(ta == td, "an exception is not passed on as by the tree spelled out"); if (td) { sym_reach("exception"); zero = 1; break; }
    }
    if (!zero) CHECK(ba == bd, "the tree uses other nodes than the one spelled out");
    alike(a, d);
    auto p = a.persistent(); typename A::Persistent q(p); alike(q, d);
    K x = (K)sym_var(8, "x"); sym_assume(x); CHECK(a.contains(probe(x, (E*)nullptr)) == d.contains(probe(x, (E*)nullptr)), "looking up a key gives another answer than in the tree spelled out");
    if constexpr ((sizeof(E) > 4)) if (a.size()) { CHECK(a.sum() == d.sum(), "the sum differs from the tree spelled out"); CHECK((a.min() & 0xf) == (d.min() & 0xf), "the minimum differs from the tree spelled out"); }
    for (auto it = a.cbegin(); it != a.cend();) { K k = kof(*it); if (++it == a.cend()) break; CHECK(k > kof(*it), "the comparator is not the one given"); }
    sym_observe(a.size()); sym_observe(a.depth());
}
template <typename A> static void vec() {
    typename A::Transient a; typename VD::Transient d; u64 n = sym_param("n", 5) + 4, ba = 0, bd = 0;
    static_assert(sizeof(a.order(a.cbegin())) == sizeof(SZ), "the index type is not the one given");
    CHECK(a.max_depth() == d.max_depth(), "the depth limit is not the one given");
    for (u64 i = 0; i < n; ++i) {
        u32 v = i + 1 == n ? (u32)sym_var(8, "val") : (u32)i + 1; Vx x(v); bool ta = false, td = false; u64 pos = i ? sym_choice(i > 4 ? 2 : 1, "pos") * (i - 1) : 0, b0 = sym_allocs();
        try { auto it = a.begin() + (i64)pos; a.insert(it, x); } catch (Boom&) { ta = true; } ba += sym_allocs() - b0; b0 = sym_allocs();
        try { auto it = d.begin() + (i64)pos; d.insert(it, x); } catch (Boom&) { td = true; } bd += sym_allocs() - b0;
        CHECK(ta == td, "an exception is not passed on as by the tree spelled out"); if (td) sym_reach("exception"); else CHECK(ba == bd, "the tree uses other nodes than the one spelled out");
        if (td) break;
    }
    alike(a, d); auto p = a.persistent(); typename A::Persistent q(p); alike(q, d);
    for (u64 i = 0; i < a.size(); ++i) CHECK(a.at_index((SZ)i) == d.at_index((SZ)i), "at_index() differs from the tree spelled out");
    if (a.depth() == 3) sym_reach("at the depth limit"); sym_observe(a.size()); sym_observe(a.depth());
}
extern "C" void harness() {
#if WHAT == 0
    switch (sym_choice(7, "alias")) { case 0: keyed<M0, MD, KV>(); break; case 1: keyed<M1, MD, KV>(); break; case 2: keyed<M2, MD, KV>(); break; case 3: keyed<M3, MD, KV>(); break; case 4: keyed<M4, MD, KV>(); break; case 5: keyed<M5, MD, KV>(); break; default: keyed<MB, MD, KV>(); break; }
#elif WHAT == 1
    switch (sym_choice(5, "alias")) { case 0: keyed<S0, SD, Vx>(); break; case 1: keyed<S1, SD, Vx>(); break; case 2: keyed<S2, SD, Vx>(); break; case 3: keyed<S3, SD, Vx>(); break; default: keyed<S4, SD, Vx>(); break; }
#else
    switch (sym_choice(5, "alias")) { case 0: vec<V0>(); break; case 1: vec<V1>(); break; case 2: vec<V2>(); break; case 3: vec<V3>(); break; default: vec<V4>(); break; }
#endif
}
