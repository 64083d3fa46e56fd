// Ordered trees: element kinds, comparators and the sorted-array reference
#pragma once
#include "common.h"
typedef u32 K; typedef u32 V;
// KIND 0 pair keyed by first, 1 pair keyed by second, 2 tuple keyed by element 0, 3 set, 4 tuple keyed by element 1
#ifndef KIND
#define KIND 0
#endif
#ifndef CMPK
#define CMPK 0
#endif
#ifndef BINARY
#define BINARY false
#endif
#if CMPK == 0
typedef bpptree::detail::MinComparator Cmp;
#elif CMPK == 1
struct Cmp { bool operator()(K const& a, K const& b) const { return b < a; } };
#else
struct Cmp { bool operator()(K const& a, K const& b) const { return (a >> 4) < (b >> 4); } };   // equivalence classes of 16 keys
#endif
#if KIND == 0
typedef std::pair<K, V> KV; typedef PairExtractor<0> Extr;
inline KV mk(K k, V v) { return {k, v}; } inline K kof(KV const& e) { return e.first; } inline V vof(KV const& e) { return e.second; }
#elif KIND == 1
typedef std::pair<V, K> KV; typedef PairExtractor<1> Extr;
inline KV mk(K k, V v) { return {v, k}; } inline K kof(KV const& e) { return e.second; } inline V vof(KV const& e) { return e.first; }
#elif KIND == 2
typedef std::tuple<K, V> KV; typedef TupleExtractor<0> Extr;
inline KV mk(K k, V v) { return {k, v}; } inline K kof(KV const& e) { return std::get<0>(e); } inline V vof(KV const& e) { return std::get<1>(e); }
#elif KIND == 4
typedef std::tuple<V, K> KV; typedef TupleExtractor<1> Extr;
inline KV mk(K k, V v) { return {v, k}; } inline K kof(KV const& e) { return std::get<1>(e); } inline V vof(KV const& e) { return std::get<0>(e); }
#else
typedef K KV; typedef ValueExtractor Extr;
inline KV mk(K k, V) { return k; } inline K kof(KV const& e) { return e; } inline V vof(KV const& e) { return e; }
#endif
typedef BppTree<KV, LEAFB(KV), INTLB(sizeof(K)), DEPTH>::mixins<OrderedBuilder<Extr, Cmp>::binary_search<BINARY>> Tree;
static const Cmp less_{};
struct MapRef {
    K k[300]; V v[300]; u64 n = 0;
    u64 lower(K x) const { u64 i = 0; while (i < n && less_(k[i], x)) ++i; return i; }
    bool at(u64 i, K x) const { return i < n && !less_(x, k[i]); }
    void insert(u64 i, K x, V y) { for (u64 j = n; j > i; --j) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; ++n; }
    void erase(u64 i) { for (u64 j = i; j + 1 < n; ++j) { k[j] = k[j + 1]; v[j] = v[j + 1]; } --n; }
};
template <typename T>
void same_map(T const& t, MapRef const& r) {
    CHECK(t.size() == r.n, "size() differs from the reference map");
    u64 i = 0; auto e = t.cend();
    for (auto it = t.cbegin(); it != e; ++it, ++i) {
        CHECK(i < r.n, "the tree holds more entries than the reference map");
        CHECK(kof(*it) == r.k[i], "a key differs from the reference map");
#if KIND != 3
        CHECK(vof(*it) == r.v[i], "a value differs from the reference map");
#endif
    }
    CHECK(i == r.n, "the tree holds fewer entries than the reference map");
}
