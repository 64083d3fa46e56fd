// Shared pieces of the harnesses: reference model (a plain array), configurable small trees, builders of pre-states,
// symbolic editing steps and full-content comparisons.
#pragma once
#include "sym.h"
#include <tuple>
#include <utility>
#include <functional>
#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
#include "bpptree/min.hpp"
#include "bpptree/max.hpp"

// node geometry of this build (elements per leaf, children per internal node); see the driver for those explored
#ifndef LN
#define LN 2
#endif
#ifndef IN
#define IN 4
#endif
#ifndef DEPTH
#define DEPTH 5
#endif
#ifdef BIG                                    // the library's default node sizes
#define LEAFB(V) 512
#define INTLB(MIX) 512
#else
#define LEAFB(V) ((int)(8 + LN * sizeof(V)))
#define INTLB(MIX) ((int)((8 + IN * (8 + (MIX)) + 7) / 8 * 8))
#endif
using namespace bpptree;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

// ------------------------------------------------------------------ reference model: concrete length and positions
template <typename T, int CAP = 96>
struct Ref {
    T a[CAP]; u64 n = 0;
    void insert(u64 i, T v) { for (u64 j = n; j > i; --j) a[j] = a[j - 1]; a[i] = v; ++n; }
    void erase(u64 i) { for (u64 j = i; j + 1 < n; ++j) a[j] = a[j + 1]; --n; }
    void assign(u64 i, T v) { a[i] = v; }
    T& operator[](u64 i) { return a[i]; }
    T const& operator[](u64 i) const { return a[i]; }
};

// an element that a move or the destructor leaves changed: what is read afterwards differs from what was stored
struct Mv {
    u32 v;
    Mv() : v(0) {}
    explicit Mv(u64 x) : v((u32)x) {}
    Mv(Mv const& o) : v(o.v) {}
    Mv(Mv&& o) noexcept : v(o.v) { o.v = ~o.v; }
    Mv& operator=(Mv const& o) { v = o.v; return *this; }
    Mv& operator=(Mv&& o) noexcept { u32 x = o.v; o.v = ~x; v = x; return *this; }
    ~Mv() { *(volatile u32*)&v = v ^ 0x55; }
    bool operator==(Mv const& o) const { return v == o.v; }
    bool operator!=(Mv const& o) const { return v != o.v; }
    bool operator<(Mv const& o) const { return v < o.v; }
    Mv operator^(Mv const& o) const { return Mv((u64)(v ^ o.v)); }
    Mv& operator^=(Mv const& o) { v ^= o.v; return *this; }
    explicit operator u64() const { return v; }
};

// fresh symbolic element values
#ifndef VBITS
#define VBITS (sizeof(V) * 8)               // number of symbolic bits per element value
#endif
template <typename V> struct Fresh { static V get(const char* n) { return (V)sym_var(VBITS, n); } };
template <typename A, typename B> struct Fresh<std::pair<A, B>> { static std::pair<A, B> get(const char* n) { A a = Fresh<A>::get(n); B b = Fresh<B>::get(n); return {a, b}; } };

template <typename V> struct Const { static V get(u32 n) { return (V)n; } };
template <typename A, typename B> struct Const<std::pair<A, B>> { static std::pair<A, B> get(u32 n) { return {(A)n, (B)~n}; } };

// ------------------------------------------------------------------ full comparisons
template <typename Tree, typename R>
void same_sequence(Tree const& t, R const& r) {
    CHECK(t.size() == r.n, "size() differs from the reference");
    CHECK(t.empty() == (r.n == 0), "empty() differs from the reference");
    u64 i = 0;
    auto e = t.cend();
    for (auto it = t.cbegin(); it != e; ++it) {
        CHECK(i < r.n, "traversal visits more elements than the reference holds");
        CHECK(*it == r[i], "traversal yields a different element than the reference");
        ++i;
    }
    CHECK(i == r.n, "traversal visits fewer elements than the reference holds");
    if (r.n) {
        CHECK(t.front() == r[0], "front() differs from the reference");
        CHECK(t.back() == r[r.n - 1], "back() differs from the reference");
    }
}
template <typename Tree, typename R>
void same_reverse(Tree const& t, R const& r) {
    u64 i = r.n;
    if (r.n == 0) return;
    auto e = t.crend();
    for (auto it = t.crbegin(); it != e; ++it) {
        CHECK(i > 0, "reverse traversal visits more elements than the reference holds");
        --i;
        CHECK(*it == r[i], "reverse traversal yields a different element than the reference");
    }
    CHECK(i == 0, "reverse traversal visits fewer elements than the reference holds");
}
template <typename Tree, typename R>
void observe_all(Tree const& t, R const& r) {     // compared with the compiled code on sampled paths
    sym_observe(t.size()); sym_observe(t.depth());
    u64 i = 0; auto e = t.cend();
    for (auto it = t.cbegin(); it != e && i < r.n; ++it, ++i) sym_observe((u64)*it);
}
// index-based queries
template <typename Tree, typename R>
void same_indexed(Tree const& t, R const& r) {
    for (u64 i = 0; i < r.n; ++i) {
        CHECK(t.at_index(i) == r[i], "at_index() differs from the reference");
        CHECK(t[i] == r[i], "operator[] differs from the reference");
        auto it = t.find_index(i);
        CHECK(*it == r[i], "find_index() designates a different element");
        CHECK((u64)t.order(it) == i, "order(find_index(i)) != i");
    }
    CHECK((u64)t.order(t.cend()) == r.n, "order(end()) != size()");
    if (r.n) { auto it = t.find_index(r.n); CHECK(it == t.cend(), "find_index(size()) is not end()"); }
}
// prefix sums; W is the sum type
template <typename W, typename Tree, typename R, typename X>
void same_sums(Tree const& t, R const& r, X extract) {
    W s{}; auto it = t.cbegin();
    for (u64 i = 0; i < r.n; ++i, ++it) {
        CHECK(t.sum_exclusive(it) == s, "sum_exclusive() differs from the sum of the preceding elements");
        s = (W)(s + extract(r[i]));
        CHECK(t.sum_inclusive(it) == s, "sum_inclusive() differs from the sum up to the element");
    }
    CHECK(t.sum_exclusive(t.cend()) == s, "sum_exclusive(end()) differs from the total");
    CHECK(t.sum() == s, "sum() differs from the total");
}

// ------------------------------------------------------------------ pre-states
// shapes: 0 appended, 1 prepended, 2 inserted in the middle, 3 appended then every other element erased, 4 appended
// then a block erased from the middle, 5 inserted alternately at 1/3 and 2/3; only on request (parameter shape): 6 and 7
// appended with "gone" more elements that are then erased behind the first, or before the last: nodes with one child
enum { SHAPES = 6, ALLSHAPES = 8 };
template <typename T, typename R>
void put(T& t, R& r, u64 pos) {
#ifdef CONCRETE_FILL                                // data independence: distinct constants in the pre-state
    static u32 ctr = 0x51; std::decay_t<decltype(r[0])> v = Const<std::decay_t<decltype(r[0])>>::get(ctr += 0x11);
#else
    auto v = Fresh<std::decay_t<decltype(r[0])>>::get("elem");
#endif
    if (pos == r.n) t.push_back(v);
    else if (pos == 0) t.push_front(v);
    else { auto it = t.begin() + (i64)pos; t.insert(it, v); }
    r.insert(pos, v);
}
template <typename T, typename R>
void drop(T& t, R& r, u64 pos) { auto it = t.begin() + (i64)pos; t.erase(it); r.erase(pos); }
template <typename T, typename R>
void build(T& t, R& r, u64 shape, u64 n) {
    switch (shape) {
        case 0: for (u64 i = 0; i < n; ++i) put(t, r, r.n); break;
        case 1: for (u64 i = 0; i < n; ++i) put(t, r, 0); break;
        case 2: for (u64 i = 0; i < n; ++i) put(t, r, r.n / 2); break;
        case 3: for (u64 i = 0; i < 2 * n; ++i) put(t, r, r.n); for (u64 i = 0; i < n; ++i) drop(t, r, i); break;
        case 4: for (u64 i = 0; i < 2 * n; ++i) put(t, r, r.n); for (u64 i = 0; i < n; ++i) drop(t, r, n / 2); break;
        case 6: case 7: { u64 gone = sym_param("gone", LN * IN); for (u64 i = 0; i < n + gone; ++i) put(t, r, r.n); for (u64 i = 0; i < gone; ++i) drop(t, r, n < 2 ? 0 : shape == 6 ? 1 : n - 1); break; }
        default: for (u64 i = 0; i < n; ++i) put(t, r, i & 1 ? r.n / 3 : r.n - r.n / 3); break;
    }
}
// append n elements, then erase an arbitrary subset of at most maxerase of them: one path per subset
template <typename T, typename R>
void build_holes(T& t, R& r, u64 n, u64 maxerase) {
    for (u64 i = 0; i < n; ++i) put(t, r, r.n);
    u64 e = 0;
    for (u64 i = n; i-- > 0;) if (e < maxerase && sym_choice(2, "hole")) { drop(t, r, i); ++e; }
}

// the pre-state selected by the parameters: mode 0 one of the shapes with lo..n elements (shape=s: only that one),
// mode 1 an arbitrary subset erased from n appended elements, mode 2 empty
template <typename T, typename R>
void prestate(T& t, R& r, u64 n0 = 6) {
    u64 mode = sym_param("mode", 0), n = sym_param("n", n0), lo = sym_param("lo", 0), only = sym_param("shape", 99);
    if (mode == 1) build_holes(t, r, n, sym_param("holes", n));
    else if (mode == 0) {
        u64 sh = only < ALLSHAPES ? only : sym_choice(sym_param("shapes", SHAPES), "shape");
        build(t, r, sh, lo < n ? lo + sym_choice(n - lo + 1, "n") : n);
    }
}

// ------------------------------------------------------------------ one symbolic edit through the positional interface
enum { OP_PUSHB, OP_PUSHF, OP_POPB, OP_POPF, OP_INS, OP_ERA, OP_ASG, OP_UPD, OP_CLR, OP_N };
template <typename T, typename R>
u64 edit(T& t, R& r, u64 ops = OP_N) {
    typedef std::decay_t<decltype(r[0])> V;
    u64 op = sym_choice(ops, "op");
    if (!r.n) { sym_assume(op != OP_POPB && op != OP_POPF && op != OP_ERA && op != OP_ASG && op != OP_UPD); }
    switch (op) {
        case OP_PUSHB: { V v = Fresh<V>::get("val"); t.push_back(v); r.insert(r.n, v); break; }
        case OP_PUSHF: { V v = Fresh<V>::get("val"); t.push_front(v); r.insert(0, v); break; }
        case OP_POPB: { V x = t.pop_back(); CHECK(x == r[r.n - 1], "pop_back() returned a different value"); r.erase(r.n - 1); break; }
        case OP_POPF: { V x = t.pop_front(); CHECK(x == r[0], "pop_front() returned a different value"); r.erase(0); break; }
        case OP_INS: { u64 p = sym_choice(r.n + 1, "pos"); V v = Fresh<V>::get("val"); auto it = t.begin() + (i64)p; t.insert(it, v); r.insert(p, v); break; }
        case OP_ERA: { u64 p = sym_choice(r.n, "pos"); auto it = t.begin() + (i64)p; t.erase(it); r.erase(p); break; }
        case OP_ASG: { u64 p = sym_choice(r.n, "pos"); V v = Fresh<V>::get("val"); auto it = t.begin() + (i64)p; t.assign(it, v); r[p] = v; break; }
        case OP_UPD: { u64 p = sym_choice(r.n, "pos"); V v = Fresh<V>::get("val"); V seen{}; auto it = t.begin() + (i64)p;
            t.update(it, [&](V const& old) { seen = old; return v; }); CHECK(seen == r[p], "update() passed a different element to the updater"); r[p] = v; break; }
        case OP_CLR: t.clear(); r.n = 0; break;
    }
    return op;
}
