// C04: lookups by key in trees whose keys are any non-decreasing sequence (duplicates included), any search key
#include "maps.h"
typedef Tree::Transient T; typedef Tree::Persistent P;
template <typename Tr> static u64 pos(Tr const& t, typename Tr::const_iterator const& x) { u64 i = 0; auto e = t.cend(); for (auto it = t.cbegin(); it != e; ++it, ++i) if (it == x) return i; CHECK(x == e, "a lookup returned an iterator that is neither a position of the tree nor its end"); return i; }
template <typename Tr> static void lookups(Tr const& t, MapRef const& r, K x) {
    u64 lo = r.lower(x), hi = lo; while (hi < r.n && !less_(x, r.k[hi])) ++hi;
    bool has = hi > lo;
    CHECK(t.contains(x) == has, "contains() disagrees with the keys stored");
    auto f = t.find(x); CHECK(pos(t, f) == (has ? lo : r.n), "find() is not the first element with the key (or end)");
    CHECK(t.find_const(x) == f, "find_const() differs from find()");
    auto l = t.lower_bound(x); CHECK(pos(t, l) == lo, "lower_bound() is not the first element whose key is not less");
    if (lo < r.n) { CHECK(kof(*l) == r.k[lo], "lower_bound() reads a different element"); CHECK(l.valid(), "lower_bound() of a present position is not valid()"); }
    auto u = t.upper_bound(x); CHECK(pos(t, u) == hi, "upper_bound() is not the first element whose key is greater");
    if (hi < r.n) CHECK(kof(*u) == r.k[hi], "upper_bound() reads a different element");
    if (has) {
        sym_reach("present"); if (hi > lo + 1) sym_reach("duplicates");
        CHECK(kof(*f) == r.k[lo], "find() reads a different element");
#if KIND != 3
        CHECK(t.at_key(x) == r.v[lo], "at_key() is not the value of the first element with the key"); CHECK(t[x] == r.v[lo], "operator[] is not the value of the first element with the key");
#endif
        auto b = f; if (lo + 1 < r.n) { ++b; CHECK(kof(*b) == r.k[lo + 1], "stepping forward from a lookup"); }
    } else sym_reach("absent");
    if (hi > 0) { auto b = u; --b; CHECK(kof(*b) == r.k[hi - 1], "stepping back from upper_bound()"); }
    if (lo > 0) { auto b = l; --b; CHECK(kof(*b) == r.k[lo - 1], "stepping back from lower_bound()"); }
}
extern "C" void harness() {
    T t; static MapRef r;
    u64 n = sym_param("n", 5), lo = sym_param("lo", 0), shape = sym_choice(sym_param("shapes", 3), "shape");
    n = lo + sym_choice(n - lo + 1, "n");
    for (u64 i = 0; i < n; ++i) { r.k[i] = sym_param("ckeys", 0) ? (K)(CMPK == 1 ? n - i : i + 1) * 0x20 : (K)sym_u8("key"); r.v[i] = sym_u32("elem"); if (i) sym_assume(!less_(r.k[i], r.k[i - 1])); }
    r.n = n;
    // positional construction, so that duplicates are possible
    if (shape == 0) for (u64 i = 0; i < n; ++i) t.push_back(mk(r.k[i], r.v[i]));
    else if (shape == 1) for (u64 i = n; i-- > 0;) t.push_front(mk(r.k[i], r.v[i]));
    else { for (u64 i = 0; i < n; i += 2) t.push_back(mk(r.k[i], r.v[i])); for (u64 i = 1; i < n; i += 2) { auto it = t.begin() + (i64)i; t.insert(it, mk(r.k[i], r.v[i])); } }
    u64 cut = sym_param("cut", 0) ? sym_choice(n + 1, "cut") : n;
    if (cut < n) { auto it = t.begin() + (i64)cut; t.erase(it); r.erase(cut); }
    if (sym_param("edit", 0) && r.n) {      // an entry replaced by one that still fits, after a snapshot
        auto snap = t.persistent();
        u64 i = sym_choice(r.n, "at"); K k = (K)sym_u8("newkey"); sym_assume((i == 0 || !less_(k, r.k[i - 1])) && (i + 1 >= r.n || !less_(r.k[i + 1], k)));
        auto it = t.begin() + (i64)i; t.assign(it, mk(k, r.v[i])); r.k[i] = k;
    }
    K x = sym_param("ckeys", 0) ? (K)sym_u32("x") : (K)sym_u8("x");
    lookups(t, r, x);
    P p = t.persistent(); lookups(p, r, x);
    auto m = t.find(x); u64 lo2 = r.lower(x); bool has = r.at(lo2, x);
    CHECK((m == t.end()) == !has, "find() on a mutable tree"); if (has) CHECK(kof(m.get()) == r.k[lo2], "find() on a mutable tree reads a different element");
    auto ml = t.lower_bound(x), mu = t.upper_bound(x); CHECK((ml < mu) == has, "lower_bound() < upper_bound() exactly for present keys");
    sym_observe(t.contains(x)); sym_observe(t.depth());
    if (t.depth() >= 3) sym_reach("depth>=3");
}
