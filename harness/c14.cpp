// C14: stepping and jumping; the distance is symbolic, the start a free choice, for every kind of iterator
#include "rich.h"
#ifndef VIA
#define VIA 2      // 0 forward, 1 reverse, 2 both
#endif
template <typename It> static void same_place(It const& it, It const& end, R const& r, u64 p, bool rev) {    // p in traversal order
    if (p == r.n) { CHECK(it == end, "a jump to the end gives something else"); }
    else { CHECK(it != end, "a jump to an element gives the end"); CHECK(it.get() == r[rev ? r.n - 1 - p : p], "a jump reaches a different element"); CHECK(it.valid(), "the iterator of an element is not valid()"); }
}
template <typename It> static void jumps(It const& b, It const& e, R const& r, bool rev, u64 a) {
    It it = b + (i64)a; same_place(it, e, r, a, rev);
    u64 q = sym_below(r.n + 1, "to"); i64 d = (i64)q - (i64)a;
    It j = it; u64 how = sym_choice(4, "how");
    switch (how) {
        case 0: j = it + d; break;
        case 1: j = it - (-d); break;
        case 2: j += d; break;
        default: j -= -d; break;
    }
    u64 c = sym_concretize(q); same_place(j, e, r, c, rev);
    if (c < r.n) { It k = j; ++k; same_place(k, e, r, c + 1, rev); It l = j++; same_place(l, e, r, c, rev); same_place(j, e, r, c + 1, rev); CHECK(j == k, "post-increment and pre-increment disagree"); It m = j--; CHECK(m == k, "post-decrement yields a different iterator"); same_place(j, e, r, c, rev);
        E const& x = it[(i64)c - (i64)a]; CHECK(x == r[rev ? r.n - 1 - c : c], "it[n] is not the element n further"); }
    if (c > 0) { It k = j; --k; same_place(k, e, r, c - 1, rev); }
    It w = j; w += 0; CHECK(w == j, "a jump by zero moves");
}
template <typename It> static void walk(It it, It const& e, R const& r, bool rev) {
    It b = it; u64 i = 0; for (; it != e; ++it, ++i) { CHECK(i < r.n, "a traversal visits too many elements"); CHECK(it.get() == r[rev ? r.n - 1 - i : i], "a traversal visits a different element"); CHECK(*it.operator->() == r[rev ? r.n - 1 - i : i], "operator-> designates a different element"); }
    CHECK(i == r.n, "a traversal visits too few elements");
    while (i > 0) { --it; --i; CHECK(it.get() == r[rev ? r.n - 1 - i : i], "a backward walk visits a different element"); }
    if (r.n) CHECK(it == b, "a walk back does not return to the beginning");
}
extern "C" void harness() {
    T t; static R r; prestate(t, r);
    bool walkOnly = sym_param("walk", 0); if (!walkOnly && !r.n) sym_assume(false);
    P p; bool tr = sym_param("kinds", 6) == 6; u64 kind = sym_choice(sym_param("kinds", 6), "kind"); (void)tr;
    u64 a = walkOnly ? 0 : sym_choice(r.n + 1, "start");
    T const& c = t;
    auto go = [&](auto b, auto e, bool rev) { if (walkOnly) walk(b, e, r, rev); else jumps(b, e, r, rev, a); };
    switch (kind) {
        case 0: go(t.begin(), t.end(), false); break;
        case 1: go(t.rbegin(), t.rend(), true); sym_reach("reverse"); break;
        case 2: go(c.begin(), c.end(), false); break;
        case 3: go(c.rbegin(), c.rend(), true); break;
        case 4: p = t.persistent(); go(p.cbegin(), p.cend(), false); break;
        default: p = t.persistent(); go(p.crbegin(), p.crend(), true); break;
    }
    // an iterator older than an assignment that copied shared nodes
    if (sym_param("stale", 0)) {
        P s = t.persistent(); auto it = t.begin() + (i64)a; u64 w = sym_choice(r.n, "assigned"); E x = Fresh<E>::get("val"); t.assign(t.begin() + (i64)w, x); r[w] = x;
        if (sym_choice(2, "drop")) s = P();
        u64 q = sym_below(r.n + 1, "to2"); it += (i64)q - (i64)a; u64 cc = sym_concretize(q); same_place(it, t.end(), r, cc, false); sym_reach("stale");
        auto rt = t.rbegin() + (i64)(cc < r.n ? r.n - 1 - cc : 0); t.assign(t.begin() + (i64)w, x); ++rt; if (cc > 0 && cc < r.n) CHECK(rt.get() == r[cc - 1], "stepping a reverse iterator after an assignment");
    }
    if (t.depth() >= 3) sym_reach("depth>=3");
    observe_all(t, r);
}
