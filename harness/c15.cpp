// C15: relations between two iterators of one tree, and their distance
#include "rich.h"
template <typename A, typename B> static void relations(A const& x, B const& y, u64 i, u64 j) {      // i, j: positions in traversal order
    CHECK((x == y) == (i == j), "== disagrees with the positions"); CHECK((x != y) == (i != j), "!= disagrees with the positions");
    CHECK((x < y) == (i < j), "< disagrees with the positions"); CHECK((x > y) == (i > j), "> disagrees with the positions");
    CHECK((x <= y) == (i <= j), "<= disagrees with the positions"); CHECK((x >= y) == (i >= j), ">= disagrees with the positions");
    if (i == j) sym_reach("equal positions");
}
template <typename A, typename B> static void all(A const& b, A const& e, B const& b2, B const& e2, R const& r, u64 i, u64 j) {
    A x = b + (i64)i; B y = b2 + (i64)j;
    relations(x, y, i, j);
    if (i == r.n) relations(e, y, i, j); if (j == r.n) relations(x, e2, i, j);
#if TREE == 1 || TREE == 2 || TREE == 4
    CHECK((i64)(x - y) == (i64)i - (i64)j, "the difference of two iterators is not their distance");
    if (i == r.n) CHECK((i64)(e - y) == (i64)i - (i64)j, "the distance from the end is wrong");
    if (j == r.n) CHECK((i64)(x - e2) == (i64)i - (i64)j, "the distance to the end is wrong");
    CHECK(y + (i64)(x - y) == (b2 + (i64)i), "y + (x - y) is not x");
#endif
}
extern "C" void harness() {
    T t; static R r; prestate(t, r); if (sym_param("k", 0)) edit(t, r);
    T const& c = t; P p = t.persistent();
    // on an empty tree a step past the end is not a step to an element: only compare the ends there
    u64 i = r.n ? sym_choice(r.n + 1, "i") : 0, j = r.n ? sym_choice(r.n + 1, "j") : 0;
    switch (sym_choice(8, "kind")) {
        case 0: all(t.begin(), t.end(), t.begin(), t.end(), r, i, j); break;
        case 1: all(c.begin(), c.end(), c.begin(), c.end(), r, i, j); break;
        case 2: all(t.begin(), t.end(), c.begin(), c.end(), r, i, j); break;
        case 3: if (!r.n) break; all(t.rbegin(), t.rend(), t.rbegin(), t.rend(), r, i, j); sym_reach("reverse"); break;
        case 4: if (!r.n) break; all(c.rbegin(), c.rend(), c.rbegin(), c.rend(), r, i, j); break;
        case 5: if (!r.n) break; all(c.rbegin(), c.rend(), t.rbegin(), t.rend(), r, i, j); break;
        case 6: all(p.cbegin(), p.cend(), p.cbegin(), p.cend(), r, i, j); break;
        default: if (!r.n) break; all(p.crbegin(), p.crend(), p.crbegin(), p.crend(), r, i, j); break;
    }
    { T o; CHECK(!(o.begin() == t.begin()), "iterators of different trees compare equal"); CHECK(o.cend() != t.cend(), "iterators of different trees compare equal"); }
    if (t.depth() >= 3) sym_reach("depth>=3");
    observe_all(t, r);
}
