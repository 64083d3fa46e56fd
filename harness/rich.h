// Sequence trees with a selectable set of derived queries.  TREE 0 plain, 1 indexed, 2 indexed+summed, 3 summed+min, 4 max+indexed
#pragma once
#include "common.h"
#ifndef TREE
#define TREE 0
#endif
#ifndef ELEM
#define ELEM u32
#endif
typedef ELEM E;
#if TREE == 0
typedef BppTree<E, LEAFB(E), INTLB(0), DEPTH>::mixins<> Tr;
#elif TREE == 1
typedef BppTree<E, LEAFB(E), INTLB(8), DEPTH>::mixins<IndexedBuilder<>> Tr;
#elif TREE == 2
typedef BppTree<E, LEAFB(E), INTLB(8 + sizeof(E)), DEPTH>::mixins<IndexedBuilder<>, SummedBuilder<>> Tr;
#elif TREE == 3
typedef BppTree<E, LEAFB(E), INTLB(2 * sizeof(E)), DEPTH>::mixins<SummedBuilder<>, MinBuilder<>> Tr;
#else
typedef BppTree<E, LEAFB(E), INTLB(8 + sizeof(E)), DEPTH>::mixins<MaxBuilder<>, IndexedBuilder<>> Tr;
#endif
typedef Tr::Transient T; typedef Tr::Persistent P; typedef Ref<E, 300> R;
template <typename Tree> static void derived(Tree const& t, R const& r) {
#if TREE == 1 || TREE == 2 || TREE == 4
    for (u64 i = 0; i < r.n; ++i) { CHECK(t.at_index(i) == r[i], "at_index() differs from the reference"); }
    CHECK((u64)t.order(t.cend()) == r.n, "order(end()) is not size()");
#endif
#if TREE == 2 || TREE == 3
    same_sums<E>(t, r, [](E const& x) { return x; });
#endif
#if TREE == 3
    if (r.n) { E m = r[0]; for (u64 i = 1; i < r.n; ++i) m = r[i] < m ? r[i] : m; CHECK(t.min() == m, "min() is not the least element"); }
#elif TREE == 4
    if (r.n) { E m = r[0]; for (u64 i = 1; i < r.n; ++i) m = m < r[i] ? r[i] : m; CHECK(t.max() == m, "max() is not the greatest element"); }
#endif
    (void)t; (void)r;
}
template <typename Tree> static void check_all(Tree const& t, R const& r) { same_sequence(t, r); derived(t, r); }
