// C02: index-addressed operations with symbolic indices
#include "common.h"
#ifndef SZ
#define SZ size_t
#endif
typedef BppTreeVector<u32, SZ, LEAFB(u32), INTLB(sizeof(SZ)), DEPTH>::Transient T;
typedef Ref<u32, 700> R;
static void queries(T const& t, R const& r) {
    if (!r.n) { CHECK((u64)t.order(t.cend()) == 0, "order(end()) of an empty tree"); return; }
    u64 q = sym_below(r.n, "query");
    CHECK(t.at_index((SZ)q) == r[q], "at_index(i) is not the i-th element");
    CHECK(t[(SZ)q] == r[q], "operator[](i) is not the i-th element");
    auto it = t.find_index((SZ)q);
    CHECK(*it == r[q], "find_index(i) does not designate the i-th element");
    CHECK((u64)t.order(it) == q, "order(find_index(i)) != i");
    CHECK((u64)t.order(t.cend()) == r.n, "order(end()) != size()");
    auto e = t.find_index_const((SZ)r.n); CHECK(e == t.cend(), "find_index(size()) is not end()");
}
static void step(T& t, R& r) {
    u64 op = sym_choice(6, "op");
    if (!r.n) sym_assume(op == 0);
    switch (op) {
        case 0: { u64 i = sym_below(r.n + 1, "i"); u32 v = sym_u32("v"); t.insert_index((SZ)i, v); r.insert(sym_concretize(i), v); break; }
        case 1: { u64 i = sym_below(r.n, "i"); t.erase_index((SZ)i); r.erase(sym_concretize(i)); break; }
        case 2: { u64 i = sym_below(r.n, "i"); u32 v = sym_u32("v"); t.assign_index((SZ)i, v); r[sym_concretize(i)] = v; break; }
        case 3: { u64 i = sym_below(r.n, "i"); u32 v = sym_u32("v"), seen = 0; t.update_index((SZ)i, [&](u32 const& o) { seen = o; return v ^ o; });
                  i = sym_concretize(i); CHECK(seen == r[i], "update_index(i) passed a different element to the updater"); r[i] = v ^ r[i]; break; }
        case 4: { u64 i = sym_below(r.n, "i"); auto it = t.find_index((SZ)i); t.erase(it); i = sym_concretize(i); r.erase(i);
                  CHECK((u64)t.order(it) == i, "order of the iterator after erasing through it"); break; }
        case 5: { u64 i = sym_below(r.n, "i"); u32 v = sym_u32("v"); auto it = t.find_index((SZ)i); t.insert(it, v); i = sym_concretize(i); r.insert(i, v);
                  CHECK((u64)t.order(it) == i, "order of the iterator after inserting through it"); break; }
    }
}
extern "C" void harness() {
    T t; static R r;
    u64 n = sym_param("n", 6), lo = sym_param("lo", 0), k = sym_param("k", 1);
    if (sym_param("mode", 0)) build_holes(t, r, n, sym_param("holes", n));
    else { u64 only = sym_param("shape", 99), sh = only < ALLSHAPES ? only : sym_choice(SHAPES, "shape"); build(t, r, sh, lo + sym_choice(n - lo + 1, "n")); }
    for (u64 i = 0; i < k; ++i) step(t, r);
    queries(t, r);
    if (sym_param("full", 1)) { same_indexed(t, r); same_sequence(t, r); }
    if (t.depth() >= 3) sym_reach("depth>=3");
    observe_all(t, r);
}
