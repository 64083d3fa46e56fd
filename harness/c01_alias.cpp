// C01: inserting a value that is itself an element of the tree being edited
#include "common.h"
typedef BppTree<u32, LEAFB(u32), INTLB(0), DEPTH>::Transient T;
extern "C" void harness() {
    T t; Ref<u32> r;
    build(t, r, 0, 1 + sym_choice(sym_param("n", 6), "n"));
    u64 from = sym_choice(r.n, "from"), to = sym_choice(r.n + 1, "to"), how = sym_choice(3, "how");
    auto src = t.cbegin() + (i64)from; u32 v = r[from];
    if (how == 0) { auto it = t.begin() + (i64)to; t.insert(it, *src); r.insert(to, v); }
    else if (how == 1) { t.push_front(*src); r.insert(0, v); }
    else { t.push_back(*src); r.insert(r.n, v); }
    u64 i = 0; for (auto it = t.cbegin(); it != t.cend(); ++it, ++i) CHECK(*it == r[i], "inserting a reference to an element of the same tree stores another element's value");
    CHECK(i == r.n, "size after inserting an element of the same tree");
    sym_reach("done");
}
