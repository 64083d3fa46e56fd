// C16: iterators survive assignments and updates anywhere, with and without shared nodes
#include "rich.h"
template <typename It> static void still(T& t, R const& r, It const& it, u64 p, bool rev) {
    CHECK(it.get() == r[p], "an iterator reads something else than the current value at its position");
    CHECK(it.valid(), "an iterator of an element is not valid() any more");
    auto b = t.cbegin() + (i64)p; if (!rev) CHECK(b == it, "an iterator moved");
    It f = it; ++f; if (rev ? p > 0 : p + 1 < r.n) CHECK(f.get() == r[rev ? p - 1 : p + 1], "stepping from a kept iterator");
    It g = it; if (rev ? p + 1 < r.n : p > 0) { --g; CHECK(g.get() == r[rev ? p + 1 : p - 1], "stepping back from a kept iterator"); }
}
extern "C" void harness() {
    T t; static R r; prestate(t, r); sym_assume(r.n > 0);
    u64 a = sym_choice(r.n, "kept"), k = sym_param("k", 1); P s[2]; static R rs[2]; int ns = 0; bool keepRead = false;
    auto it = t.begin() + (i64)a; auto ct = t.cbegin() + (i64)a; auto rt = t.rbegin() + (i64)(r.n - 1 - a); auto en = t.end(), be = t.begin();
    u64 sh = sym_choice(3, "sharing");                                // 0 none, 1 a snapshot kept, 2 a snapshot dropped before reading
    for (u64 i = 0; i < k; ++i) {
        if (sh && ns < 2) { s[ns] = t.persistent(); rs[ns] = r; ++ns; }
        u64 w = sym_choice(r.n, "modified"); E x = Fresh<E>::get("val");
        auto wt = t.begin() + (i64)w; u64 route = sym_choice(TREE == 1 || TREE == 2 ? 9 : 7, "route");
        switch (route) {
            case 0: t.assign(wt, x); r[w] = x; break;
            case 1: t.update(wt, [&](E const& o) { return (E)(o ^ x); }); r[w] ^= x; break;
            case 2: *wt = x; r[w] = x; break;
            case 3: *wt ^= x; r[w] ^= x; break;
            case 4: { auto vt = t.begin() + (i64)a; swap(*wt, *vt); E y = r[w]; r[w] = r[a]; r[a] = y; sym_reach("swap"); break; }
            case 5: *it = x; r[a] = x; break;                          // through the kept iterator itself
            case 6: *rt = x; r[a] = x; break;
#if TREE == 1 || TREE == 2
            case 7: t[w] = x; r[w] = x; break;
            default: t.assign_index(w, x); r[w] = x; break;
#else
            default: break;
#endif
        }
        if (sh == 2) { for (int q = 0; q < ns; ++q) s[q] = P(); sym_reach("snapshot dropped"); }
        if (sym_choice(2, "read")) { keepRead = true; still(t, r, it, a, false); }
    }
    still(t, r, it, a, false); still(t, r, ct, a, false); still(t, r, rt, a, true); still(t, r, be, 0, false);
    CHECK(en == t.end(), "the end moved"); CHECK(be == t.begin(), "the beginning moved"); { auto l = en; --l; CHECK(l.get() == r[r.n - 1], "stepping back from an end taken earlier"); }
    if (sh == 1) { sym_reach("shared"); for (int q = 0; q < ns; ++q) check_all(s[q], rs[q]); }
    check_all(t, r); (void)keepRead;
    if (t.depth() >= 3) sym_reach("depth>=3");
    observe_all(t, r);
}
