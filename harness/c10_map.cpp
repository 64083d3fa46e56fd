// C10: keyed operations on persistent ordered trees
#include "maps.h"
typedef Tree::Transient T; typedef Tree::Persistent P;
static P step(P const& p, MapRef& r, K k) {
    u64 op = sym_choice(KIND == 3 ? 4 : 5, "op"); u64 i = r.lower(k); bool has = r.at(i, k); V x = sym_u32("val");
    switch (op) {
        case 0: if (!has) r.insert(i, k, x); return p.insert_v(mk(k, x));
        case 1: if (has) { r.k[i] = k; r.v[i] = x; } else r.insert(i, k, x); return p.insert_or_assign(mk(k, x));
        case 2: sym_assume(has); r.k[i] = k; r.v[i] = x; return p.assign_v(mk(k, x));
        case 3: sym_assume(has); r.erase(i); return p.erase_key(k);
        default:
#if KIND != 3
        { sym_assume(has); V seen = 0; P q = p.update_key(k, [&](V const& o) { seen = o; return o + x; }); CHECK(seen == r.v[i], "update_key() passed a different value to the updater"); r.k[i] = k; r.v[i] += x; return q; }
#else
        return p;
#endif
    }
}
extern "C" void harness() {
    static MapRef r0, r1, r2; T t; u64 n = sym_param("n", 4), lo = sym_param("lo", 0); n = lo + sym_choice(n - lo + 1, "n");
    for (u64 i = 0; i < n; ++i) { K k = (K)(i * 16 + 16); V x = sym_u32("elem"); t.insert_v(mk(k, x)); r0.insert(r0.lower(k), k, x); }
    P p = t.persistent(); r1 = r0;
    P q = step(p, r1, (K)sym_u8("key"));
    same_map(q, r1); same_map(p, r0); same_map(t, r0);
    if (sym_param("k", 1) > 1) {
        if (sym_choice(2, "from")) { r2 = r0; P w = step(p, r2, (K)sym_u8("key2")); same_map(w, r2); sym_reach("branched"); }
        else { r2 = r1; P w = step(q, r2, (K)sym_u8("key2")); same_map(w, r2); same_map(q, r1); }
        same_map(q, r1); same_map(p, r0);
    }
    if (q.depth() >= 3) sym_reach("depth>=3");
    sym_observe(q.size()); for (auto it = q.cbegin(); it != q.cend(); ++it) { sym_observe(kof(*it)); sym_observe(vof(*it)); }
}
