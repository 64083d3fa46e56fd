// C03: histories of keyed operations with symbolic keys and values versus a sorted array
#include "maps.h"
typedef Tree::Transient T;
// pre-state of n entries.  keys 0: concrete, spread over the whole range incl. both extremes; keys 1: symbolic increasing bytes
static void prefill(T& t, MapRef& r, u64 shape, u64 n, u64 keys) {
    static K ks[300];
    for (u64 i = 0; i < n; ++i) {
        if (keys == 0) ks[i] = i == 0 ? 0u : i + 1 == n && n > 2 ? ~0u : (K)(i * 0x01000010u);
        else { ks[i] = (K)sym_u8("key"); if (i) sym_assume(less_(ks[i - 1], ks[i])); }
    }
#if CMPK == 1
    if (keys == 0) for (u64 i = 0; i < n / 2; ++i) { K x = ks[i]; ks[i] = ks[n - 1 - i]; ks[n - 1 - i] = x; }
#endif
    auto add = [&](u64 i) { V v = sym_u32("elem"); t.insert_v(mk(ks[i], v)); u64 p = r.lower(ks[i]); r.insert(p, ks[i], v); };
    switch (shape) {
        case 0: for (u64 i = 0; i < n; ++i) add(i); break;
        case 1: for (u64 i = n; i-- > 0;) add(i); break;
        case 2: for (u64 i = 0; i < n; i += 2) add(i); for (u64 i = 1; i < n; i += 2) add(i); break;
        default: for (u64 i = 0; i < n; ++i) add(n / 2 + ((i & 1) ? (u64)0 - (i + 1) / 2 : i / 2) < n ? n / 2 + ((i & 1) ? (u64)0 - (i + 1) / 2 : i / 2) : i); break;
    }
}
static void step(T& t, MapRef& r, bool narrow) {
    u64 op = sym_choice(11, "op"); K k = narrow ? (K)sym_u8("k") : sym_u32("k"); V v = sym_u32("v");
    u64 i;
    switch (op) {
        case 8: case 9: case 10: i = r.lower(k);                      // keys and values given separately
#if KIND == 0
#define KVARGS k, v
#elif KIND == 1 || KIND == 4
#define KVARGS v, k
#elif KIND == 2
#define KVARGS k, v
#else
#define KVARGS k
#endif
            if (op == 8) { t.insert_v(KVARGS); if (!r.at(i, k)) r.insert(i, k, v); break; }
            if (op == 10) { sym_assume(r.at(i, k)); t.assign_v(KVARGS); r.k[i] = k; r.v[i] = v; break; }
#if KIND == 0
            t.insert_or_assign(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v));
#elif KIND == 1
            t.insert_or_assign(std::piecewise_construct, std::forward_as_tuple(v), std::forward_as_tuple(k));
#else
            t.insert_or_assign(KVARGS);
#endif
            if (r.at(i, k)) { r.k[i] = k; r.v[i] = v; } else r.insert(i, k, v); break;
        case 0: t.insert_v(mk(k, v)); i = r.lower(k); if (!r.at(i, k)) r.insert(i, k, v); else sym_reach("insert_v on a present key"); break;
        case 1: t.insert_or_assign(mk(k, v)); i = r.lower(k); if (r.at(i, k)) { r.k[i] = k; r.v[i] = v; } else r.insert(i, k, v); break;
        case 2: i = r.lower(k); sym_assume(r.at(i, k)); t.assign_v(mk(k, v)); r.k[i] = k; r.v[i] = v; break;
        case 3: i = r.lower(k); sym_assume(r.at(i, k)); t.erase_key(k); r.erase(i); sym_reach("erase"); break;
        case 4: { i = r.lower(k); sym_assume(r.at(i, k));
#if KIND != 3
                V seen = 0; t.update_key(k, [&](V const& o) { seen = o; return o + v; }); CHECK(seen == r.v[i], "update_key() passed a different value to the updater"); r.k[i] = k; r.v[i] = seen + v;
#endif
                break; }
        case 5: { i = r.lower(k);
#if KIND != 3
                t[k] = v; if (r.at(i, k)) { r.k[i] = k; r.v[i] = v; } else r.insert(i, k, v);
#endif
                break; }
        case 6: { i = r.lower(k); bool has = r.at(i, k); auto it = t.find(k); CHECK((it == t.end()) == !has, "find() disagrees about presence"); if (has) { t.erase(it); r.erase(i); } break; }
        case 7: { i = r.lower(k); auto it = t.lower_bound(k);      // positional insertion at the lower bound of an absent key keeps order
                if (!r.at(i, k)) { t.insert(it, mk(k, v)); r.insert(i, k, v); } break; }
    }
    i = r.lower(k);
    CHECK(t.contains(k) == r.at(i, k), "contains() of the key just used");
#if KIND != 3
    if (r.at(i, k)) { CHECK(t.at_key(k) == r.v[i], "at_key() is not the most recent value"); CHECK((V)t[k] == r.v[i], "operator[] is not the most recent value"); }
#endif
}
extern "C" void harness() {
    T t; static MapRef r;
    u64 n = sym_param("n", 6), lo = sym_param("lo", 0), k = sym_param("k", 1), keys = sym_param("keys", 0);
    u64 sh = sym_choice(4, "shape"); prefill(t, r, sh, lo + sym_choice(n - lo + 1, "n"), keys);
    same_map(t, r);
    for (u64 i = 0; i < k; ++i) step(t, r, keys == 1);
    same_map(t, r);
    if (sym_param("each", 1)) for (u64 i = 0; i < r.n; ++i) {
        CHECK(t.contains(r.k[i]), "a stored key is not found");
        auto it = t.find(r.k[i]); CHECK(it != t.end() && kof(*it) == r.k[i], "find() of a stored key");
    }
    if (t.depth() >= 3) sym_reach("depth>=3");
    sym_observe(t.size()); for (auto it = t.cbegin(); it != t.cend(); ++it) { sym_observe(kof(*it)); sym_observe(vof(*it)); }
}
