// C03: keyed operations whose argument is a reference to an entry (or the key of an entry) of the tree itself
#include "maps.h"
typedef Tree::Transient T; typedef Tree::Persistent P;
#if KIND == 0
#define KEYOF(e) (e).first
#elif KIND == 1
#define KEYOF(e) (e).second
#elif KIND == 2
#define KEYOF(e) std::get<0>(e)
#elif KIND == 4
#define KEYOF(e) std::get<1>(e)
#else
#define KEYOF(e) (e)
#endif
extern "C" void harness() {
    T t; static MapRef r, old; u64 n = sym_param("n", 6), lo = sym_param("lo", 1), sh = sym_choice(3, "shape"); n = lo + sym_choice(n - lo + 1, "n");
    for (u64 j = 0; j < n; ++j) { u64 i = sh == 0 ? j : sh == 1 ? n - 1 - j : j * 2 < n + (n & 1) ? j * 2 : (j * 2 - (n + (n & 1)) + 1); K k = (K)(i * 32 + 16); V v = sym_u32("elem"); t.insert_v(mk(k, v)); r.insert(r.lower(k), k, v); }
    bool shared = sym_choice(2, "shared"); P snap = shared ? t.persistent() : P(); if (shared) { old = r; sym_reach("shared"); }
    u64 i = sym_choice(r.n, "at"); K k = r.k[i]; V v = r.v[i], y = sym_u32("y"); auto it = t.cbegin() + (i64)i; KV const& e = it.get();
    switch (sym_choice(7, "op")) {
        case 0: t.insert_v(e); break;
        case 1: t.insert_or_assign(e); break;
        case 2: t.assign_v(e); break;
        case 3: t.erase_key(KEYOF(e)); r.erase(i); sym_reach("erase"); break;
#if KIND != 3
        case 4: t.update_key(KEYOF(e), [&](V const& o) { return o ^ y; }); r.v[i] = v ^ y; break;
        case 5: t[KEYOF(e)] = y; r.v[i] = y; break;
        case 6: t[KEYOF(e)] = e; CHECK((V)t[k] == v, "an entry assigned to itself changes"); break;
#else
        case 4: t.update_key(KEYOF(e), [&](K const& o) { return o; }); break;
#endif
        default: sym_assume(false);
    }
    same_map(t, r); if (shared) same_map(snap, old);
    for (u64 j = 0; j < r.n; ++j) { CHECK(t.contains(r.k[j]), "a stored key is not found"); auto f = t.find(r.k[j]); CHECK(f != t.end() && kof(f.get()) == r.k[j], "find() of a stored key"); }
    if (i == r.n || i == r.n - 1) CHECK(t.contains(k) == (i < r.n && r.k[i] == k), "contains() of the key used");
    if (t.depth() >= 3) sym_reach("depth>=3");
    sym_observe(t.size());
}
