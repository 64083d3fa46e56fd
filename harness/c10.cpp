// C10: editing operations on persistent trees yield new versions and leave every other version alone
#include "rich.h"
static P* v[4]; static R rv[4];
static P step(P const& p, R& r) {            // one functional edit; r becomes the contents of the result
    u64 ops = TREE == 1 || TREE == 2 || TREE == 4 ? 12 : 8, op = sym_choice(ops, "op");
    if (!r.n) sym_assume(op == 0 || op == 1 || op == 4 || op == 8);
    E x = op == 2 || op == 3 || op == 5 || op == 9 ? E() : Fresh<E>::get("val");
    E seen{};
    switch (op) {
        case 0: r.insert(r.n, x); return p.push_back(x);
        case 1: r.insert(0, x); return p.push_front(x);
        case 2: r.erase(r.n - 1); return p.pop_back();
        case 3: r.erase(0); return p.pop_front();
        case 4: { u64 i = sym_choice(r.n + 1, "pos"); r.insert(i, x); return p.insert(p.cbegin() + (i64)i, x); }
        case 5: { u64 i = sym_choice(r.n, "pos"); r.erase(i); return p.erase(p.cbegin() + (i64)i); }
        case 6: { u64 i = sym_choice(r.n, "pos"); r[i] = x; return p.assign(p.cbegin() + (i64)i, x); }
        case 7: { u64 i = sym_choice(r.n, "pos"); P q = p.update(p.cbegin() + (i64)i, [&](E const& o) { seen = o; return (E)(o ^ x); }); CHECK(seen == r[i], "update() passed a different element to the updater"); r[i] = (E)(r[i] ^ x); return q; }
#if TREE == 1 || TREE == 2 || TREE == 4
        case 8: { u64 i = sym_choice(r.n + 1, "pos"); r.insert(i, x); return p.insert_index(i, x); }
        case 9: { u64 i = sym_choice(r.n, "pos"); r.erase(i); return p.erase_index(i); }
        case 10: { u64 i = sym_choice(r.n, "pos"); r[i] = x; return p.assign_index(i, x); }
        default: { u64 i = sym_choice(r.n, "pos"); P q = p.update_index(i, [&](E const& o) { seen = o; return (E)(o ^ x); }); CHECK(seen == r[i], "update_index() passed a different element to the updater"); r[i] = (E)(r[i] ^ x); return q; }
#else
        default: return p;
#endif
    }
}
static void checks() { for (int i = 0; i < 4; ++i) if (v[i]) check_all(*v[i], rv[i]); }
extern "C" void harness() {
    { T t; static R r; prestate(t, r); v[0] = new P(t.persistent()); rv[0] = r; }
    u64 k = sym_param("k", 2), slots = sym_param("slots", 3);
    for (u64 i = 0; i < k; ++i) {
        u64 have = 0; while (have < slots && v[have]) ++have;
        u64 from = have > 1 ? sym_choice(have, "from") : 0;
        static R nr; nr = rv[from];
        P q = step(*v[from], nr);
        check_all(q, nr); checks();
        u64 to = have < slots ? have : sym_choice(slots, "to");
        if (v[to]) { if (sym_param("how", 0)) *v[to] = q; else { delete v[to]; v[to] = new P(q); } sym_reach("version replaced"); } else v[to] = new P(std::move(q));
        rv[to] = nr; if (from > 0) sym_reach("branched");
    }
    checks();
    if (v[0]->depth() >= 3) sym_reach("depth>=3");
    observe_all(*v[0], rv[0]);
    for (int i = 0; i < 4; ++i) { delete v[i]; v[i] = nullptr; for (int j = i + 1; j < 4; ++j) if (v[j]) same_sequence(*v[j], rv[j]); }
}
