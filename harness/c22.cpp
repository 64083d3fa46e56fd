// C22: filling a tree with few levels up to and beyond its depth limit.  Compiled with BPPTREE_SAFETY_CHECKS.
#define BPPTREE_SAFETY_CHECKS
#define CONCRETE_FILL
#include <stdexcept>
#include "rich.h"
static bool tryPut(T& t, R& r, u64 pos, u64 how) {       // false: the insertion was refused with an exception
    static u32 ctr = 7; E v = (E)(ctr += 13);
    try {
        if (pos == r.n && how == 0) t.push_back(v);
        else if (pos == 0 && how == 0) t.push_front(v);
#if TREE == 1 || TREE == 2 || TREE == 4
        else if (how == 1) t.insert_index(pos, v);
#endif
        else { auto it = t.begin() + (i64)pos; t.insert(it, v); }
    } catch (std::logic_error const&) { return false; }
    r.insert(pos, v); return true;
}
static u64 power(u64 a, u64 b) { u64 p = 1; while (b--) p *= a; return p; }
extern "C" void harness() {
    u64 heap = sym_live_heap();
    {
        T t; static R r, old; u64 free_ = sym_param("free", 3), pat = sym_choice(sym_param("pats", 6), "pattern"), limit = power(IN, DEPTH - 1) * LN;
        CHECK(t.max_depth() == DEPTH, "max_depth() is not the depth limit of this type"); CHECK(t.max_size() == limit, "max_size() is not the capacity of the depth limit");
        auto at = [&](u64 i) { switch (pat) { case 0: return r.n; case 1: return (u64)0; case 2: return r.n / 2; case 3: return r.n ? r.n - 1 : 0; case 4: return i & 1 ? r.n : 0; default: return r.n / 3; } };
        // up to `base` elements by the pattern, then `free` insertions anywhere, then by the pattern until refused
        u64 base = limit > free_ ? sym_choice(limit - free_ + 1, "base") : 0; bool refused = false, shared = false; P snap; u64 n0 = 0, seen = 1;
        for (u64 i = 0; i < base && !refused; ++i) { refused = !tryPut(t, r, at(i), 0); if (pat == 0) CHECK(!refused, "appending is refused although the tree has room"); }
        sym_assume(!refused);
        shared = sym_choice(2, "shared"); if (shared) { snap = t.persistent(); old = r; }
        for (u64 i = 0; i < free_ && !refused; ++i) { u64 pos = sym_choice(r.n + 1, "pos"); refused = !tryPut(t, r, pos, sym_param("how", 2) > 1 ? sym_choice(2, "how") : 0); if (!refused) check_all(t, r); }
        if (!refused && sym_param("fill", 1)) for (u64 i = 0; i <= limit && !refused; ++i) { refused = !tryPut(t, r, at(i), 0); if (!refused) check_all(t, r); CHECK(t.depth() <= DEPTH, "the tree is deeper than its limit"); seen = t.depth(); }
        if (refused) {
            sym_reach("refused"); u64 lh = (LN + 1) / 2, ih = (IN + 1) / 2;
            CHECK(r.n <= limit, "more elements were accepted than the depth limit has room for");
            CHECK(r.n >= lh * power(ih, DEPTH - 1), "an insertion is refused although the tree has room");
            check_all(t, r);                                  // a refused insertion changes nothing, and the tree can be used on
            u64 after = sym_choice(3, "after");
            if (after == 0) { drop(t, r, r.n / 2); check_all(t, r); while (tryPut(t, r, at(1), 0)) check_all(t, r); check_all(t, r); }
            else if (after == 1) { t.assign(t.begin() + (i64)(r.n - 1), (E)5); r[r.n - 1] = 5; P later = t.persistent(); CHECK(!tryPut(t, r, at(0), 0) || DEPTH > 1, "a full leaf takes another element"); check_all(t, r); }
            else while (r.n) { t.pop_front(); r.erase(0); if (r.n % 3 == 0) check_all(t, r); }
        } else { CHECK(!sym_param("fill", 1), "elements beyond the capacity are accepted silently"); check_all(t, r); }
        if (shared) { check_all(snap, old); sym_reach("snapshot"); }
        if (!refused || shared) sym_observe(old.n); (void)n0; (void)seen;
    }
    CHECK(sym_live_heap() == heap, "memory is lost when an insertion is refused");
}
