// C21: depth against size.  mode 10: any insertion positions; mode 11: a built tree, then erasures in any order down to empty
#define CONCRETE_FILL
#include "rich.h"
// capacities of this build, computed the way the documentation describes the node sizes (checked against max_size())
static u64 power(u64 a, u64 b) { u64 p = 1; while (b--) p *= a; return p; }
static void capacity(T const& t) {
    u64 d = t.depth(); CHECK(d >= 1, "a tree has no level"); CHECK(d <= t.max_depth(), "the depth exceeds max_depth()");
    CHECK(t.size() <= LN * power(IN, d - 1), "the tree holds more elements than its depth has room for");
    CHECK(t.max_size() == LN * power(IN, t.max_depth() - 1), "max_size() is not the capacity of max_depth() levels"); CHECK(t.size() <= t.max_size(), "size() exceeds max_size()");
    if (t.empty()) CHECK(d == 1, "an empty tree has more than one level"); if (d > 1) CHECK(t.size() >= 2, "a tree of more than one level has fewer than two elements");
}
// leaves are found by the addresses of their elements, the other nodes by the number of allocated blocks
static u64 blocks0; static bool alone;
static void filled(T const& t) {
    u64 leaves = 0, run = 0; E const* last = nullptr; auto e = t.cend();
    for (auto it = t.cbegin(); it != e; ++it) { E const* p = &it.get(); if (last && p == last + 1) ++run; else { if (last) CHECK(run >= LN / 2, "a leaf that is not the last one is less than half full although nothing was erased"); run = 1; ++leaves; } last = p; }
    if (!alone || !leaves) return;
    u64 blocks = sym_live_heap() - blocks0; if (blocks < leaves) return;          // (allocations are not counted in sanitizer builds)
    u64 m = leaves, most = leaves; while (m > 1) { m = 1 + (m - 1) / (IN / 2); most += m; } CHECK(blocks <= most, "there are more nodes than half-full nodes account for");
    if (leaves > 2) sym_reach("fill of the leaves");
}
static void inserted(T const& t, bool appendOnly) {
    capacity(t); u64 d = t.depth(), lh = (LN + 1) / 2, ih = (IN + 1) / 2;
    if (d > 1) { CHECK(t.size() >= (appendOnly ? LN * power(IN, d - 2) + 1 : lh * power(ih, d - 2) + 1), "the tree is deeper than its size justifies"); sym_reach("depth>=2"); }
    filled(t); if (d > 2) sym_reach("depth>=3");
}
// by position through an iterator, or by index: at a leaf boundary the one inserts into the later leaf, the other into the earlier
static u32 ctr = 0;
static void ins(T& t, R& r, u64 pos) {
#if TREE == 1
    if (sym_param("byindex", 0)) { E v = (E)(ctr += 3); t.insert_index(pos, v); r.insert(pos, v); return; }
#endif
    put(t, r, pos);
}
extern "C" void harness() {
    blocks0 = sym_live_heap(); alone = true;
    T t; static R r; u64 mode = sym_param("era", 0), n = sym_param("n", 6), free_ = sym_param("free", 4);
    if (mode == 0) {           // insertions: a fixed pattern, then any positions
        u64 pat = sym_choice(6, "pattern"), base = sym_choice(n + 1, "base");
        auto at = [&](u64 i) { switch (pat) { case 0: return r.n; case 1: return (u64)0; case 2: return r.n / 2; case 3: return r.n ? r.n - 1 : 0; case 4: return i & 1 ? r.n : 0; default: return i % 3 ? r.n / 3 : r.n; } };
        for (u64 i = 0; i < base; ++i) { ins(t, r, at(i)); inserted(t, pat == 0); }
        for (u64 i = 0; i < free_; ++i) { ins(t, r, sym_choice(r.n + 1, "pos")); inserted(t, false); }
        bool snap = sym_choice(2, "snapshot"); if (snap) alone = false; P s = snap ? t.persistent() : P(); u64 d = t.depth(); if (snap) { CHECK(s.depth() == d, "a snapshot has another depth"); put(t, r, r.n); inserted(t, false); CHECK(s.depth() == d, "a snapshot changed its depth"); }
    } else {                    // erasures in any order
        u64 shape = sym_choice(3, "shape"); build(t, r, shape, n - sym_choice(2, "less")); capacity(t);
        bool snap = sym_param("snap", 1) && sym_choice(2, "snapshot"); P s = snap ? t.persistent() : P(); u64 was = t.depth(), sz = r.n;
        if (was > 2) sym_reach("erasing from depth>=3");
        u64 keepFree = sym_param("free", 4);
        while (r.n) { u64 d = t.depth(), p = r.n <= keepFree ? sym_choice(r.n, "pos") : sym_choice(3, "end") * (r.n - 1) / 2; u64 via = 2; if (p == 0) via = 0; else if (p + 1 == r.n) via = 1;
            if (via == 0) { t.pop_front(); r.erase(0); } else if (via == 1) { t.pop_back(); r.erase(r.n - 1); } else drop(t, r, p);
            capacity(t); CHECK(t.depth() <= d, "an erasure makes the tree deeper"); }
        CHECK(t.depth() == 1, "a tree emptied by erasure keeps its levels"); CHECK(t.empty() && t.begin() == t.end(), "the tree is not empty"); sym_reach("emptied");
        if (snap) { CHECK(s.depth() == was && s.size() == sz, "a snapshot changed its depth"); }
        put(t, r, 0); CHECK(t.depth() == 1 && t.size() == 1, "an emptied tree cannot be used again");
    }
    sym_observe(t.depth()); sym_observe(t.size());
}
