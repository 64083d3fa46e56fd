// C13: where an iterator stands after insertion or erasure through it, and that it can be used on from there
#include "rich.h"
// forward: the element at position p (or the end) and all the rest of the traversal in both directions
template <typename It> static void at_fwd(T& t, R const& r, It const& it, u64 p) {
    auto b = t.begin(); b += (i64)p; CHECK(it == b, "the iterator does not stand at the expected position");
    if (p < r.n) { CHECK(it.get() == r[p], "the iterator reads a different element than the one expected"); CHECK(it.valid(), "the iterator of an element is not valid()"); } else CHECK(it == t.end(), "the iterator should be the end");
    It f = it; for (u64 i = p; i < r.n; ++i, ++f) CHECK(f.get() == r[i], "continuing forward from the iterator reads a different element");
    CHECK(f == t.end(), "continuing forward does not reach the end");
    It g = it; for (u64 i = p; i-- > 0;) { --g; CHECK(g.get() == r[i], "continuing backward from the iterator reads a different element"); }
    if (r.n) CHECK(g == t.begin(), "continuing backward does not reach the beginning");
}
// reverse: p counts from the front; p == -1 is the reverse end
template <typename It> static void at_rev(T& t, R const& r, It const& it, i64 p) {
    if (p >= 0) { CHECK(it.get() == r[(u64)p], "the reverse iterator reads a different element than the one expected"); CHECK(it.valid(), "the reverse iterator of an element is not valid()"); } else CHECK(it == t.rend(), "the reverse iterator should be the reverse end");
    auto b = t.rbegin(); b += (i64)r.n - 1 - p; CHECK(it == b, "the reverse iterator does not stand at the expected position");
    It f = it; for (i64 i = p; i >= 0; --i, ++f) CHECK(f.get() == r[(u64)i], "continuing a reverse traversal reads a different element");
    CHECK(f == t.rend(), "continuing a reverse traversal does not reach the reverse end");
    It g = it; for (u64 i = (u64)(p + 1); i < r.n; ++i) { --g; CHECK(g.get() == r[i], "stepping a reverse iterator back reads a different element"); }
    if (r.n) CHECK(g == t.rbegin(), "stepping a reverse iterator back does not reach its beginning");
}
extern "C" void harness() {
    T t; static R r; prestate(t, r);
    bool shared = sym_choice(2, "shared"); P snap = shared ? t.persistent() : P(); static R old; if (shared) old = r; else old.n = 0;
    u64 k = sym_param("k", 2); bool rev = sym_param("rev", 2) > 1 ? sym_choice(2, "reverse") : sym_param("rev", 2); bool viaLookup = sym_param("stale", 0) && sym_choice(2, "stale");
    if (!rev) {
        u64 p = sym_choice(r.n + 1, "start"); auto it = t.begin(); it += (i64)p;
        if (viaLookup && r.n) { E x = Fresh<E>::get("val"); auto jt = t.begin(); t.assign(jt, x); r[0] = x; sym_reach("iterator older than an assignment"); }
        for (u64 i = 0; i < k; ++i) {
            u64 op = sym_choice(4, "op");
            if (op == 0) { E x = Fresh<E>::get("val"); t.insert(it, x); r.insert(p, x); at_fwd(t, r, it, p); sym_reach("inserted"); }
            else if (op == 1) { sym_assume(p < r.n); t.erase(it); r.erase(p); at_fwd(t, r, it, p); sym_reach(p == r.n ? "erased the last" : "erased"); }
            else if (op == 2) { sym_assume(p < r.n); ++it; ++p; at_fwd(t, r, it, p); }
            else { sym_assume(p > 0); --it; --p; at_fwd(t, r, it, p); }
        }
    } else {
        i64 p = (i64)sym_choice(r.n + 1, "start") - 1; auto it = t.rbegin(); it += (i64)r.n - 1 - p;
        if (viaLookup && r.n) { E x = Fresh<E>::get("val"); auto jt = t.begin(); t.assign(jt, x); r[0] = x; }
        for (u64 i = 0; i < k; ++i) {
            u64 op = sym_choice(4, "op");
            if (op == 0) { E x = Fresh<E>::get("val"); t.insert(it, x); r.insert((u64)(p + 1), x); ++p; at_rev(t, r, it, p); sym_reach("inserted in reverse"); }
            else if (op == 1) { sym_assume(p >= 0); t.erase(it); r.erase((u64)p); --p; at_rev(t, r, it, p); sym_reach(p < 0 ? "erased the first in reverse" : "erased in reverse"); }
            else if (op == 2) { sym_assume(p >= 0); ++it; --p; at_rev(t, r, it, p); }
            else { sym_assume(p + 1 < (i64)r.n); --it; ++p; at_rev(t, r, it, p); }
        }
    }
    check_all(t, r); if (shared) { sym_reach("shared"); check_all(snap, old); }
    if (t.depth() >= 3) sym_reach("depth>=3");
    observe_all(t, r);
}
