// C25: copying is confined to shared nodes on the path of an edit
#include "rich.h"
static u64 made() { return sym_allocs(); }
// nodes of a tree = blocks that disappear with it; measured on an unshared rebuild of the sharing structure
static u64 dropCount(P*& p) { u64 b = sym_live_heap(); delete p; p = nullptr; return b - sym_live_heap(); }
static T* t; static R r, old; static P* s;
// one edit of the mutable tree with any position; returns whether the tree can have grown
static void change(T& t, R& r, u64 op, u64 p, E x) {
    switch (op) {
        case 0: t.push_back(x); r.insert(r.n, x); break;
        case 1: t.push_front(x); r.insert(0, x); break;
        case 2: { auto it = t.begin() + (i64)p; t.insert(it, x); r.insert(p, x); break; }
        case 3: { auto it = t.begin() + (i64)p; t.erase(it); r.erase(p); break; }
        case 4: { auto it = t.begin() + (i64)p; t.assign(it, x); r[p] = x; break; }
        case 5: { auto it = t.begin() + (i64)p; t.update(it, [&](E const& o) { return (E)(o ^ x); }); r[p] = (E)(r[p] ^ x); break; }
        case 6: t.pop_back(); r.erase(r.n - 1); break;
        default: t.pop_front(); r.erase(0); break;
    }
}
static void change(P const& p, P*& q, R& r, u64 op, u64 i, E x) {
    switch (op) {
        case 0: q = new P(p.push_back(x)); r.insert(r.n, x); break;
        case 1: q = new P(p.push_front(x)); r.insert(0, x); break;
        case 2: q = new P(p.insert(p.cbegin() + (i64)i, x)); r.insert(i, x); break;
        case 3: q = new P(p.erase(p.cbegin() + (i64)i)); r.erase(i); break;
        case 4: q = new P(p.assign(p.cbegin() + (i64)i, x)); r[i] = x; break;
        case 5: q = new P(p.update(p.cbegin() + (i64)i, [&](E const& o) { return (E)(o ^ x); })); r[i] = (E)(r[i] ^ x); break;
        case 6: q = new P(p.pop_back()); r.erase(r.n - 1); break;
        default: q = new P(p.pop_front()); r.erase(0); break;
    }
}
extern "C" void harness() {
    t = new T(); u64 b0 = sym_live_heap(); prestate(*t, r); u64 n0 = sym_live_heap() - b0 + 1, d0 = t->depth();       // +1: the node the empty tree already had
    u64 op = sym_choice(8, "op"), p = op == 2 ? sym_choice(r.n + 1, "pos") : op > 2 && op < 6 ? sym_choice((sym_assume(r.n > 0), r.n), "pos") : 0;
    if (op > 2) sym_assume(r.n > 0);
    E x = op == 3 || op > 5 ? E() : Fresh<E>::get("val");
    if (t->depth() >= 3) sym_reach("depth>=3");
    u64 cs = sym_choice(4, "case"); if (cs == 2) sym_assume(op == 0);
    switch (cs) {
        case 0: {                        // never shared: nothing is copied, new blocks are new nodes
            u64 a = made(), l = sym_live_heap(); change(*t, r, op, p, x); i64 grown = (i64)sym_live_heap() - (i64)l; u64 fresh = made() - a;
            u64 emptied = r.n == 0;                                   // (an emptied tree gets a new leaf)
            CHECK(fresh <= (grown > 0 ? (u64)grown : 0) + emptied, "an edit of a tree that was never shared copies nodes");
            if (op > 2) CHECK(fresh <= emptied, "an edit that adds no element obtains memory although nothing is shared");
            break; }
        case 1: {                        // a version derived from a persistent tree
            u64 c = made(), c2; s = new P(t->persistent()); c2 = made() - c - 1; CHECK(c2 == 0, "taking a snapshot copies nodes");
            delete t; t = nullptr; old = r; P* q = nullptr; u64 a = made(), l = sym_live_heap(); change(*s, q, r, op, p, x);
            u64 fresh = made() - a - 1, lf = sym_live_heap() - l - 1;                                     // -1: the handle
            bool shrinks = op == 3 || op > 5; CHECK(fresh == lf || shrinks, "deriving a version obtains nodes it does not keep");
            check_all(*q, r); check_all(*s, old);
            u64 gone = dropCount(s);                                                                     // nodes only the old version used, and its handle
            i64 net = (i64)lf - (i64)(gone - 1);                                                      // how many nodes the new version has more than the old
            CHECK(fresh <= d0 + (net > 0 ? (u64)net : 0), "deriving a version copies nodes beside the path of the edit"); if (fresh < n0) sym_reach("shares nodes");
            check_all(*q, r); delete q; break; }
        case 2: {                        // handles
            u64 a = made(); P p1 = t->persistent(); P p2(p1); P p3(std::move(p2)); P p4; u64 b = made(); p4 = p1; T t1 = p1.transient(); T t2 = std::move(p3).transient(); P p5 = std::move(t2).persistent(); T t3(t1); T t4(std::move(t3));
            CHECK(made() == b && b - a <= 1, "copying, moving or converting a handle copies nodes"); check_all(p4, r); check_all(t4, r); check_all(p5, r); sym_reach("handles"); break; }
        case 3: {                        // a mutable tree that shares everything with a snapshot: each node is copied once
            s = new P(t->persistent()); old = r; u64 a = made(), l = sym_live_heap(); change(*t, r, op, p, x); u64 fresh = made() - a;
            i64 lf = (i64)sym_live_heap() - (i64)l; CHECK((i64)fresh == lf || op == 3 || op > 5, "an edit obtains nodes it does not keep");
            CHECK(fresh <= 2 * d0 + 1, "an edit copies nodes beside its path"); if (op > 2) CHECK(fresh <= d0, "an edit copies nodes beside its path");
            if (r.n) {                   // the path now belongs to the mutable tree: an assignment there copies nothing
                u64 q = op == 0 ? r.n - 1 : op == 1 ? 0 : p; if (op != 3 && op < 6) { sym_reach("second edit"); E y = Fresh<E>::get("again"); auto it = t->begin() + (i64)q; a = made(); t->assign(it, y); r[q] = y; CHECK(made() == a, "a node that belongs to the mutable tree alone is copied again"); }
                // and every shared node is copied at most once, whatever is edited
                a = made(); for (u64 i = 0; i < r.n; ++i) { auto it = t->begin() + (i64)i; t->assign(it, r[i]); } CHECK(made() - a + fresh <= n0 + 2 * d0 + 1, "a shared node is copied more than once");
                a = made(); for (u64 i = 0; i < r.n; ++i) { auto it = t->begin() + (i64)i; t->assign(it, r[i]); } CHECK(made() == a, "a node that belongs to the mutable tree alone is copied again");
            }
            check_all(*t, r); check_all(*s, old); delete s; check_all(*t, r); break; }
    }
    sym_observe(r.n); delete t;
}
