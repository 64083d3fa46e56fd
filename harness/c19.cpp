// C19: threads sharing a persistent tree by value, every interleaving of their shared accesses (up to equivalence)
#include "rich.h"
static P* h[4];             // one handle per thread, copied before the threads start; h[0] belongs to the main thread
static R r0;                // contents of the shared version
struct Job { u64 id, op, k, pos; E val; u64 n; E got[24]; bool bad; };
static Job job[4];
static void note(Job& j, bool ok) { if (!ok) j.bad = true; }
template <typename Tree> static void record(Job& j, Tree const& t) { j.n = 0; auto e = t.cend(); for (auto it = t.cbegin(); it != e; ++it) j.got[j.n++] = *it; note(j, t.size() == j.n); }
static void run(void* a) {
    Job& j = *(Job*)a; P& p = *h[j.id];
    switch (j.op) {
        case 0: record(j, p); break;                                                                      // read
        case 1: { P q(static_cast<P const&>(p)); delete h[j.id]; h[j.id] = nullptr; record(j, q); break; }        // copy, drop the original
        case 2: { P q = p.push_back(j.val); record(j, q); break; }                                        // new version
        case 3: { P q = p.assign(p.cbegin() + (i64)j.pos, j.val); delete h[j.id]; h[j.id] = nullptr; record(j, q); break; }
        case 4: { T t = p.transient(); t.push_front(j.val); auto it = t.begin() + (i64)j.pos; t.erase(it); P q = std::move(t).persistent(); record(j, q); break; }
        case 5: { P q = p.erase(p.cbegin() + (i64)j.pos); P w = q.push_back(j.val); record(j, w); break; }
        case 6: { T t = p.transient(); P q = t.persistent(); t.assign(t.begin() + (i64)j.pos, j.val); record(j, t); break; }
        case 7: { P q(p); P w(std::move(q)); p = w; record(j, p); break; }                                // copies and assignments of handles
        default: { delete h[j.id]; h[j.id] = nullptr; j.n = r0.n; for (u64 i = 0; i < r0.n; ++i) j.got[i] = r0[i]; break; }       // drop only
    }
}
static void expected(Job const& j, R& r) {
    switch (j.op) {
        case 2: r.insert(r.n, j.val); break;
        case 3: case 6: r[j.pos] = j.val; break;
        case 4: r.insert(0, j.val); r.erase(j.pos); break;
        case 5: r.erase(j.pos); r.insert(r.n, j.val); break;
        default: break;
    }
}
extern "C" void harness() {
    u64 heap = sym_live_heap();
    u64 threads = sym_param("threads", 2), ops = sym_param("ops", 9);
    { T t; prestate(t, r0); sym_assume(r0.n > 0);
      if (sym_param("grown", 0)) { P a = t.persistent(); E v = Fresh<E>::get("grown"); P b = a.push_back(v); r0.insert(r0.n, v); h[0] = new P(b); sym_reach("shares nodes with an older version"); }
      else h[0] = new P(t.persistent()); }
    for (u64 i = 1; i <= threads; ++i) {
        Job& j = job[i]; j.id = i; h[i] = new P(static_cast<P const&>(*h[0])); j.op = sym_param("op1", 99) < 9 && i == 1 ? sym_param("op1", 99) : sym_choice(ops, "op");
        if (i > 1 && sym_param("op1", 99) > 9) sym_assume(job[i - 1].op <= j.op);        // the threads are interchangeable
        j.val = Fresh<E>::get("val"); j.pos = j.op >= 3 && j.op <= 6 ? (sym_param("poss", 0) ? sym_choice(r0.n, "pos") : sym_choice(2, "side") ? r0.n - 1 : 0) : 0;
    }
    bool mainDrops = sym_param("main", 1) && sym_choice(2, "main_drops"); int id[4];
    for (u64 i = 1; i <= threads; ++i) id[i] = sym_thread_spawn(run, &job[i]);
    if (mainDrops) { delete h[0]; h[0] = nullptr; sym_reach("main drops its handle while the others run"); }
    for (u64 i = 1; i <= threads; ++i) sym_thread_join(id[i]);
    for (u64 i = 1; i <= threads; ++i) {
        static R r; r = r0; expected(job[i], r);
        CHECK(!job[i].bad, "size() disagrees with the traversal in a thread"); CHECK(job[i].n == r.n, "a thread sees a different number of elements than it would alone");
        for (u64 q = 0; q < r.n; ++q) CHECK(job[i].got[q] == r[q], "a thread sees a different element than it would alone");
    }
    for (u64 i = 0; i <= threads; ++i) if (h[i]) { check_all(*h[i], r0); }
    if (h[0] && h[0]->depth() >= 2) sym_reach("depth>=2");
    for (u64 i = 0; i <= threads; ++i) { delete h[i]; h[i] = nullptr; }
    CHECK(sym_live_heap() == heap, "nodes are still allocated after every handle is gone");
}
