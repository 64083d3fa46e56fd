// C23: handles (mutable and persistent) as values: copies, moves, assignments, conversions, clear, interleaved with edits
#include "rich.h"
static T* t[2]; static R rt[2]; static P* p[2]; static R rp[2];
static void checks() { for (int i = 0; i < 2; ++i) { if (t[i]) check_all(*t[i], rt[i]); if (p[i]) check_all(*p[i], rp[i]); } }
static P pedit(P const& q, R& r) {
    u64 op = sym_choice(3, "pedit"); E x = Fresh<E>::get("val");
    if (op == 0) { r.insert(r.n, x); return q.push_back(x); }
    sym_assume(r.n > 0); u64 a = sym_choice(r.n, "pos");
    if (op == 1) { r[a] = x; return q.assign(q.cbegin() + (i64)a, x); }
    r.erase(a); return q.erase(q.cbegin() + (i64)a);
}
static void step() {
    u64 op = sym_choice(21, "step"); u64 i = sym_choice(2, "which"), o = 1 - i;
    auto putT = [](u64 k, T* n, R const& r) { delete t[k]; t[k] = n; rt[k] = r; };
    auto putP = [](u64 k, P* n, R const& r) { delete p[k]; p[k] = n; rp[k] = r; };
    switch (op) {
        case 0: sym_assume(t[i]); edit(*t[i], rt[i]); sym_reach("edit"); break;
        case 1: sym_assume(t[i]); { T const& c = *t[i]; putT(o, new T(c), rt[i]); } sym_reach("mutable tree copied"); break;
        case 2: sym_assume(t[i]); putT(o, new T(*t[i]), rt[i]); break;
        case 3: sym_assume(t[i]); { T* n = new T(std::move(*t[i])); R r = rt[i]; delete t[i]; t[i] = nullptr; putT(o, n, r); } sym_reach("mutable tree moved"); break;
        case 4: sym_assume(t[0] && t[1]); *t[o] = *t[i]; rt[o] = rt[i]; sym_reach("mutable tree copy-assigned"); break;
        case 5: sym_assume(t[0] && t[1]); *t[o] = std::move(*t[i]); rt[o] = rt[i]; delete t[i]; t[i] = nullptr; break;
        case 6: sym_assume(t[i]); { T& self = *t[i]; *t[i] = self; } break;
        case 7: sym_assume(t[i]); t[i]->clear(); rt[i].n = 0; check_all(*t[i], rt[i]); sym_reach("cleared"); break;
        case 8: sym_assume(t[i]); putP(i, new P(t[i]->persistent()), rt[i]); break;
        case 9: sym_assume(t[i]); { P* n = new P(std::move(*t[i]).persistent()); delete t[i]; t[i] = nullptr; putP(i, n, rt[i]); } sym_reach("mutable tree converted by move"); break;
        case 10: sym_assume(p[i]); putT(i, new T(p[i]->transient()), rp[i]); sym_reach("converted back"); break;
        case 11: sym_assume(p[i]); { T* n = new T(std::move(*p[i]).transient()); delete p[i]; p[i] = nullptr; putT(i, n, rp[i]); } sym_reach("persistent tree converted by move"); break;
        case 12: sym_assume(p[i]); { P const& c = *p[i]; putP(o, new P(c), rp[i]); } sym_reach("persistent tree copied"); break;
        case 13: sym_assume(p[i]); putP(o, new P(*p[i]), rp[i]); break;
        case 14: sym_assume(p[i]); { P* n = new P(std::move(*p[i])); R r = rp[i]; delete p[i]; p[i] = nullptr; putP(o, n, r); } sym_reach("persistent tree moved"); break;
        case 15: sym_assume(p[0] && p[1]); *p[o] = *p[i]; rp[o] = rp[i]; sym_reach("persistent tree assigned"); break;
        case 16: sym_assume(p[0] && p[1]); *p[o] = std::move(*p[i]); rp[o] = rp[i]; delete p[i]; p[i] = nullptr; break;
        case 17: sym_assume(p[i]); { P& self = *p[i]; *p[i] = self; } break;
        case 18: sym_assume(p[i]); *p[i] = pedit(*p[i], rp[i]); sym_reach("persistent edit"); break;
        case 19: sym_assume(t[i] && p[o]); { *t[i] = p[o]->transient(); rt[i] = rp[o]; } break;
        case 20: sym_assume(t[i]); *t[i] = T(); rt[i].n = 0; break;
    }
}
extern "C" void harness() {
    u64 heap = sym_live_heap();
    t[0] = new T(); prestate(*t[0], rt[0]);
    u64 start = sym_param("start", 3) > 1 ? sym_choice(sym_param("start", 3), "start") : 0;
    if (start == 1) { p[0] = new P(t[0]->persistent()); rp[0] = rt[0]; }
    else if (start == 2) { t[1] = new T(); build(*t[1], rt[1], 0, 2); p[1] = new P(std::move(*t[0]).persistent()); rp[1] = rt[0]; delete t[0]; t[0] = nullptr; }
    for (u64 i = 0, k = sym_param("k", 2); i < k; ++i) { step(); if (sym_param("each", 1)) checks(); }
    checks();
    for (int i = 0; i < 2; ++i) if (t[i] && t[i]->depth() >= 3) sym_reach("depth>=3");
    for (int i = 0; i < 2; ++i) { if (t[i]) observe_all(*t[i], rt[i]); if (p[i]) observe_all(*p[i], rp[i]); }
    // an edit of each remaining mutable tree; everything else must stand still
    if (sym_param("last", 1)) { u64 i = t[0] ? 0 : 1; if (t[0] && t[1]) i = sym_choice(2, "last"); if (t[i]) { E x = Fresh<E>::get("last"); u64 a = sym_choice(3, "lastop"); if (a == 0 || !rt[i].n) { t[i]->push_back(x); rt[i].insert(rt[i].n, x); } else if (a == 1) { t[i]->assign(t[i]->begin(), x); rt[i][0] = x; } else { t[i]->pop_front(); rt[i].erase(0); } checks(); } }
    for (int i = 0; i < 2; ++i) { delete t[i]; t[i] = nullptr; for (int j = 0; j < 2; ++j) if (p[j]) check_all(*p[j], rp[j]); }
    for (int i = 0; i < 2; ++i) { delete p[i]; p[i] = nullptr; }
    CHECK(sym_live_heap() == heap, "memory is still allocated after the last handle is gone");
}
