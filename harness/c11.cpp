// C11: memory.  Mixed histories over several handles; every access is checked by the executor, and when all handles are
// gone the number of live heap blocks is what it was.
#include "rich.h"
static T* t[2]; static R rt[2]; static P* p[3]; static R rp[3];
static void step() {
    u64 op = sym_choice(11, "step");
    u64 i = t[1] ? sym_choice(2, "which") : 0;
    switch (op) {
        case 0: edit(*t[i], rt[i], OP_N); break;
        case 1: { u64 j = p[0] ? (p[1] ? 2 : 1) : 0; if (p[j]) { *p[j] = t[i]->persistent(); } else p[j] = new P(t[i]->persistent()); rp[j] = rt[i]; break; }
        case 2: { u64 j = sym_choice(3, "slot"); sym_assume(p[j] != nullptr); delete p[j]; p[j] = nullptr; sym_reach("version dropped"); break; }
        case 3: { u64 j = sym_choice(3, "slot"); sym_assume(p[j] != nullptr); delete t[1]; t[1] = new T(p[j]->transient()); rt[1] = rp[j]; sym_reach("second mutable tree"); break; }
        case 4: { u64 j = sym_choice(3, "slot"); sym_assume(p[j] != nullptr && rp[j].n > 0); E x = Fresh<E>::get("val"); u64 a = sym_choice(rp[j].n, "pos"); *p[j] = p[j]->assign(p[j]->cbegin() + (i64)a, x); rp[j][a] = x; break; }
        case 5: { u64 j = sym_choice(3, "slot"); sym_assume(p[j] != nullptr); *p[j] = *p[j]; break; }                      // self-assignment
        case 6: { sym_assume(p[0] && p[1]); *p[0] = *p[1]; rp[0] = rp[1]; sym_reach("version assigned"); break; }
        case 7: { u64 j = sym_choice(3, "slot"); sym_assume(p[j] != nullptr); delete t[i]; t[i] = new T(std::move(*p[j]).transient()); rt[i] = rp[j]; delete p[j]; p[j] = nullptr; sym_reach("version consumed"); break; }
        case 8: { u64 j = sym_choice(3, "slot"); sym_assume(p[j] == nullptr); p[j] = new P(std::move(*t[i]).persistent()); rp[j] = rt[i]; delete t[i]; t[i] = new T(); rt[i].n = 0; sym_reach("mutable tree consumed"); break; }
        case 9: { sym_assume(t[1] != nullptr); delete t[1]; t[1] = nullptr; break; }
        case 10: { T n(std::move(*t[i])); delete t[i]; t[i] = new T(std::move(n)); sym_reach("moved"); break; }
    }
}
extern "C" void harness() {
    u64 before = sym_live_heap();
    t[0] = new T(); prestate(*t[0], rt[0]);
    if (sym_param("first", 1)) { p[0] = new P(t[0]->persistent()); rp[0] = rt[0]; }
    u64 k = sym_param("k", 2);
    for (u64 i = 0; i < k; ++i) step();
    for (int i = 0; i < 2; ++i) if (t[i]) check_all(*t[i], rt[i]);
    for (int i = 0; i < 3; ++i) if (p[i]) check_all(*p[i], rp[i]);
    if (t[0]->depth() >= 3) sym_reach("depth>=3");
    observe_all(*t[0], rt[0]);
    u64 order = sym_param("orders", 2) > 1 ? sym_choice(2, "order") : 0;
    if (order) { for (int i = 0; i < 2; ++i) { delete t[i]; t[i] = nullptr; } for (int i = 0; i < 3; ++i) if (p[i]) check_all(*p[i], rp[i]); }
    for (int i = 0; i < 3; ++i) { delete p[i]; p[i] = nullptr; }
    for (int i = 0; i < 2; ++i) { if (t[i]) { check_all(*t[i], rt[i]); } delete t[i]; t[i] = nullptr; }
    CHECK(sym_live_heap() == before, "memory is still allocated after the last handle is gone");
}
