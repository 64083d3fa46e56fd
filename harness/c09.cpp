// C09: snapshots taken at arbitrary points of a history keep their contents; the mutable tree is unaffected by them
#include "rich.h"
static T* t; static R r; static P* s[4]; static R rs[4];
static void checks() { check_all(*t, r); for (int i = 0; i < 4; ++i) if (s[i]) check_all(*s[i], rs[i]); }
extern "C" void harness() {
    u64 k = sym_param("k", 3), maxs = sym_param("snaps", 2), each = sym_param("each", 1);
    t = new T();
    prestate(*t, r);
    u64 live = 0; if (sym_param("first", 1)) { s[0] = new P(t->persistent()); rs[0] = r; live = 1; }
    for (u64 i = 0; i < k; ++i) {
        u64 kind = sym_param("kinds", 4) > 1 ? sym_choice(sym_param("kinds", 4), "step") : 0;
        if (kind == 0) edit(*t, r);
        else if (kind == 1) { sym_assume(live < maxs); s[live] = new P(t->persistent()); rs[live] = r; ++live; }
        else if (kind == 2) { sym_assume(live > 0); u64 j = sym_choice(live, "snapshot"); delete t; t = new T(s[j]->transient()); r = rs[j]; sym_reach("resumed from a snapshot"); }
        else { sym_assume(live > 0); --live; delete s[live]; s[live] = nullptr; sym_reach("snapshot dropped"); }
        if (each) checks();
    }
    checks();
    if (t->depth() >= 3) sym_reach("depth>=3");
    observe_all(*t, r); if (s[0]) observe_all(*s[0], rs[0]);
    for (int i = 0; i < 4; ++i) { delete s[i]; s[i] = nullptr; }
    check_all(*t, r); delete t;
}
