// C12: element and key types that watch their own construction, moves and destruction
#include "tok.h"
#ifndef OT
#define OT Tok
#endif
typedef OT E;
template <> struct Fresh<E> { static E get(const char* n) { return E((u32)sym_var(sym_param("bits", 32), n)); } };
#if defined(MIXK) && MIXK == 1     // the type also stored in internal nodes as key
typedef BppTree<E, LEAFB(E), INTLB(sizeof(E)), DEPTH>::mixins<OrderedBuilder<ValueExtractor>> Tr;
#elif defined(MIXK) && MIXK == 2
typedef BppTree<E, LEAFB(E), INTLB(sizeof(E)), DEPTH>::mixins<MinBuilder<>> Tr;
#elif defined(MIXK) && MIXK == 3
typedef BppTree<E, LEAFB(E), INTLB(8 + sizeof(E)), DEPTH>::mixins<IndexedBuilder<>, MaxBuilder<>> Tr;
#else
#define PLAIN
typedef BppTree<E, LEAFB(E), INTLB(0), DEPTH>::mixins<> Tr;
#endif
typedef Tr::Transient T; typedef Tr::Persistent P; typedef Ref<u32, 64> R;
static u32 fixed;
static u32 number() { return sym_param("conc", 0) ? (fixed = (fixed * 5 + 3) % 16) : (u32)sym_var((int)sym_param("bits", 32), "val"); }   // conc: fixed, all different values in no particular order
// like edit(), but the reference holds plain numbers
static void put1(T& t, R& r, u64 pos, u64 how) {
    u32 x = number();
#if defined(MIXK) && MIXK == 1
    if (pos > 0) sym_assume(r[pos - 1] < x); if (pos < r.n) sym_assume(x < r[pos]);
    if (how == 3) { t.insert_v(E(x)); r.insert(pos, x); return; }
#endif
    E v(x); bool asMove = how & 1, emplace = how == 2;
    if (pos == r.n) { if (emplace) t.emplace_back(E(x)); else if (asMove) t.push_back(std::move(v)); else t.push_back(v); }
    else if (pos == 0) { if (emplace) t.emplace_front(E(x)); else if (asMove) t.push_front(std::move(v)); else t.push_front(v); }
    else { auto it = t.begin() + (i64)pos; if (asMove) t.insert(it, std::move(v)); else t.insert(it, v); }
    r.insert(pos, x);
}
static void step(T& t, R& r) {
    u64 op = sym_choice(8, "op"); if (op > 1 && op != 7) sym_assume(r.n > 0);
    u64 pos = op == 0 ? sym_choice(r.n + 1, "pos") : op > 0 && op < 4 ? sym_choice((sym_assume(r.n > 0), r.n), "pos") : 0;
    switch (op) {
        case 0: put1(t, r, pos, sym_choice(4, "how")); break;
        case 1: { auto it = t.begin() + (i64)pos; t.erase(it); r.erase(pos); break; }
        case 2: { u32 x = number();
#if defined(MIXK) && MIXK == 1
            if (pos > 0) sym_assume(r[pos - 1] < x); if (pos + 1 < r.n) sym_assume(x < r[pos + 1]);
#endif
            E v(x); auto it = t.begin() + (i64)pos; if (sym_choice(2, "move")) t.assign(it, std::move(v)); else t.assign(it, v); r[pos] = x; break; }
        case 3: { u32 x = number();
#if defined(MIXK) && MIXK == 1
            if (pos > 0) sym_assume(r[pos - 1] < x); if (pos + 1 < r.n) sym_assume(x < r[pos + 1]);
#endif
            auto it = t.begin() + (i64)pos; u32 seen = 0; t.update(it, [&](E const& o) { seen = o.get(); return E(x); }); CHECK(seen == r[pos], "update() passed a different element to the updater"); r[pos] = x; break; }
        case 4: { E x = t.pop_back(); CHECK(x.get() == r[r.n - 1], "pop_back() returned a different value"); r.erase(r.n - 1); break; }
        case 5: { E x = t.pop_front(); CHECK(x.get() == r[0], "pop_front() returned a different value"); r.erase(0); break; }
        case 6: { auto it = t.begin() + (i64)(r.n / 2); auto jt = t.begin();
#if defined(MIXK) && MIXK == 1
            sym_assume(r.n / 2 == 0);
#endif
            swap(*it, *jt); u32 x = r[0]; r[0] = r[r.n / 2]; r[r.n / 2] = x; break; }
        case 7: t.clear(); r.n = 0; break;
    }
}
template <typename Tree> static void same(Tree const& t, R const& r) {
    CHECK(t.size() == r.n, "size() differs from the reference");
    u64 i = 0; auto e = t.cend(); for (auto it = t.cbegin(); it != e; ++it, ++i) { CHECK(i < r.n, "traversal is too long"); CHECK((*it).get() == r[i], "an element differs from the reference"); }
    CHECK(i == r.n, "traversal is too short");
}
extern "C" void harness() {
    u64 heap = sym_live_heap(); i64 live0 = Tok::live;
    {
        T t; static R r, old; u64 n = sym_param("n", 5), lo = sym_param("lo", 0), k = sym_param("k", 1);
        u64 shape = sym_choice(4, "shape"); n = lo < n ? lo + sym_choice(n - lo + 1, "n") : n;
        if (shape == 0) for (u64 i = 0; i < n; ++i) put1(t, r, r.n, i % 4);
        else if (shape == 1) for (u64 i = 0; i < n; ++i) put1(t, r, 0, i % 4);
        else if (shape == 2) for (u64 i = 0; i < n; ++i) put1(t, r, r.n / 2, i % 4);
        else { for (u64 i = 0; i < 2 * n; ++i) put1(t, r, r.n, i % 4); for (u64 i = 0; i < n; ++i) { auto it = t.begin() + (i64)i; t.erase(it); r.erase(i); } }
        bool shared = sym_choice(2, "shared"); P snap = shared ? t.persistent() : P(); if (shared) { old = r; sym_reach("shared"); }
        for (u64 i = 0; i < k; ++i) {
            step(t, r); same(t, r); if (shared) same(snap, old);
#ifdef PLAIN
            if (!shared) CHECK(Tok::live - live0 == (std::is_same_v<E, Tok> ? (i64)r.n : 0), "the number of live element objects differs from the number of elements");
            else CHECK(Tok::live - live0 <= (std::is_same_v<E, Tok> ? (i64)(r.n + old.n) : 0), "more element objects are alive than all versions together hold");
#endif
        }
        if (t.depth() >= 3) sym_reach("depth>=3");
        sym_observe(t.size()); { auto e = t.cend(); for (auto it = t.cbegin(); it != e; ++it) sym_observe((*it).get()); }
        if (shared && sym_choice(2, "keep")) { snap = P(); same(t, r); }
    }
    CHECK(Tok::live == live0, "element objects are still alive after every handle is gone");
    CHECK(sym_live_heap() == heap, "memory is still allocated after every handle is gone");
}
