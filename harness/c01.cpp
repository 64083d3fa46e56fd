// C01: positional edits versus a plain array.  mode 0: every pre-state shape and size, k edits; mode 1: every subset of
// holes, k edits; mode 2: element type wider than a word / narrower, same as 0
#include "common.h"
#ifndef VAL
#define VAL u32
#endif
typedef BppTree<VAL, LEAFB(VAL), INTLB(0), DEPTH>::Transient T;
extern "C" void harness() {
    T t; static Ref<VAL, 1100> r;
    u64 mode = sym_param("mode", 0), n = sym_param("n", 6), lo = sym_param("lo", 0), k = sym_param("k", 1);
    if (mode == 0) { u64 only = sym_param("shape", 99), sh = only < ALLSHAPES ? only : sym_choice(SHAPES, "shape"); build(t, r, sh, lo + sym_choice(n - lo + 1, "n")); }
    else build_holes(t, r, n, sym_param("holes", n));
    same_sequence(t, r);
    for (u64 i = 0; i < k; ++i) { edit(t, r); if (i + 1 < k) same_sequence(t, r); }
    same_sequence(t, r); same_reverse(t, r);
    if (t.depth() >= 3) sym_reach("depth>=3");
    observe_all(t, r);
}
