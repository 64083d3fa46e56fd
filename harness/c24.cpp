// C24: the inverted index of examples/ against a plain table of postings, for symbolic terms and documents
#include "common.h"
#include "inverted_index.hpp"
#ifndef TERM
#define TERM u32
#endif
typedef TERM Term;
typedef InvertedIndex<Term, (sizeof(Term) > 4 ? 40 : 24), (sizeof(Term) > 4 ? 96 : 72), 4> Index;
typedef Index::Transient T;
struct Ref1 { Term t[32]; u32 d[32]; u64 n = 0;               // sorted by (term, document), no duplicates
    void insert(Term x, u32 y) { u64 i = 0; while (i < n && (t[i] < x || (t[i] == x && d[i] < y))) ++i; if (i < n && t[i] == x && d[i] == y) { sym_reach("posting inserted again"); return; }
        for (u64 j = n; j > i; --j) { t[j] = t[j - 1]; d[j] = d[j - 1]; } t[i] = x; d[i] = y; ++n; } };
template <typename I> static void same(I const& ix, Ref1 const& r) {
    u64 i = 0; auto const& terms = ix.term_list();
    for (auto it = terms.cbegin(); it != terms.cend(); ++it) {
        CHECK(i < r.n, "the index holds a term that was never inserted"); CHECK(it->first == r.t[i], "a term differs from the postings inserted");
        u64 j = i; while (j < r.n && r.t[j] == r.t[i]) ++j;
        CHECK(it->second == j - i, "the document count of a term differs from the postings inserted");
        auto range = ix.term_doc_iterator(it); u64 q = i;
        for (auto d = range.first; d != range.second; ++d, ++q) { CHECK(q < j, "a term has more documents than were inserted for it"); CHECK(*d == r.d[q], "a document of a term differs from the postings inserted"); }
        CHECK(q == j, "a term has fewer documents than were inserted for it");
        if (j > i + 1) sym_reach("several documents for a term");
        i = j;
    }
    CHECK(i == r.n, "a term that was inserted is missing");
}
__attribute__((noinline)) static void insert_after_the_last_term(T& ix, Term t, u32 d) {   // its own function: the known finding is recognised by it
    u64 n = ix.term_list().size(); ix.insert(t, d);
    CHECK(ix.term_list().size() == n + 1 && ix.term_list().back().first == t, "a term inserted after all the others is lost");
}
static void add(T& ix, Ref1& r, Term t, u32 d) { if (r.n == 0 || t > r.t[r.n - 1]) insert_after_the_last_term(ix, t, d); else ix.insert(t, d); r.insert(t, d); }
// The persistent side of the index and looking up a term by name do not compile (see the known findings): decided here is what does.
extern "C" void harness() {
    u64 heap = sym_live_heap();
    {
        T ix; static Ref1 r; u64 n = sym_param("n", 3), pre = sym_param("pre", 0), shape = pre ? sym_choice(3, "shape") : 0;
        pre = pre ? sym_choice(pre + 1, "pre") : 0;
        for (u64 i = 0; i < pre; ++i) { u64 q = shape == 0 ? i : shape == 1 ? pre - 1 - i : (i * 5) % 7; Term t = (Term)(q / 2 * 2 + 1); u32 d = (u32)(q % 2 * 4 + 2); add(ix, r, t, d); }
        for (u64 i = 0; i < n; ++i) { Term t = (Term)sym_var((int)sym_param("tbits", 3), "term"); u32 d = (u32)sym_var((int)sym_param("dbits", 3), "doc"); add(ix, r, t, d); }
        same(ix, r);
        if (ix.term_list().depth() >= 2) sym_reach("several levels");
        sym_observe(ix.term_list().size()); sym_observe(ix.term_list().sum());
    }
    CHECK(sym_live_heap() == heap, "memory is still allocated after the index is gone");
}
