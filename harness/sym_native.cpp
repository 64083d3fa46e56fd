// Native run-time for harnesses: inputs come from a file, assertions are real.
#include "sym.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <thread>
#include <vector>
static std::vector<uint64_t> vars, obs; static size_t vpos = 0, opos = 0;
static std::map<std::string, uint64_t> params; static bool haveObs = false;
static std::vector<std::thread> threads;
static std::atomic<long> live{0}, allocs{0};
#ifndef SYM_NO_NEW
void* operator new(size_t n) { ++live; ++allocs; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
static void fail(int code, const char* what, const char* msg) { printf("NATIVE-%s: %s\n", what, msg); fflush(stdout); _Exit(code); }
extern "C" {
uint64_t sym_var(int bits, const char* name) {
    while (vpos < vars.size() && false) {}
    if (vpos >= vars.size()) fail(4, "DIVERGED", name);
    uint64_t v = vars[vpos++]; return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void sym_assume(bool c) { if (!c) fail(4, "DIVERGED", "assumption does not hold"); }
void sym_assert(bool c, const char* msg) { if (!c) fail(3, "ASSERT", msg); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_reach(const char*) {}
void sym_note(const char*) {}
void sym_observe(uint64_t v) { if (haveObs) { if (opos >= obs.size() || obs[opos] != v) { char b[160]; snprintf(b, sizeof b, "observation %zu: native %llu, encoding %llu", opos, (unsigned long long)v, (unsigned long long)(opos < obs.size() ? obs[opos] : 0)); fail(5, "MISMATCH", b); } ++opos; } }
uint64_t sym_live_heap() { return (uint64_t)live.load(); }
uint64_t sym_allocs() { return (uint64_t)allocs.load(); }
uint64_t sym_param(const char* n, uint64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
int sym_thread_spawn(void (*fn)(void*), void* arg) { threads.emplace_back(fn, arg); return (int)threads.size(); }
void sym_thread_join(int id) { threads[id - 1].join(); }
}
// usage: prog FILE [name=value ...];  FILE lines: "var NAME BITS VALUE" | "obs VALUE"
int main(int argc, char** argv) { threads.reserve(8);
    FILE* f = fopen(argv[1], "r"); if (!f) return 9;
    char line[512];
    while (fgets(line, sizeof line, f)) {
        char nm[256]; int bits; unsigned long long v;
        if (sscanf(line, "var %255s %d %llu", nm, &bits, &v) == 3) { if (strcmp(nm, "sched")) vars.push_back(v); }
        else if (sscanf(line, "obs %llu", &v) == 1) { obs.push_back(v); haveObs = true; }
    }
    fclose(f);
    for (int i = 2; i < argc; ++i) { char* e = strchr(argv[i], '='); if (e) { *e = 0; params[argv[i]] = strtoull(e + 1, nullptr, 0); } }
    { vars.reserve(4096); obs.reserve(4096); }
    harness();
    if (haveObs && opos != obs.size()) fail(5, "MISMATCH", "fewer observations than the encoding");
    printf("NATIVE-OK\n"); fflush(stdout); _Exit(0);
}
