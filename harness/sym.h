// Interface between harnesses and the symbolic executor (engine/), also implemented natively by
// sym_native.cpp so that every counterexample and sampled path is replayed against compiled code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_var(int bits, const char* name);                 // a fresh symbolic value, zero-extended
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
uint64_t sym_concretize(uint64_t v);                          // one path per feasible value
void sym_reach(const char* label);                            // vacuity witness
void sym_observe(uint64_t v);                                 // compared with the native run
uint64_t sym_live_heap();                                     // number of live heap blocks
uint64_t sym_allocs();                                        // number of heap blocks obtained so far
uint64_t sym_param(const char* name, uint64_t dflt);
void sym_note(const char* text);
int sym_thread_spawn(void (*fn)(void*), void* arg);
void sym_thread_join(int id);
void harness();
}
inline uint8_t sym_u8(const char* n) { return (uint8_t)sym_var(8, n); }
inline uint16_t sym_u16(const char* n) { return (uint16_t)sym_var(16, n); }
inline uint32_t sym_u32(const char* n) { return (uint32_t)sym_var(32, n); }
inline uint64_t sym_u64(const char* n) { return sym_var(64, n); }
// a symbolic number in [0, n): stays symbolic
inline uint64_t sym_below(uint64_t n, const char* name) { uint64_t v = sym_var(n <= 256 ? 8 : 16, name); sym_assume(v < n); return v; }
// a symbolic number in [0, n), one path per feasible value
inline uint64_t sym_choice(uint64_t n, const char* name) { return sym_concretize(sym_below(n, name)); }
#define CHECK(c, msg) sym_assert((c), msg)
