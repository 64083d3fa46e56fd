// Hash-consed bit-vector expressions (width 1..64) used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t {
    OP_CONST, OP_VAR, OP_UNINIT, OP_LIN, OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR,
    OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_EQ, OP_ULT, OP_SLT, OP_NOT, OP_ITE,
    OP_EXTRACT, OP_ZEXT, OP_SEXT, OP_CONCAT
};

constexpr int MAXVARS = 256;
struct VarSet {
    uint64_t w[MAXVARS / 64];
    void clear() { memset(w, 0, sizeof w); }
    void add(const VarSet& o) { for (int i = 0; i < MAXVARS / 64; ++i) w[i] |= o.w[i]; }
    bool meets(const VarSet& o) const { uint64_t r = 0; for (int i = 0; i < MAXVARS / 64; ++i) r |= w[i] & o.w[i]; return r != 0; }
    bool within(const VarSet& o) const { uint64_t r = 0; for (int i = 0; i < MAXVARS / 64; ++i) r |= w[i] & ~o.w[i]; return r == 0; }
    bool empty() const { uint64_t r = 0; for (int i = 0; i < MAXVARS / 64; ++i) r |= w[i]; return r == 0; }
    void set(int i) { w[i >> 6] |= 1ull << (i & 63); }
    bool has(int i) const { return w[i >> 6] >> (i & 63) & 1; }
};

struct Expr {
    Op op;
    uint8_t w;
    bool taint;        // contains an UNINIT leaf
    bool ite;          // contains an ITE
    uint8_t cleaves;   // >0: an ITE tree whose leaves are all constants (number of leaves)
    uint32_t nk;
    uint32_t id;
    uint64_t c;        // CONST value / VAR index / LIN constant / EXTRACT low bit / UNINIT id
    VarSet vs;
    const Expr** k;
    uint64_t* coef;    // LIN only
    mutable uint64_t gen;
    mutable uint64_t val;
};
typedef const Expr* E;
typedef std::vector<uint64_t> Model;

inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

// A run-time value: concrete when e == nullptr.
struct Val {
    E e;
    uint64_t c;
    bool conc() const { return !e; }
};
inline Val cv(uint64_t c) { return Val{nullptr, c}; }
Val toVal(E e);

E mkConst(int w, uint64_t v);
E mkVar(int idx, int w);
E mkUninit(int w);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkMulC(E a, uint64_t c);
E mkBin(Op op, E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkExtract(E a, int lo, int w);
E mkZExt(E a, int w);
E mkSExt(E a, int w);
E mkConcat(E hi, E lo);
inline E toE(const Val& v, int w) { return v.e ? v.e : mkConst(w, v.c); }

uint64_t evalOp(Op op, int w, uint64_t a, uint64_t b);   // w = operand width
void newGen();                                           // start evaluating under another model
uint64_t evalE(E e, const Model& m);                     // under the current generation
uint64_t evalFresh(E e, const Model& m);
E substUninit0(E e);
E substVars(E e, const VarSet& f, const Model& m, std::unordered_map<E, E>& memo);   // partial evaluation
E substLits(E e, std::unordered_map<E, E>& memo);   // folds boolean subterms listed in memo
std::string show(E e, int depth = 6);
extern uint64_t g_exprCount;

// solver.cpp
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, cacheHits = 0, modelHits = 0, splitHits = 0, z3calls = 0, tableHits = 0, crossChecked = 0, lia = 0; double z3time = 0; };
extern SolverStats g_ss;
// Is pc && extra satisfiable?  `base` satisfies pc; on sat, `out` satisfies pc && extra.
bool solverCheck(const std::vector<E>& pc, E extra, const Model& base, Model& out);
void solverDumpTo(const char* path, int maxq);
void solverReset();
int varWidth(int idx);   // width of a solver variable (exec.cpp)
struct SolverUnknown { std::string why; };
