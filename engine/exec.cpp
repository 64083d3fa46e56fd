// Symbolic executor over the pre-decoded program.
#include "ir.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static Program P;
typedef std::vector<uint32_t> VC;

// ---------------------------------------------------------------- memory
enum { K_STACK, K_HEAP, K_GLOBAL, K_CONST, K_FUNC, K_EXTERN, K_EXC };
struct Obj {
    int rc; uint32_t size; uint8_t kind; bool alive; uint8_t owner; int loc;
    uint8_t* data;      // bytes, or byte index within ex[i] for symbolic bytes
    uint8_t* st;        // null: all concrete; per byte 0 concrete, 1 uninitialised, 2 symbolic
    E* ex;
};
static Obj* newObj(uint32_t size, uint8_t kind, bool uninit) {
    Obj* o = new Obj{1, size, kind, true, 0, -1, (uint8_t*)calloc(size ? size : 1, 1), nullptr, nullptr};
    if (uninit) { o->st = (uint8_t*)malloc(size ? size : 1); memset(o->st, 1, size); }
    return o;
}
static Obj* cloneObj(const Obj* s) {
    Obj* o = new Obj(*s); o->rc = 1;
    o->data = (uint8_t*)malloc(s->size ? s->size : 1); memcpy(o->data, s->data, s->size);
    if (s->st) { o->st = (uint8_t*)malloc(s->size ? s->size : 1); memcpy(o->st, s->st, s->size); }
    if (s->ex) { o->ex = (E*)malloc(sizeof(E) * (s->size ? s->size : 1)); memcpy((void*)o->ex, s->ex, sizeof(E) * s->size); }
    return o;
}
static void dropObj(Obj* o) { if (o && --o->rc == 0) { free(o->data); free(o->st); free((void*)o->ex); delete o; } }
struct Chunk { int rc; Obj* o[64]; };
struct Mem {
    std::vector<Chunk*> ch; uint32_t n = 0;
    Mem() {}
    Mem(const Mem& m) : ch(m.ch), n(m.n) { for (auto* c : ch) c->rc++; }
    Mem& operator=(const Mem&) = delete;
    ~Mem() { for (auto* c : ch) if (--c->rc == 0) { for (auto* o : c->o) dropObj(o); delete c; } }
    Obj* get(uint32_t id) const { return id < n ? ch[id >> 6]->o[id & 63] : nullptr; }
    Chunk* wch(uint32_t i) {
        Chunk*& c = ch[i];
        if (c->rc > 1) { Chunk* d = new Chunk(*c); d->rc = 1; for (auto* o : d->o) if (o) o->rc++; c->rc--; c = d; }
        return c;
    }
    Obj* getw(uint32_t id) {
        Chunk* c = wch(id >> 6); Obj*& o = c->o[id & 63];
        if (o->rc > 1) { Obj* d = cloneObj(o); o->rc--; o = d; }
        return o;
    }
    uint32_t add(Obj* o) {
        if ((n & 63) == 0) { Chunk* c = new Chunk(); c->rc = 1; memset(c->o, 0, sizeof c->o); ch.push_back(c); }
        wch(n >> 6)->o[n & 63] = o; return n++;
    }
};

// ---------------------------------------------------------------- state
struct Frame { int fn; int pc; std::vector<Val> r; std::vector<uint32_t> al; };
enum { T_RUN, T_PENDING, T_JOIN, T_DONE };
struct Pend { uint64_t addr; uint8_t kind; };   // kind 0 load, 1 commuting rmw, 2 other
struct Thread {
    std::vector<Frame> f; int status = T_RUN; int joinT = -1; bool granted = false; Pend pend{0, 0};
    VC vc, relFence, acqPend;
    std::vector<std::pair<uint64_t, uint64_t>> caught; uint64_t excPtr = 0, excTy = 0;
};
struct Acc { uint32_t off, len; uint8_t tid; bool wr, at; uint32_t clk; int loc; };
struct VarRec { std::string name; int idx; int w; };
struct Sleep { int t; Pend p; };
struct State {
    Mem mem; std::vector<Thread> th; int cur = 0; int live = 1;
    std::vector<E> pc; Model model; std::vector<VarRec> vars; VarSet fixed; uint64_t fixSig = 0; std::vector<std::pair<E, bool>> lits; uint64_t litSig = 0;
    std::vector<Val> obs; std::vector<std::string> notes;
    uint64_t insts = 0; int heapLive = 0; uint64_t heapAll = 0; uint64_t forks = 0;
    std::vector<Sleep> sleep; std::unordered_map<uint64_t, VC> sync; std::unordered_map<uint32_t, std::vector<Acc>> shadow;
    bool threaded = false; int steps = 0;
    State() { fixed.clear(); }
};
struct PathEnd { const char* why; };
struct EngineError { std::string what; };
struct Violation { std::string kind, msg; std::string loc; std::vector<std::string> stack; std::vector<std::string> inputs; bool schedules = false; };

// ---------------------------------------------------------------- run configuration & results
static std::map<std::string, uint64_t> params;
static std::vector<std::string> knownPats;
static std::string outDir = ".";
static uint64_t maxInsts = 20000000, seed = 1, maxSteps = 400;
static int workers = 8, sampleEvery = 0;
static double timeLimit = 800;
static auto T0 = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static bool traceOn = false;

struct Shared { std::atomic<int> next, stop; };
static Shared* SH;
struct Stats {
    uint64_t paths = 0, forks = 0, insts = 0, asserts = 0, symAsserts = 0, concretized = 0, infeasible = 0, maxPathInsts = 0, races_checked = 0, sleepPruned = 0, sched = 0, memchecks = 0;
    std::map<std::string, uint64_t> reach, known;
} S;
static std::vector<char> locHit;
static std::vector<State*> work;
static std::vector<Violation> viols;
static uint64_t rng = 88172645463325252ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static std::string locStr(int l) { if (l < 0) return "?"; return P.locs[l].first + ":" + std::to_string(P.locs[l].second); }

struct Sample { std::vector<std::string> lines; };
static std::vector<Sample> samples;
static bool replaying = false; static std::vector<uint64_t> replayVals;
static int maxSamples = 6;

static std::string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }

static std::vector<int> widths;
int varWidth(int idx) { return idx < (int)widths.size() ? widths[idx] : 64; }
// ---------------------------------------------------------------- executor
struct Exec {
    State* s; Thread* t; Frame* f; Func* fn;
    void sync() { t = &s->th[s->cur]; if (!t->f.empty()) { f = &t->f.back(); fn = &P.funcs[f->fn]; } }

    // -- helpers for violations
    std::vector<std::string> stack() {
        std::vector<std::string> r;
        for (int i = (int)t->f.size() - 1; i >= 0; --i) { Func& g = P.funcs[t->f[i].fn]; int l = t->f[i].pc < (int)g.code.size() ? g.code[t->f[i].pc].loc : -1; r.push_back(g.pretty.substr(0, 300) + " @ " + locStr(l)); if (r.size() > 24) break; }
        return r;
    }
    std::vector<std::string> inputs(const Model& m) {
        std::vector<std::string> r;
        for (auto& v : s->vars) r.push_back(v.name + " " + std::to_string(v.w) + " " + hex(v.idx < (int)m.size() ? m[v.idx] & maskw(v.w) : 0));
        return r;
    }
    [[noreturn]] void violate(const std::string& kind, const std::string& msg, const Model* m = nullptr) {
        Violation v; v.kind = kind; v.msg = msg; v.stack = stack(); v.loc = locStr(fn->code[f->pc].loc); v.inputs = inputs(m ? *m : s->model); v.schedules = s->threaded;
        std::string all = kind + ": " + msg; for (auto& f : v.stack) all += "\n" + f;
        for (auto& k : knownPats) if (all.find(k) != std::string::npos) { S.known[k]++; throw PathEnd{"known"}; }
        viols.push_back(v);
        throw PathEnd{"violation"};
    }

    // -- constraints
    void addC(E c) { if (c->op == OP_CONST) return; if (c->op == OP_AND && c->w == 1) { addC(c->k[0]); addC(c->k[1]); return; } s->pc.push_back(c); noteFixed(c); addLit(c, true); }
    // boolean terms whose value the path condition decides
    void addLit(E c, bool v) {
        while (c->op == OP_NOT) { c = c->k[0]; v = !v; }
        if (c->op == OP_CONST || c->op == OP_VAR || c->taint) return;
        if (c->w == 1 && ((c->op == OP_AND && v) || (c->op == OP_OR && !v))) { addLit(c->k[0], v); addLit(c->k[1], v); }
        s->lits.push_back({c, v}); s->litSig = (s->litSig ^ (c->id * 2 + v + 1)) * 0x9E3779B97F4A7C15ull; s->litSig ^= s->litSig >> 31;
    }
    void noteFixed(E c) {
        if (c->op == OP_EQ && c->k[1]->op == OP_CONST && c->k[0]->op == OP_VAR) fixVar((int)c->k[0]->c, c->k[1]->c);
        else if (c->op == OP_VAR) fixVar((int)c->c, 1);
        else if (c->op == OP_NOT && c->k[0]->op == OP_VAR) fixVar((int)c->k[0]->c, 0);
    }
    void fixVar(int v, uint64_t x) { if (s->fixed.has(v)) return; s->fixed.set(v); s->fixSig = (s->fixSig ^ (x * 256 + v + 1)) * 0x9E3779B97F4A7C15ull; s->fixSig ^= s->fixSig >> 29; }
    // partial evaluation under the variables this path has already fixed
    E simp(E e) {
        if (e->op == OP_CONST) return e;
        if (e->vs.meets(s->fixed)) {
            if (memoSig != s->fixSig || simpMemo.size() > 500000) { simpMemo.clear(); memoSig = s->fixSig; }
            e = substVars(e, s->fixed, s->model, simpMemo);
        }
        if ((e->ite || e->w == 1) && e->op != OP_CONST && !s->lits.empty()) {
            if (litMemoSig != s->litSig || litMemo.size() > 500000) { litMemo.clear(); litMemoSig = s->litSig; for (auto& l : s->lits) litMemo[l.first] = mkConst(1, l.second); }
            e = substLits(e, litMemo);
        }
        return e;
    }
    std::unordered_map<E, E> litMemo; uint64_t litMemoSig = 0;
    std::unordered_map<E, E> simpMemo; uint64_t memoSig = 0;
    E notE(E c) { return mkNot(c); }
    bool check(E extra, Model& out) { return solverCheck(s->pc, extra, s->model, out); }
    uint64_t ev(E e) { return evalFresh(e, s->model); }
    // resolve uninitialised bits before a value decides anything
    E defined(E e0, const char* what) {
        E e = simp(e0);
        if (!e->taint) return e;
        E z = substUninit0(e); Model m;
        E d = e->w == 1 ? mkBin(OP_XOR, e, z) : mkNot(mkEq(e, z));
        if (d->op == OP_CONST ? d->c : check(d, m)) violate("uninitialised-value", std::string(what) + " depends on an uninitialised value");
        return z;
    }
    Val definedV(Val v, const char* what) { if (!v.e || !v.e->taint) return v; return toVal(defined(v.e, what)); }
    State* fork() { State* n = new State(*s); S.forks++; n->forks++; return n; }
    // decide a boolean; forks when both outcomes are possible. `onOther` adjusts the forked state.
    template<class Fn> bool decide(Val c, Fn onOther) {
        if (!c.e) return c.c & 1;
        E e = defined(c.e, "a branch");
        if (e->op == OP_CONST) return e->c;
        bool side = ev(e);
        if (e->vs.within(s->fixed)) return side;
        E other = side ? mkNot(e) : e; Model m;
        if (check(other, m)) {
            State* n = fork(); n->model = m; State* keep = s; s = n; addC(other); s = keep;
            onOther(n, !side); work.push_back(n);
            addC(side ? e : mkNot(e));
        } else addLit(e, side);
        return side;
    }
    // make a value concrete; other feasible values are explored in forked states re-executing the instruction
    uint64_t concretize(Val v, const char* what) {
        if (!v.e) return v.c;
        E e = defined(v.e, what);
        if (e->op == OP_CONST) return e->c;
        uint64_t x = ev(e);
        if (e->vs.within(s->fixed)) return x;
        E eq = mkEq(e, mkConst(e->w, x)); E ne = mkNot(eq); Model m;
        if (check(ne, m)) {
            S.concretized++;
            State* n = fork(); n->model = m; State* keep = s; s = n; addC(ne); s = keep; work.push_back(n);
            addC(eq);
        } else noteFixedBy(e, x);
        return x;
    }
    void noteFixedBy(E e, uint64_t x) { if (e->op == OP_VAR) fixVar((int)e->c, x); }

    // -- memory
    void race(uint32_t id, uint32_t off, uint32_t len, bool wr, bool at) {
        if (!s->threaded) return;
        S.races_checked++;
        auto& L = s->shadow[id]; uint32_t me = s->cur; uint32_t clk = t->vc[me];
        bool seen = false;
        for (auto& a : L) {
            if (a.off >= off + len || off >= a.off + a.len) continue;
            if (a.tid == me) { if (a.wr == wr && a.at == at && a.off == off && a.len == len) { a.clk = clk; a.loc = fn->code[f->pc].loc; seen = true; } continue; }
            if (!(a.wr || wr) || (a.at && at)) continue;
            if (a.clk > t->vc[a.tid]) violate("data-race", std::string("conflicting unsynchronised accesses to the same memory by two threads: ") + (wr ? "write" : "read") + " at " + locStr(fn->code[f->pc].loc) + " and " + (a.wr ? "write" : "read") + " at " + locStr(a.loc));
        }
        if (!seen) L.push_back(Acc{off, len, (uint8_t)me, wr, at, clk, fn->code[f->pc].loc});
    }
    Obj* checkAcc(uint64_t addr, uint32_t n, bool wr) {
        uint32_t id = addr >> 32, off = (uint32_t)addr;
        if (id == 0) violate("null-dereference", wr ? "store through a null or near-null pointer" : "load through a null or near-null pointer");
        Obj* o = s->mem.get(id);
        if (!o) violate("wild-pointer", "access through a wild pointer");
        if (!o->alive) violate(o->kind == K_HEAP ? "use-after-free" : "use-after-return", std::string(wr ? "store to" : "load from") + " memory that is no longer alive");
        if ((uint64_t)off + n > o->size) violate("out-of-bounds", std::string(wr ? "store" : "load") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int32_t)off) + " of a " + std::to_string(o->size) + "-byte object");
        if (wr && (o->kind == K_CONST || o->kind == K_FUNC)) violate("write-to-constant", "store to constant memory");
        if (o->kind == K_FUNC) violate("wild-pointer", "access to code");
        if (o->kind == K_EXTERN) throw EngineError{"access to external object " + P.globals[id].name};
        return o;
    }
    Val loadAt(uint64_t addr, int w, bool at = false) {
        int n = (w + 7) / 8; Obj* o = checkAcc(addr, n, false); uint32_t off = (uint32_t)addr;
        race(addr >> 32, off, n, false, at);
        bool conc = true;
        if (o->st) for (int i = 0; i < n; ++i) if (o->st[off + i]) { conc = false; break; }
        if (conc) { uint64_t v = 0; memcpy(&v, o->data + off, n); return cv(v & maskw(w)); }
        E acc = nullptr;
        for (int i = 0; i < n;) {
            E part; int j = i + 1;
            uint8_t st = o->st[off + i];
            if (st == 2) {
                E x = o->ex[off + i]; int b = o->data[off + i];
                while (j < n && o->st[off + j] == 2 && o->ex[off + j] == x && o->data[off + j] == b + (j - i)) ++j;
                part = mkExtract(x, b * 8, (j - i) * 8);
            } else if (st == 1) part = mkUninit(8);
            else { while (j < n && o->st[off + j] == 0) ++j; uint64_t v = 0; memcpy(&v, o->data + off + i, j - i); part = mkConst((j - i) * 8, v); }
            acc = acc ? mkConcat(part, acc) : part;
            i = j;
        }
        return toVal(simp(mkExtract(acc, 0, w)));
    }
    void storeAt(uint64_t addr, Val v, int w, bool at = false) {
        int n = (w + 7) / 8; checkAcc(addr, n, true); uint32_t off = (uint32_t)addr;
        race(addr >> 32, off, n, true, at);
        Obj* o = s->mem.getw(addr >> 32);
        if (!v.e) { memcpy(o->data + off, &v.c, n); if (o->st) memset(o->st + off, 0, n); return; }
        if (!o->st) { o->st = (uint8_t*)calloc(o->size, 1); }
        if (v.e->op == OP_UNINIT) { memset(o->st + off, 1, n); return; }
        if (!o->ex) o->ex = (E*)calloc(o->size, sizeof(E));
        E e = w == n * 8 ? v.e : mkZExt(v.e, n * 8);
        for (int i = 0; i < n; ++i) { o->st[off + i] = 2; o->ex[off + i] = e; o->data[off + i] = (uint8_t)i; }
    }
    // resolve a symbolic address: all feasible values (within one instruction), or a concrete one by forking
    void boundsCheck(E a, uint32_t n, bool wr) {
        // every feasible address must be inside a live object; decided for the object the model picks, others by forking
        (void)a; (void)n; (void)wr;
    }
    Val loadV(Val a, int w, bool at = false) {
        if (!a.e) return loadAt(a.c, w, at);
        E e = defined(a.e, "a memory address");
        if (e->op == OP_CONST) return loadAt(e->c, w, at);
        if (e->vs.within(s->fixed)) return loadAt(ev(e), w, at);
        // enumerate the feasible addresses with the solver and build an if-then-else
        int n = (w + 7) / 8;
        std::vector<uint64_t> vals; E rest = mkConst(1, 1); Model m; bool ok = true;
        uint64_t x = ev(e);
        for (;;) {
            vals.push_back(x);
            uint32_t id = x >> 32; Obj* o = s->mem.get(id);
            // any feasible address of this object out of its bounds?
            if (vals.size() == 1 && o && o->alive && id) {
                E hi = mkEq(mkExtract(e, 32, 32), mkConst(32, id));
                E bad = o->size < (uint32_t)n ? mkConst(1, 1) : mkUlt(mkConst(32, o->size - n), mkExtract(e, 0, 32));
                E q = mkBin(OP_AND, hi, bad);
                if (q->op == OP_CONST ? q->c : check(q, m)) { if (q->op == OP_CONST) m = s->model; uint64_t bx = evalFresh(e, m); addC(q); s->model = m; checkAcc(bx, n, false); violate("out-of-bounds", "symbolic load out of bounds", &m); }
            }
            rest = mkBin(OP_AND, rest, mkNot(mkEq(e, mkConst(64, x))));
            if (rest->op == OP_CONST && !rest->c) break;
            if (!check(rest, m)) break;
            if (vals.size() >= 48) { ok = false; break; }
            x = evalFresh(e, m);
        }
        if (!ok) return loadAt(concretize(toVal(e), "a memory address"), w, at);
        // addresses outside live objects are violations on their own path
        std::vector<uint64_t> good;
        for (uint64_t v : vals) {
            uint32_t id = v >> 32; Obj* o = s->mem.get(id);
            bool bad = !id || !o || !o->alive || (uint64_t)(uint32_t)v + n > o->size || o->kind == K_FUNC;
            if (bad) { E q = mkEq(e, mkConst(64, v)); if (check(q, m)) { addC(q); s->model = m; checkAcc(v, n, false); } }
            else good.push_back(v);
        }
        E r = nullptr;
        for (size_t i = good.size(); i-- > 0;) { E v = toE(loadAt(good[i], w, at), w); r = r ? mkIte(mkEq(e, mkConst(64, good[i])), v, r) : v; }
        return toVal(r);
    }
    uint64_t addrOf(Val a, uint32_t n, bool wr) {   // concrete address; forks
        if (!a.e) return a.c;
        E e = defined(a.e, "a memory address");
        if (e->op == OP_CONST) return e->c;
        if (!e->vs.within(s->fixed)) {
            uint64_t x = ev(e); uint32_t id = x >> 32; Obj* o = s->mem.get(id); Model m;
            if (o && o->alive && id && n) {
                E hi = mkEq(mkExtract(e, 32, 32), mkConst(32, id));
                E bad = o->size < n ? mkConst(1, 1) : mkUlt(mkConst(32, o->size - n), mkExtract(e, 0, 32));
                E q = mkBin(OP_AND, hi, bad);
                if (q->op != OP_CONST && check(q, m)) { uint64_t bx = evalFresh(e, m); addC(q); s->model = m; checkAcc(bx, n, wr); violate("out-of-bounds", "symbolic access out of bounds", &m); }
            }
        }
        return concretize(toVal(e), "a memory address");
    }
    uint64_t alloc(uint32_t size, int kind) {
        Obj* o = newObj(size, kind, true); o->loc = f ? fn->code[f->pc].loc : -1;
        uint32_t id = s->mem.add(o);
        if (kind == K_HEAP) { s->heapLive++; s->heapAll++; }
        return (uint64_t)id << 32;
    }
    void freeHeap(uint64_t a) {
        if (!a) return;
        uint32_t id = a >> 32; Obj* o = s->mem.get(id);
        if (!o || o->kind != K_HEAP) violate("bad-free", "deallocation of something that was not allocated");
        if (!o->alive) violate("double-free", "memory deallocated twice");
        if ((uint32_t)a) violate("bad-free", "deallocation of an interior pointer");
        race(id, 0, o->size ? o->size : 1, true, false);
        Obj* w = s->mem.getw(id); w->alive = false; s->heapLive--;
    }
    void memcopy(uint64_t d, uint64_t src, uint32_t n) {
        if (!n) return;
        checkAcc(src, n, false); checkAcc(d, n, true);
        race(src >> 32, (uint32_t)src, n, false, false); race(d >> 32, (uint32_t)d, n, true, false);
        Obj* o = s->mem.getw(d >> 32); Obj* q = s->mem.get(src >> 32);
        uint32_t a = (uint32_t)d, b = (uint32_t)src;
        memmove(o->data + a, q->data + b, n);
        if (q->st || o->st) {
            if (!o->st) o->st = (uint8_t*)calloc(o->size, 1);
            if (q->ex && !o->ex) o->ex = (E*)calloc(o->size, sizeof(E));
            if (q->st) memmove(o->st + a, q->st + b, n); else memset(o->st + a, 0, n);
            if (q->ex) memmove((void*)(o->ex + a), q->ex + b, n * sizeof(E));
        }
    }

    // -- operands
    Val op(int32_t r) const { return r >= 0 ? f->r[r] : P.pool[~r]; }
    void set(int32_t d, Val v) { f->r[d] = v; }
    void setE(int32_t d, E e) { f->r[d] = toVal(e); }
    std::vector<Val> tmp;
    void take(const Edge& e) {
        if (e.copies.size() == 1) { f->r[e.copies[0].first] = op(e.copies[0].second); }
        else if (!e.copies.empty()) {
            tmp.clear(); for (auto& c : e.copies) tmp.push_back(op(c.second));
            for (size_t i = 0; i < e.copies.size(); ++i) f->r[e.copies[i].first] = tmp[i];
        }
        f->pc = e.pc;
    }
    static void takeIn(State* st, const Edge& e) { Exec x; x.s = st; x.sync(); x.take(e); }

    // -- calls
    void enter(int fi, const Val* args, int n) {
        Func& g = P.funcs[fi]; g.called++;
        if (!g.unsupported.empty()) throw EngineError{"cannot encode " + g.pretty + ": " + g.unsupported};
        if (t->f.size() > 400) violate("unbounded-recursion", "call depth exceeds 400");
        Frame nf; nf.fn = fi; nf.pc = 0; nf.r.assign(g.nregs, cv(0));
        for (int i = 0; i < n && i < (int)g.argw.size(); ++i) nf.r[i] = args[i];
        for (auto& b : g.byval) { uint64_t src = addrOf(nf.r[b.first], b.second, false), a = alloc(b.second, K_STACK); memcopy(a, src, b.second); nf.al.push_back(a >> 32); nf.r[b.first] = cv(a); }
        t->f.push_back(std::move(nf)); sync();
    }
    void leaveFrame() { for (uint32_t id : f->al) { Obj* o = s->mem.getw(id); o->alive = false; } t->f.pop_back(); }
    void doRet(const std::vector<Val>& rv) {
        leaveFrame();
        if (t->f.empty()) { t->status = T_DONE; return; }
        sync();
        Inst& I = fn->code[f->pc]; Ext& x = fn->ext[I.ext];
        if (I.dst >= 0) for (size_t i = 0; i < rv.size(); ++i) f->r[I.dst + i] = rv[i];
        if (x.invoke) take(x.edges[0]); else f->pc++;
    }
    void finishCall(const Inst& I, const Ext& x) { if (x.invoke) take(x.edges[0]); else f->pc++; }
    bool matches(uint64_t thrown, uint64_t clause) {
        if (!clause) return true;
        for (int i = 0; i < 8 && thrown; ++i) {
            if (thrown == clause) return true;
            std::string& n = P.typeinfoName[thrown]; auto it = P.typeinfoBase.find(thrown);
            if (it != P.typeinfoBase.end()) { thrown = it->second; continue; }
            std::string b = n == "_ZTISt12out_of_range" || n == "_ZTISt16invalid_argument" || n == "_ZTISt12length_error" || n == "_ZTISt12domain_error" ? "_ZTISt11logic_error" : n == "_ZTISt11logic_error" || n == "_ZTISt13runtime_error" || n == "_ZTISt9bad_alloc" ? "_ZTISt9exception" : n == "_ZTISt14overflow_error" || n == "_ZTISt11range_error" ? "_ZTISt13runtime_error" : "";
            uint64_t nx = 0; if (!b.empty()) for (auto& p : P.typeinfoName) if (p.second == b) nx = p.first;
            thrown = nx;
            if (!nx && b == "_ZTISt9exception") break;
        }
        return false;
    }
    void unwind(uint64_t ptr, uint64_t ty) {
        t->excPtr = ptr; t->excTy = ty;
        // search phase
        bool handler = false;
        for (int i = (int)t->f.size() - 1; i >= 0 && !handler; --i) {
            Frame& g = t->f[i]; Func& gf = P.funcs[g.fn]; Inst& I = gf.code[g.pc];
            if (I.op != I_CALL || !gf.ext[I.ext].invoke) continue;
            Inst& lp = gf.code[gf.ext[I.ext].edges[1].pc];
            if (lp.op == I_LANDINGPAD) for (uint64_t c : gf.ext[lp.ext].clauses) if (c != ~0ull && matches(ty, c)) handler = true;
        }
        if (!handler) violate("uncaught-exception", "an exception of type " + P.typeinfoName[ty] + " escapes");
        for (;;) {
            Inst& I = fn->code[f->pc];
            if (I.op == I_CALL && fn->ext[I.ext].invoke) {
                Edge& e = fn->ext[I.ext].edges[1]; Inst& lp = fn->code[e.pc]; Ext& lx = fn->ext[lp.ext];
                bool m = lx.cleanup; for (uint64_t c : lx.clauses) if (c != ~0ull && matches(ty, c)) m = true;
                if (m) { take(e); return; }
            }
            leaveFrame();
            if (t->f.empty()) throw EngineError{"unwinding past the end"};
            sync();
        }
    }
    std::string cstr(uint64_t a) { std::string r; for (int i = 0; i < 200; ++i) { Val v = loadAt(a + i, 8); if (v.e || !v.c) break; r += (char)v.c; } return r; }

    E newVar(int w, const std::string& name) {
        static std::map<std::pair<int, int>, int> reg;   // (ordinal on the path, width) -> solver variable
        auto k = std::make_pair((int)s->vars.size(), w);
        auto it = reg.find(k); int idx;
        if (it == reg.end()) { idx = (int)reg.size(); reg[k] = idx; widths.push_back(w); } else idx = it->second;
        s->vars.push_back({name, idx, w}); for (char& ch : s->vars.back().name) if (ch == ' ') ch = '_';
        if ((int)s->model.size() <= idx) s->model.resize(idx + 1, 0);
        s->model[idx] = 0;
        if (replaying) { size_t o = s->vars.size() - 1; if (o >= replayVals.size()) throw EngineError{"replay file too short"}; s->model[idx] = w >= 64 ? replayVals[o] : replayVals[o] & ((1ull << w) - 1); return mkConst(w, s->model[idx]); }
        return mkVar(idx, w);
    }
    void assume(Val c) {
        if (!c.e) { if (!(c.c & 1)) throw PathEnd{"assume"}; return; }
        E e = defined(c.e, "an assumption");
        if (e->op == OP_CONST) { if (!e->c) throw PathEnd{"assume"}; return; }
        if (!ev(e)) { Model m; if (!check(e, m)) throw PathEnd{"assume"}; s->model = m; }
        addC(e);
    }
    void assertTrue(Val c, const std::string& msg) {
        S.asserts++;
        if (!c.e) { if (!(c.c & 1)) violate("assertion", msg); return; }
        E e = defined(c.e, "an assertion");
        if (e->op == OP_CONST) { if (!e->c) violate("assertion", msg); return; }
        S.symAsserts++;
        if (!ev(e)) violate("assertion", msg);
        if (e->vs.within(s->fixed)) return;
        Model m; if (check(mkNot(e), m)) violate("assertion", msg, &m);
    }

    // -- threads
    static void join(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
    void growVC() { for (auto& x : s->th) x.vc.resize(s->th.size(), 0); }
    void atomicLoadSync(uint64_t a, int ord) {
        if (!s->threaded) return; auto it = s->sync.find(a); if (it == s->sync.end()) return;
        if (ord == 2 || ord >= 4) join(t->vc, it->second); else join(t->acqPend, it->second);
    }
    void atomicStoreSync(uint64_t a, int ord, bool rmw) {
        if (!s->threaded) return; VC& L = s->sync[a];
        if (!rmw) L.clear();
        if (ord >= 3) { join(L, t->vc); t->vc[s->cur]++; } else join(L, t->relFence);
    }
    bool independent(const Pend& a, const Pend& b) { return a.addr != b.addr || (a.kind == 0 && b.kind == 0) || (a.kind == 1 && b.kind == 1); }
    // called before a visible (atomic) operation; returns true when the thread must wait for the scheduler
    bool visible(uint64_t addr, uint8_t kind) {
        if (!s->threaded || s->live < 2) return false;
        if (t->granted) { t->granted = false; return false; }
        t->status = T_PENDING; t->pend = Pend{addr, kind}; return true;
    }
    void schedule() {   // pick the next thread; forks
        for (;;) {
            // threads that can proceed invisibly go first
            for (size_t i = 0; i < s->th.size(); ++i) {
                Thread& x = s->th[i];
                if (x.status == T_JOIN && s->th[x.joinT].status == T_DONE) { x.status = T_RUN; }
                if (x.status == T_RUN) { s->cur = (int)i; sync(); return; }
            }
            std::vector<int> en;
            for (size_t i = 0; i < s->th.size(); ++i) if (s->th[i].status == T_PENDING) en.push_back((int)i);
            if (en.empty()) { s->cur = 0; sync(); violate("deadlock", "no thread can proceed"); }
            std::vector<int> ch;
            for (int i : en) { bool sl = false; for (auto& z : s->sleep) if (z.t == i) sl = true; if (!sl) ch.push_back(i); }
            if (ch.empty()) { S.sleepPruned++; throw PathEnd{"sleep"}; }
            if (++s->steps > (int)maxSteps) throw EngineError{"schedule longer than the bound"};
            S.sched++;
            int pick = ch[0];
            if (ch.size() > 1) {
                // the choice is a solver variable: one branch per feasible value
                E v = newVar(8, "sched");
                if (replaying) { size_t k = s->model[s->vars.back().idx]; if (k >= ch.size()) throw EngineError{"replayed schedule not possible"}; for (size_t j = 0; j < k; ++j) s->sleep.push_back({ch[j], s->th[ch[j]].pend}); pick = ch[k]; grant(s, pick); sync(); return; }
                for (size_t k = ch.size(); k-- > 1;) {
                    State* n = fork(); State* keep = s; s = n; 
                    E c = mkEq(v, mkConst(8, k)); Model m; if (!check(c, m)) { s = keep; delete n; continue; }
                    addC(c); n->model = m;
                    for (size_t j = 0; j < k; ++j) n->sleep.push_back({ch[j], n->th[ch[j]].pend});
                    s = keep; grant(n, ch[k]); work.push_back(n);
                }
                addC(mkEq(v, mkConst(8, 0)));
            }
            grant(s, pick); sync(); return;
        }
    }
    void grant(State* st, int i) {
        Pend p = st->th[i].pend; std::vector<Sleep> k;
        for (auto& z : st->sleep) if (z.t != i && independent(z.p, p)) k.push_back(z);
        st->sleep.swap(k);
        st->th[i].status = T_RUN; st->th[i].granted = true; st->cur = i;
    }

    // -- arithmetic on possibly symbolic values
    Val arith(IOp o, int w, Val a, Val b) {
        static const Op map[] = {OP_LIN, OP_LIN, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR};
        if (!a.e && !b.e) {
            switch (o) { case I_ADD: return cv((a.c + b.c) & maskw(w)); case I_SUB: return cv((a.c - b.c) & maskw(w)); default: break; }
            if (o >= I_SHL && b.c >= (uint64_t)w) return Val{mkUninit(w), 0};
            if ((o >= I_UDIV && o <= I_SREM) && !b.c) violate("division-by-zero", "integer division by zero");
            return cv(evalOp(map[o], w, a.c, b.c));
        }
        E x = toE(a, w), y = toE(b, w);
        if (o == I_ADD) return toVal(mkAdd(x, y));
        if (o == I_SUB) return toVal(mkSub(x, y));
        if (o >= I_UDIV && o <= I_SREM) {
            y = defined(y, "a divisor"); Model m; E z = mkEq(y, mkConst(w, 0));
            if (z->op == OP_CONST ? z->c : check(z, m)) violate("division-by-zero", "integer division by zero", z->op == OP_CONST ? nullptr : &m);
        }
        if (o >= I_SHL && y->op != OP_CONST) {
            // out-of-range shift amounts give poison
            E inr = mkUlt(y, mkConst(w, w)); E r = mkBin(map[o], x, y);
            if ((uint64_t)w > maskw(w)) return toVal(r);
            if (inr->op == OP_CONST) return inr->c ? toVal(r) : Val{mkUninit(w), 0};
            Model m; if (check(mkNot(inr), m)) return toVal(mkIte(inr, r, mkUninit(w)));
            return toVal(r);
        }
        if (o >= I_SHL && y->c >= (uint64_t)w) return Val{mkUninit(w), 0};
        return toVal(mkBin(map[o], x, y));
    }
    Val icmp(int p, int w, Val a, Val b) {
        if (!a.e && !b.e) {
            uint64_t x = a.c, y = b.c; int64_t sx = sextw(x, w), sy = sextw(y, w);
            switch (p) { case 32: return cv(x == y); case 33: return cv(x != y); case 34: return cv(x > y); case 35: return cv(x >= y); case 36: return cv(x < y); case 37: return cv(x <= y); case 38: return cv(sx > sy); case 39: return cv(sx >= sy); case 40: return cv(sx < sy); default: return cv(sx <= sy); }
        }
        E x = toE(a, w), y = toE(b, w);
        switch (p) { case 32: return toVal(mkEq(x, y)); case 33: return toVal(mkNot(mkEq(x, y))); case 34: return toVal(mkUlt(y, x)); case 35: return toVal(mkNot(mkUlt(x, y))); case 36: return toVal(mkUlt(x, y)); case 37: return toVal(mkNot(mkUlt(y, x))); case 38: return toVal(mkSlt(y, x)); case 39: return toVal(mkNot(mkSlt(x, y))); case 40: return toVal(mkSlt(x, y)); default: return toVal(mkNot(mkSlt(y, x))); }
    }
    void builtin(int bi, const Inst& I, const Ext& x);
    void step();
    void run(State* st);
};

enum {
    B_NONE, B_NEW, B_DELETE, B_MEMCPY, B_MEMSET, B_LIFE, B_CXA_ALLOC, B_CXA_FREEEXC, B_CXA_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_TYPEID,
    B_NOP, B_TERMINATE, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_USUBSAT, B_UADDSAT, B_UMULO, B_UADDO, B_USUBO, B_SMULO, B_SADDO, B_SSUBO, B_FSHL, B_FSHR, B_EXPECT, B_TRAP, B_RET0,
    B_VAR, B_ASSUME, B_ASSERT, B_CONC, B_REACH, B_OBS, B_LIVE, B_ALLOCS, B_PARAM, B_SPAWN, B_JOIN, B_BCMP, B_STDTHROW, B_NOTE, B_STRLEN
};
static int builtinId(const std::string& n) {
    static const std::unordered_map<std::string, int> M = {
        {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmSt11align_val_t", B_NEW}, {"malloc", B_NEW}, {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"free", B_DELETE},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_BCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN},
        {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREEEXC}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_rethrow", B_RETHROW},
        {"_ZSt9terminatev", B_TERMINATE}, {"abort", B_TERMINATE}, {"__cxa_pure_virtual", B_TERMINATE}, {"__cxa_call_unexpected", B_TERMINATE}, {"_ZSt10unexpectedv", B_TERMINATE},
        {"__cxa_atexit", B_RET0}, {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP},
        {"_ZNSt11logic_errorC1EPKc", B_NOP}, {"_ZNSt11logic_errorC2EPKc", B_NOP}, {"_ZNSt11logic_errorD1Ev", B_NOP}, {"_ZNSt12out_of_rangeC1EPKc", B_NOP}, {"_ZNSt12out_of_rangeD1Ev", B_NOP}, {"_ZNSt13runtime_errorC1EPKc", B_NOP}, {"_ZNSt13runtime_errorD1Ev", B_NOP},
        {"_ZNSt16invalid_argumentC1EPKc", B_NOP}, {"_ZNSt16invalid_argumentD1Ev", B_NOP}, {"_ZNSt12length_errorC1EPKc", B_NOP}, {"_ZNSt12length_errorD1Ev", B_NOP}, {"_ZNSt9exceptionD2Ev", B_NOP}, {"_ZNSt9exceptionD1Ev", B_NOP}, {"_ZNSt12domain_errorC1EPKc", B_NOP}, {"_ZNSt12domain_errorD1Ev", B_NOP},
        {"_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", B_NOP},{"_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", B_NOP},
        {"_ZNSt14overflow_errorC1EPKc", B_NOP}, {"_ZNSt14overflow_errorD1Ev", B_NOP}, {"_ZNSt11range_errorC1EPKc", B_NOP}, {"_ZNSt11range_errorD1Ev", B_NOP},
        {"sym_var", B_VAR}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_concretize", B_CONC}, {"sym_reach", B_REACH}, {"sym_observe", B_OBS}, {"sym_live_heap", B_LIVE}, {"sym_allocs", B_ALLOCS}, {"sym_param", B_PARAM}, {"sym_thread_spawn", B_SPAWN}, {"sym_thread_join", B_JOIN}, {"sym_note", B_NOTE},
    };
    auto it = M.find(n); if (it != M.end()) return it->second;
    auto pre = [&](const char* p) { return n.rfind(p, 0) == 0; };
    if (pre("_ZSt") && n.find("__throw_") != std::string::npos) return B_STDTHROW;
    if (pre("llvm.memcpy") || pre("llvm.memmove")) return B_MEMCPY;
    if (pre("llvm.memset")) return B_MEMSET;
    if (pre("llvm.lifetime")) return B_LIFE;
    if (pre("llvm.eh.typeid.for")) return B_TYPEID;
    if (pre("llvm.umax")) return B_UMAX; if (pre("llvm.umin")) return B_UMIN; if (pre("llvm.smax")) return B_SMAX; if (pre("llvm.smin")) return B_SMIN; if (pre("llvm.abs")) return B_ABS;
    if (pre("llvm.ctpop")) return B_CTPOP; if (pre("llvm.ctlz")) return B_CTLZ; if (pre("llvm.cttz")) return B_CTTZ; if (pre("llvm.bswap")) return B_BSWAP;
    if (pre("llvm.usub.sat")) return B_USUBSAT; if (pre("llvm.uadd.sat")) return B_UADDSAT;
    if (pre("llvm.umul.with")) return B_UMULO; if (pre("llvm.uadd.with")) return B_UADDO; if (pre("llvm.usub.with")) return B_USUBO;
    if (pre("llvm.smul.with")) return B_SMULO; if (pre("llvm.sadd.with")) return B_SADDO; if (pre("llvm.ssub.with")) return B_SSUBO;
    if (pre("llvm.fshl")) return B_FSHL; if (pre("llvm.fshr")) return B_FSHR; if (pre("llvm.expect")) return B_EXPECT; if (pre("llvm.trap") || pre("llvm.ubsantrap")) return B_TRAP;
    if (pre("llvm.stacksave") || pre("llvm.is.constant")) return B_RET0;
    if (pre("llvm.stackrestore") || pre("llvm.dbg")) return B_NOP;
    return B_NONE;
}

void Exec::builtin(int bi, const Inst& I, const Ext& x) {
    auto A = [&](int i) { return op(x.ops[i]); };
    auto ret = [&](Val v) { if (I.dst >= 0) f->r[I.dst] = v; finishCall(I, x); };
    auto retv = [&]() { finishCall(I, x); };
    int w = x.widths.empty() ? 64 : x.widths[0];
    switch (bi) {
        case B_NEW: { uint64_t n = concretize(A(0), "an allocation size"); if (n > (1u << 28)) violate("huge-allocation", "allocation of " + hex(n) + " bytes"); return ret(cv(alloc((uint32_t)n, K_HEAP))); }
        case B_DELETE: { uint64_t a = concretize(A(0), "a deallocated pointer"); freeHeap(a); return retv(); }
        case B_MEMCPY: { uint64_t n = concretize(A(2), "a copy length"); uint64_t d = addrOf(A(0), (uint32_t)n, true), q = addrOf(A(1), (uint32_t)n, false); if (n > (1u << 28)) violate("out-of-bounds", "copy of a huge block"); memcopy(d, q, (uint32_t)n); if (I.dst >= 0) f->r[I.dst] = cv(d); return retv(); }
        case B_MEMSET: {
            uint64_t n = concretize(A(2), "a fill length"); uint64_t d = addrOf(A(0), (uint32_t)n, true); Val v = A(1);
            if (n > (1u << 28)) violate("out-of-bounds", "fill of a huge block");
            if (n) { checkAcc(d, (uint32_t)n, true); if (v.e) for (uint64_t i = 0; i < n; ++i) storeAt(d + i, x.widths[1] > 8 ? toVal(mkExtract(v.e, 0, 8)) : v, 8); else { race(d >> 32, (uint32_t)d, (uint32_t)n, true, false); Obj* o = s->mem.getw(d >> 32); memset(o->data + (uint32_t)d, (int)v.c, n); if (o->st) memset(o->st + (uint32_t)d, 0, n); } }
            if (I.dst >= 0) f->r[I.dst] = cv(d);
            return retv();
        }
        case B_LIFE: {
            Val p = A(1); if (!p.e && (p.c >> 32)) { Obj* o = s->mem.get(p.c >> 32); if (o && o->kind == K_STACK && o->alive) { o = s->mem.getw(p.c >> 32); if (!o->st) o->st = (uint8_t*)malloc(o->size ? o->size : 1); memset(o->st, 1, o->size); } }
            return retv();
        }
        case B_BCMP: {
            uint64_t n = concretize(A(2), "a comparison length"); uint64_t a = addrOf(A(0), (uint32_t)n, false), b = addrOf(A(1), (uint32_t)n, false);
            E r = mkConst(32, 0);
            for (uint64_t i = n; i-- > 0;) { E p = toE(loadAt(a + i, 8), 8), q = toE(loadAt(b + i, 8), 8); r = mkIte(mkEq(p, q), r, mkIte(mkUlt(p, q), mkConst(32, ~0ull), mkConst(32, 1))); }
            return ret(toVal(r));
        }
        case B_STRLEN: { uint64_t a = addrOf(A(0), 1, false), n = 0; while (concretize(loadAt(a + n, 8), "a string")) ++n; return ret(cv(n)); }
        case B_CXA_ALLOC: { uint64_t n = concretize(A(0), "an allocation size"); return ret(cv(alloc((uint32_t)n, K_EXC))); }
        case B_CXA_FREEEXC: return retv();
        case B_CXA_THROW: { Val p = A(0), ty = A(1); return unwind(p.c, ty.c); }
        case B_STDTHROW: violate("library-exception", fn->pretty + " raises " + P.funcs[x.func].pretty);
        case B_BEGINCATCH: t->caught.push_back({t->excPtr, t->excTy}); return ret(A(0));
        case B_ENDCATCH: if (!t->caught.empty()) t->caught.pop_back(); return retv();
        case B_RETHROW: { if (t->caught.empty()) violate("terminate", "rethrow without an active exception"); auto e = t->caught.back(); return unwind(e.first, e.second); }
        case B_TYPEID: return ret(cv((A(0).c >> 32) & 0x7fffffff));
        case B_NOP: if (I.dst >= 0) { for (size_t i = 0; i < x.leaves.size(); ++i) f->r[I.dst + i] = cv(0); } return retv();
        case B_RET0: return ret(cv(0));
        case B_TERMINATE: violate("terminate", "the program terminates (std::terminate / abort)");
        case B_TRAP: violate("undefined-behaviour", "trap: undefined behaviour detected by the compiler's checks");
        case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: {
            Val a = A(0), b = A(1); bool sg = bi == B_SMAX || bi == B_SMIN, mx = bi == B_UMAX || bi == B_SMAX;
            Val c = icmp(sg ? 40 : 36, w, a, b);
            if (!c.e) return ret((c.c != 0) == mx ? b : a);
            E ea = toE(a, w), eb = toE(b, w); return ret(toVal(mx ? mkIte(c.e, eb, ea) : mkIte(c.e, ea, eb)));
        }
        case B_ABS: { Val a = A(0); Val c = icmp(40, w, a, cv(0)); E ea = toE(a, w); return ret(toVal(mkIte(toE(c, 1), mkSub(mkConst(w, 0), ea), ea))); }
        case B_CTPOP: { E a = toE(A(0), w), r = mkConst(w, 0); for (int i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), w)); return ret(toVal(r)); }
        case B_CTLZ: { E a = toE(A(0), w), r = mkConst(w, w); for (int i = 0; i < w; ++i) r = mkIte(mkEq(mkExtract(a, i, 1), mkConst(1, 1)), mkConst(w, w - 1 - i), r); return ret(toVal(r)); }
        case B_CTTZ: { E a = toE(A(0), w), r = mkConst(w, w); for (int i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(a, i, 1), mkConst(1, 1)), mkConst(w, i), r); return ret(toVal(r)); }
        case B_BSWAP: { E a = toE(A(0), w), r = nullptr; for (int i = 0; i < w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } return ret(toVal(r)); }
        case B_USUBSAT: { E a = toE(A(0), w), b = toE(A(1), w); return ret(toVal(mkIte(mkUlt(a, b), mkConst(w, 0), mkSub(a, b)))); }
        case B_UADDSAT: { E a = toE(A(0), w), b = toE(A(1), w), c = mkAdd(a, b); return ret(toVal(mkIte(mkUlt(c, a), mkConst(w, ~0ull), c))); }
        case B_UADDO: { E a = toE(A(0), w), b = toE(A(1), w), c = mkAdd(a, b); f->r[I.dst] = toVal(c); f->r[I.dst + 1] = toVal(mkUlt(c, a)); return retv(); }
        case B_USUBO: { E a = toE(A(0), w), b = toE(A(1), w); f->r[I.dst] = toVal(mkSub(a, b)); f->r[I.dst + 1] = toVal(mkUlt(a, b)); return retv(); }
        case B_SADDO: { E a = toE(A(0), w), b = toE(A(1), w), c = mkAdd(a, b), z = mkConst(w, 0); f->r[I.dst] = toVal(c); f->r[I.dst + 1] = toVal(mkBin(OP_AND, mkNot(mkBin(OP_XOR, mkSlt(a, z), mkSlt(b, z))), mkBin(OP_XOR, mkSlt(a, z), mkSlt(c, z)))); return retv(); }
        case B_SSUBO: { E a = toE(A(0), w), b = toE(A(1), w), c = mkSub(a, b), z = mkConst(w, 0); f->r[I.dst] = toVal(c); f->r[I.dst + 1] = toVal(mkBin(OP_AND, mkBin(OP_XOR, mkSlt(a, z), mkSlt(b, z)), mkBin(OP_XOR, mkSlt(a, z), mkSlt(c, z)))); return retv(); }
        case B_UMULO: case B_SMULO: {
            Val a = A(0), b = A(1);
            if (!a.e && !b.e) { bool ov; uint64_t r; if (bi == B_UMULO) { unsigned __int128 p = (unsigned __int128)a.c * b.c; r = (uint64_t)p & maskw(w); ov = (p >> w) != 0; } else { __int128 p = (__int128)sextw(a.c, w) * sextw(b.c, w); r = (uint64_t)p & maskw(w); ov = p != (__int128)sextw(r, w); } f->r[I.dst] = cv(r); f->r[I.dst + 1] = cv(ov); return retv(); }
            if (w <= 32) { E ea = toE(a, w), eb = toE(b, w); bool sg = bi == B_SMULO; E p = mkMul(sg ? mkSExt(ea, 2 * w) : mkZExt(ea, 2 * w), sg ? mkSExt(eb, 2 * w) : mkZExt(eb, 2 * w)); E lo = mkExtract(p, 0, w); f->r[I.dst] = toVal(lo); f->r[I.dst + 1] = toVal(mkNot(mkEq(p, sg ? mkSExt(lo, 2 * w) : mkZExt(lo, 2 * w)))); return retv(); }
            uint64_t n = concretize(a, "an overflow-checked product"), m = concretize(b, "an overflow-checked product"); unsigned __int128 p = (unsigned __int128)n * m; f->r[I.dst] = cv((uint64_t)p); f->r[I.dst + 1] = cv((p >> 64) != 0); return retv();
        }
        case B_FSHL: case B_FSHR: {
            E a = toE(A(0), w), b = toE(A(1), w); Val sh = A(2); uint64_t k = concretize(sh, "a shift amount") % w;
            if (bi == B_FSHR) k = (w - k) % w;
            if (bi == B_FSHR && k == 0) return ret(toVal(b));
            if (k == 0) return ret(toVal(a));
            return ret(toVal(mkBin(OP_OR, mkBin(OP_SHL, a, mkConst(w, k)), mkBin(OP_LSHR, b, mkConst(w, w - k)))));
        }
        case B_EXPECT: return ret(A(0));
        case B_VAR: { int bits = (int)A(0).c; std::string n = cstr(A(1).c); E v = newVar(bits, n); return ret(toVal(mkZExt(v, 64))); }
        case B_ASSUME: { Val c = A(0); if (w > 1) c = icmp(33, w, c, cv(0)); assume(c); return retv(); }
        case B_ASSERT: { Val c = A(0); if (w > 1) c = icmp(33, w, c, cv(0)); std::string m = (!c.e && (c.c & 1)) ? "" : cstr(A(1).c); assertTrue(c, m); return retv(); }
        case B_CONC: return ret(cv(concretize(A(0), "a chosen value")));
        case B_REACH: { S.reach[cstr(A(0).c)]++; return retv(); }
        case B_NOTE: { s->notes.push_back(cstr(A(0).c)); return retv(); }
        case B_OBS: { Val v = A(0); if (v.e) v = toVal(defined(v.e, "an observed value")); s->obs.push_back(v); return retv(); }
        case B_LIVE: return ret(cv(s->heapLive));
        case B_ALLOCS: return ret(cv(s->heapAll));
        case B_PARAM: { std::string n = cstr(A(0).c); auto it = params.find(n); return ret(it == params.end() ? A(1) : cv(it->second)); }
        case B_SPAWN: {
            int target = P.funcOfObj[A(0).c >> 32]; Val arg = A(1);
            int parent = s->cur; int id = (int)s->th.size();
            ret(cv(id));
            s->th.emplace_back(); growVC(); sync();
            Thread& c = s->th[id]; c.vc = s->th[parent].vc; c.vc[id] = 1; s->th[parent].vc[parent]++;
            s->threaded = true; s->live++;
            Frame nf; nf.fn = target; nf.pc = 0; nf.r.assign(P.funcs[target].nregs, cv(0)); nf.r[0] = arg; P.funcs[target].called++;
            c.f.push_back(std::move(nf)); sync();
            return;
        }
        case B_JOIN: {
            int id = (int)A(0).c;
            if (s->th[id].status != T_DONE) { t->status = T_JOIN; t->joinT = id; return; }
            join(t->vc, s->th[id].vc); return retv();
        }
        default: throw EngineError{"call of a function that is not available to the encoding: " + P.funcs[x.func].pretty};
    }
}

void Exec::step() {
    Inst& I = fn->code[f->pc];
    if (I.loc >= 0) locHit[I.loc] = 1;
    s->insts++;
    if (traceOn) fprintf(stderr, "T%d %s pc=%d op=%d %s\n", s->cur, fn->name.substr(0, 60).c_str(), f->pc, I.op, locStr(I.loc).c_str());
    switch (I.op) {
        case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR:
            set(I.dst, arith(I.op, I.w, op(I.a), op(I.b))); f->pc++; break;
        case I_ICMP: set(I.dst, icmp(I.sub, I.w, op(I.a), op(I.b))); f->pc++; break;
        case I_SELECT: {
            Val c = op(I.a);
            if (!c.e) set(I.dst, c.c & 1 ? op(I.b) : op(I.c));
            else setE(I.dst, mkIte(c.e, toE(op(I.b), I.w), toE(op(I.c), I.w)));
            f->pc++; break;
        }
        case I_GEP: {
            Val b = op(I.a); Ext& x = fn->ext[I.ext];
            if (!b.e) {
                uint64_t v = b.c + x.off; bool conc = true;
                for (size_t i = 0; i < x.ops.size(); ++i) { Val o = op(x.ops[i]); if (o.e) { conc = false; break; } v += (uint64_t)sextw(o.c, x.widths[i]) * x.nums[i]; }
                if (conc) { set(I.dst, cv(v)); f->pc++; break; }
            }
            E e = mkAdd(toE(b, 64), mkConst(64, (uint64_t)x.off));
            for (size_t i = 0; i < x.ops.size(); ++i) e = mkAdd(e, mkMulC(mkSExt(toE(op(x.ops[i]), x.widths[i]), 64), x.nums[i]));
            setE(I.dst, e); f->pc++; break;
        }
        case I_LOAD: {
            Val a = op(I.a);
            if (I.ord) { uint64_t ad = addrOf(a, (I.w + 7) / 8, false); if (visible(ad, 0)) return; atomicLoadSync(ad, I.ord); set(I.dst, loadAt(ad, I.w, true)); f->pc++; break; }
            if (I.w) set(I.dst, loadV(a, I.w));
            else { Ext& x = fn->ext[I.ext]; uint64_t ad = addrOf(a, 1, false); for (size_t i = 0; i < x.leaves.size(); ++i) set(I.dst + (int)i, loadAt(ad + x.leaves[i].off, x.leaves[i].w)); }
            f->pc++; break;
        }
        case I_STORE: {
            if (I.w) {
                uint64_t ad = addrOf(op(I.b), (I.w + 7) / 8, true);
                if (I.ord) { if (visible(ad, 2)) return; atomicStoreSync(ad, I.ord, false); }
                storeAt(ad, op(I.a), I.w, I.ord != 0);
            } else { Ext& x = fn->ext[I.ext]; uint64_t ad = addrOf(op(I.b), 1, true); for (size_t i = 0; i < x.leaves.size(); ++i) storeAt(ad + x.leaves[i].off, op(x.ops[i]), x.leaves[i].w); }
            f->pc++; break;
        }
        case I_ALLOCA: { uint64_t a = alloc((uint32_t)fn->ext[I.ext].off, K_STACK); f->al.push_back(a >> 32); set(I.dst, cv(a)); f->pc++; break; }
        case I_BR: take(fn->ext[I.ext].edges[0]); break;
        case I_CONDBR: {
            Ext& x = fn->ext[I.ext];
            bool b = decide(op(I.a), [&](State* n, bool side) { takeIn(n, x.edges[side ? 0 : 1]); });
            take(x.edges[b ? 0 : 1]); break;
        }
        case I_SWITCH: {
            Ext& x = fn->ext[I.ext]; uint64_t v = concretize(op(I.a), "a switch"); size_t k = 0;
            for (size_t i = 0; i < x.nums.size(); ++i) if (x.nums[i] == v) { k = i + 1; break; }
            take(x.edges[k]); break;
        }
        case I_CALL: {
            Ext& x = fn->ext[I.ext]; int fi = x.func;
            if (fi < 0) { uint64_t a = concretize(op(I.a), "a called address"); uint32_t id = a >> 32; fi = id < P.funcOfObj.size() && !(uint32_t)a ? P.funcOfObj[id] : -1; if (fi < 0) violate("wild-pointer", "call through an invalid function pointer"); }
            Func& g = P.funcs[fi];
            if (g.decl || g.builtin) { 
                if (g.builtin == B_NONE) throw EngineError{"call of a function that is not available to the encoding: " + g.pretty};
                builtin(g.builtin, I, x); break; }
            Val args[64]; int n = (int)x.ops.size(); if (n > 64) throw EngineError{"too many arguments"};
            for (int i = 0; i < n; ++i) args[i] = op(x.ops[i]);
            enter(fi, args, n); break;
        }
        case I_RET: { Ext& x = fn->ext[I.ext]; std::vector<Val> rv; for (int o : x.ops) rv.push_back(op(o)); doRet(rv); break; }
        case I_UNREACHABLE: violate("undefined-behaviour", "execution reaches code the compiler proved unreachable");
        case I_COPY: set(I.dst, op(I.a)); f->pc++; break;
        case I_TRUNC: { Val a = op(I.a); if (!a.e) set(I.dst, cv(a.c & maskw(I.w))); else setE(I.dst, mkExtract(a.e, 0, I.w)); f->pc++; break; }
        case I_ZEXT: { Val a = op(I.a); if (!a.e) set(I.dst, a); else setE(I.dst, mkZExt(a.e, I.w)); f->pc++; break; }
        case I_SEXT: { Val a = op(I.a); if (!a.e) set(I.dst, cv((uint64_t)sextw(a.c, I.sub) & maskw(I.w))); else setE(I.dst, mkSExt(a.e, I.w)); f->pc++; break; }
        case I_LANDINGPAD: {
            Ext& x = fn->ext[I.ext]; uint64_t sel = 0;
            for (uint64_t c : x.clauses) if (c != ~0ull && matches(t->excTy, c)) { sel = c ? (c >> 32) & 0x7fffffff : 1; break; }
            set(I.dst, cv(t->excPtr)); set(I.dst + 1, cv(sel)); f->pc++; break;
        }
        case I_RESUME: { leaveFrame(); if (t->f.empty()) throw EngineError{"resume past the end"}; sync(); unwind(t->excPtr, t->excTy); break; }
        case I_RMW: {
            uint64_t ad = addrOf(op(I.a), (I.w + 7) / 8, true);
            if (visible(ad, I.c && (I.sub == 1 || I.sub == 2) ? 1 : 2)) return;
            atomicLoadSync(ad, I.ord); 
            Val o = loadAt(ad, I.w, true), v = op(I.b), r;
            switch (I.sub) {
                case 0: r = v; break; case 1: r = arith(I_ADD, I.w, o, v); break; case 2: r = arith(I_SUB, I.w, o, v); break; case 3: r = arith(I_AND, I.w, o, v); break; case 5: r = arith(I_OR, I.w, o, v); break; case 6: r = arith(I_XOR, I.w, o, v); break;
                default: throw EngineError{"atomic operation kind"};
            }
            storeAt(ad, r, I.w, true); atomicStoreSync(ad, I.ord, true);
            if (I.dst >= 0) set(I.dst, o);
            f->pc++; break;
        }
        case I_CMPXCHG: {
            uint64_t ad = addrOf(op(I.a), (I.w + 7) / 8, true);
            if (visible(ad, 2)) return;
            Val o = loadAt(ad, I.w, true); Val c = icmp(32, I.w, o, op(I.b)); uint64_t ok = concretize(c, "compare-exchange");
            atomicLoadSync(ad, ok ? I.ord : I.sub);
            if (ok) { storeAt(ad, op(I.c), I.w, true); atomicStoreSync(ad, I.ord, true); }
            set(I.dst, o); set(I.dst + 1, cv(ok)); f->pc++; break;
        }
        case I_FENCE:
            if (s->threaded) { if (I.ord == 2 || I.ord >= 4) Exec::join(t->vc, t->acqPend); if (I.ord >= 3) { t->relFence = t->vc; t->vc[s->cur]++; } }
            f->pc++; break;
        case I_NOP: f->pc++; break;
    }
}

static void finishPath(Exec& x) {
    State* s = x.s;
    S.paths++;
    // keep a sample (reservoir) for validation against the compiled code
    if (!s->threaded) {
        bool keep = (int)samples.size() < maxSamples; size_t pos = samples.size();
        if (!keep) { uint64_t j = rnd() % S.paths; if (j < (uint64_t)maxSamples) { keep = true; pos = j; } }
        if (keep) {
            Sample sm; for (auto& l : x.inputs(s->model)) sm.lines.push_back("var " + l);
            for (auto& n : s->notes) sm.lines.push_back("note " + n);
            newGen(); for (auto& o : s->obs) sm.lines.push_back("obs " + hex(o.e ? evalE(o.e, s->model) : o.c));
            if (pos == samples.size()) samples.push_back(sm); else samples[pos] = sm;
        }
    }
}

void Exec::run(State* st) {
    s = st; sync(); uint64_t start = s->insts;
    try {
        uint64_t n = 0;
        for (;;) {
            if (t->status != T_RUN) {
                if (t->status == T_DONE) { s->live--; if (s->cur == 0) { finishPath(*this); break; } }
                schedule(); continue;
            }
            step();
            t = &s->th[s->cur]; if (!t->f.empty()) { f = &t->f.back(); fn = &P.funcs[f->fn]; }
            if (s->insts > maxInsts) violate("non-termination", "a single execution exceeds " + hex(maxInsts) + " instructions");
            if ((++n & 0xfff) == 0 && (SH->stop.load(std::memory_order_relaxed) || elapsed() > timeLimit)) { if (elapsed() > timeLimit) throw EngineError{"time limit"}; throw PathEnd{"stop"}; }
        }
    } catch (PathEnd& e) {
        if (!strcmp(e.why, "assume")) S.infeasible++;
        if (!strcmp(e.why, "violation")) SH->stop = 1;
    }
    S.insts += s->insts - start; S.maxPathInsts = std::max(S.maxPathInsts, s->insts);
    delete st;
}

// ---------------------------------------------------------------- results
static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static void writeResult(const std::string& path, const std::string& error) {
    std::ofstream o(path);
    o << "{\"paths\":" << S.paths << ",\"forks\":" << S.forks << ",\"instructions\":" << S.insts << ",\"asserts\":" << S.asserts << ",\"symbolic_asserts\":" << S.symAsserts << ",\"concretizations\":" << S.concretized
      << ",\"assumed_away\":" << S.infeasible << ",\"max_path_instructions\":" << S.maxPathInsts << ",\"races_checked\":" << S.races_checked << ",\"sleep_pruned\":" << S.sleepPruned << ",\"schedule_points\":" << S.sched
      << ",\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"cache_hits\":" << g_ss.cacheHits << ",\"model_hits\":" << g_ss.modelHits << ",\"z3_calls\":" << g_ss.z3calls << ",\"lia_decided\":" << g_ss.lia << ",\"split_decided\":" << g_ss.splitHits << ",\"table_decided\":" << g_ss.tableHits << ",\"cross_checked\":" << g_ss.crossChecked << ",\"z3_seconds\":" << g_ss.z3time
      << ",\"expressions\":" << g_exprCount << ",\"wall\":" << elapsed() << ",\"error\":" << js(error);
    o << ",\"reach\":{"; bool c = false; for (auto& p : S.reach) { o << (c ? "," : "") << js(p.first) << ":" << p.second; c = true; } o << "}";
    o << ",\"known\":{"; c = false; for (auto& p : S.known) { o << (c ? "," : "") << js(p.first) << ":" << p.second; c = true; } o << "}";
    o << ",\"functions\":["; c = false; for (auto& f : P.funcs) if (f.called && !f.decl && f.userCode) { o << (c ? "," : "") << js(f.pretty.substr(0, 240)); c = true; } o << "]";
    o << ",\"lines\":{"; std::map<std::string, std::set<int>> L; for (size_t i = 0; i < locHit.size(); ++i) if (locHit[i]) L[P.locs[i].first].insert(P.locs[i].second);
    c = false; for (auto& p : L) { if (p.first.find("/usr/") == 0) continue; o << (c ? "," : "") << js(p.first) << ":["; bool d = false; for (int l : p.second) { o << (d ? "," : "") << l; d = true; } o << "]"; c = true; } o << "}";
    o << ",\"violations\":["; c = false;
    for (auto& v : viols) {
        o << (c ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"threads\":" << (v.schedules ? "true" : "false") << ",\"inputs\":["; bool d = false; for (auto& i : v.inputs) { o << (d ? "," : "") << js(i); d = true; }
        o << "],\"stack\":["; d = false; for (auto& i : v.stack) { o << (d ? "," : "") << js(i); d = true; } o << "]}"; c = true;
    }
    o << "],\"samples\":["; c = false;
    for (auto& sm : samples) { o << (c ? "," : "") << "["; bool d = false; for (auto& l : sm.lines) { o << (d ? "," : "") << js(l); d = true; } o << "]"; c = true; }
    o << "]}\n";
}
static std::string runLoop(bool bfs, size_t target) {
    Exec x;
    try {
        while (!work.empty() && !SH->stop) {
            State* st;
            if (bfs) { if (work.size() >= target) return ""; st = work.front(); work.erase(work.begin()); }
            else { st = work.back(); work.pop_back(); }
            x.run(st);
        }
    } catch (EngineError& e) { std::string w = e.what; try { for (auto& l : x.stack()) w += " | " + l.substr(0, 160); } catch (...) {} return w; }
    catch (SolverUnknown& u) { return "solver gave no answer: " + u.why; }
    return "";
}

int main(int argc, char** argv) {
    std::string file, entry = "harness", result = "result.json", dump; int dumpN = 0; size_t target = 256;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--param") { std::string p = nx(); size_t q = p.find('='); params[p.substr(0, q)] = strtoull(p.c_str() + q + 1, nullptr, 0); }
        else if (a == "--known") knownPats.push_back(nx());
        else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--out") result = nx();
        else if (a == "--entry") entry = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--time") timeLimit = atof(nx().c_str());
        else if (a == "--max-insts") maxInsts = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--samples") maxSamples = atoi(nx().c_str());
        else if (a == "--replay") { replaying = true; std::ifstream in(nx()); std::string l; while (std::getline(in, l)) { char nm[256]; int b; unsigned long long v; if (sscanf(l.c_str(), "var %255s %d %llu", nm, &b, &v) == 3) replayVals.push_back(v); } workers = 1; }
        else if (a == "--trace") traceOn = true;
        else if (a == "--dump") { dump = nx(); dumpN = atoi(nx().c_str()); }
        else file = a;
    }
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); 
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30)) { rlim_t want = 1ull << 30; if (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= want) { rl.rlim_cur = want; if (!setrlimit(RLIMIT_STACK, &rl) && !getenv("SYMEX_STACK")) { setenv("SYMEX_STACK", "1", 1); execv("/proc/self/exe", argv); } } }
    rng ^= seed * 0x9e3779b97f4a7c15ull; if (!rng) rng = 1;
    SH = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->next = 0; SH->stop = 0;
    std::string err;
    if (!decodeProgram(file.c_str(), P, err)) { fprintf(stderr, "ENGINE-ERROR: %s\n", err.c_str()); return 2; }
    locHit.assign(P.locs.size(), 0);
    for (auto& f : P.funcs) { int b = builtinId(f.name); if (f.decl) f.builtin = b; else if (b == B_NEW || b == B_DELETE) f.builtin = b; }
    if (dumpN) solverDumpTo(dump.c_str(), dumpN);
    // initial state
    State* st = new State();
    for (size_t i = 0; i < P.globals.size(); ++i) {
        GObj& g = P.globals[i]; int kind = P.funcOfObj[i] >= 0 ? K_FUNC : g.external ? K_EXTERN : g.constant ? K_CONST : K_GLOBAL;
        Obj* o = newObj(g.size, kind, false); memcpy(o->data, g.bytes.data(), g.size);
        bool un = false; for (uint8_t u : g.uninit) un |= u; if (un) { o->st = (uint8_t*)malloc(g.size); memcpy(o->st, g.uninit.data(), g.size); }
        st->mem.add(o);
    }
    auto it = P.fidx.find(entry);
    if (it == P.fidx.end() || P.funcs[it->second].decl) { fprintf(stderr, "ENGINE-ERROR: no entry function %s\n", entry.c_str()); return 2; }
    st->th.emplace_back(); st->th[0].vc.assign(1, 1);
    std::string error;
    {
        // global constructors first
        std::vector<int> order = P.ctors; order.push_back(it->second);
        Exec x; 
        for (size_t k = 0; k < order.size(); ++k) {
            x.s = st; x.f = nullptr; x.t = &st->th[0]; st->th[0].status = T_RUN;
            x.enter(order[k], nullptr, 0);
            if (k + 1 == order.size()) break;
            try { while (x.t->status == T_RUN) { x.step(); x.t = &st->th[0]; if (!x.t->f.empty()) { x.f = &x.t->f.back(); x.fn = &P.funcs[x.f->fn]; } } }
            catch (PathEnd&) { error = "violation in a global constructor"; break; }
            catch (EngineError& e) { error = e.what; break; }
        }
    }
    if (error.empty()) { work.push_back(st); error = runLoop(workers > 1, target); }
    if (error.empty() && !work.empty() && !SH->stop && workers > 1) {
        // split the pending states over worker processes
        std::vector<State*> todo; todo.swap(work);
        std::vector<pid_t> pids;
        fflush(stdout); fflush(stderr);
        for (int wk = 0; wk < workers; ++wk) {
            pid_t p = fork();
            if (p == 0) {
                solverReset(); Stats base; base.reach = {}; S = base; g_ss = SolverStats(); samples.clear(); viols.clear(); rng ^= (wk + 1) * 0x9e3779b97f4a7c15ull; locHit.assign(P.locs.size(), 0);
                for (auto& f : P.funcs) f.called = 0;
                std::string e;
                for (;;) {
                    int i = SH->next++; if (i >= (int)todo.size() || SH->stop) break;
                    work.push_back(todo[i]); e = runLoop(false, 0); if (!e.empty()) { SH->stop = 1; break; }
                }
                writeResult(result + "." + std::to_string(wk), e);
                _exit(0);
            }
            pids.push_back(p);
        }
        bool bad = false;
        for (pid_t p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad = true; }
        if (bad) error = "a worker process died";
    }
    writeResult(result, error);
    return 0;
}
