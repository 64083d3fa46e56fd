// Element types that watch their own construction, moves and destruction
#pragma once
#include "common.h"
struct Tok {                                    // knows its own address; state 1 live, 2 moved from, 0 destroyed
    u32 v; u32 st; Tok* self; 
    static i64 live;
    void ok(const char* m) const { CHECK(self == this, m); CHECK(st == 1, m); }
    Tok() : v(0), st(1), self(this) { ++live; }
    explicit Tok(u32 x) : v(x), st(1), self(this) { ++live; }
    Tok(Tok const& o) : v(o.v), st(1), self(this) { o.ok("copied from an object that is not alive or was moved from"); ++live; }
    Tok(Tok&& o) noexcept : v(o.v), st(1), self(this) { o.ok("moved from an object that is not alive or was moved from"); o.st = 2; o.v = 0xdead; ++live; }
    Tok& operator=(Tok const& o) { CHECK(self == this && (st == 1 || st == 2), "assigned to storage that holds no object"); o.ok("copy-assigned from an object that is not alive or was moved from"); v = o.v; st = 1; return *this; }
    Tok& operator=(Tok&& o) noexcept { CHECK(self == this && (st == 1 || st == 2), "move-assigned to storage that holds no object"); o.ok("move-assigned from an object that is not alive or was moved from"); v = o.v; if (this != &o) { o.st = 2; o.v = 0xdead; st = 1; } return *this; }
    ~Tok() { CHECK(self == this && (st == 1 || st == 2), "destroyed storage that holds no object"); st = 0; self = nullptr; --live; }
    bool operator==(Tok const& o) const { return get() == o.get(); }
    bool operator!=(Tok const& o) const { return get() != o.get(); }
    bool operator<(Tok const& o) const { return get() < o.get(); }
    Tok operator^(Tok const& o) const { return Tok(get() ^ o.get()); }
    u32 get() const { ok("reading an object that is not alive or was moved from"); return v; }
    u32 const* data() const { return &v; }
    explicit operator u64() const { return get(); }
};
i64 Tok::live = 0;
struct Own {                                    // owns a heap cell
    u32* p;
    Own() : p(new u32(0)) {}
    explicit Own(u32 x) : p(new u32(x)) {}
    Own(Own const& o) : p(new u32(*o.p)) {}
    Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; }
    Own& operator=(Own const& o) { if (this != &o) { delete p; p = new u32(*o.p); } return *this; }
    Own& operator=(Own&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    ~Own() { delete p; }
    u32 get() const { return *p; }
    bool operator==(Own const& o) const { return *p == *o.p; }
    bool operator!=(Own const& o) const { return *p != *o.p; }
    bool operator<(Own const& o) const { return *p < *o.p; }
    u32 const* data() const { return p; }
    explicit operator u64() const { return *p; }
};
