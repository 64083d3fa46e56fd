// Pre-decoded program, produced from LLVM IR by decode.cpp
#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <map>

enum IOp : uint8_t {
    I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
    I_ICMP, I_SELECT, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_CALL, I_RET, I_UNREACHABLE,
    I_COPY, I_TRUNC, I_ZEXT, I_SEXT, I_LANDINGPAD, I_RESUME, I_RMW, I_CMPXCHG, I_FENCE, I_NOP
};
struct Leaf { uint32_t off; uint8_t w; };
struct Edge { int32_t pc; std::vector<std::pair<int32_t, int32_t>> copies; };  // dst reg <- operand
struct Ext {
    std::vector<int32_t> ops;        // operands (call args flattened / gep indices / switch values)
    std::vector<uint64_t> nums;      // gep scales / switch case values / arg widths
    std::vector<uint8_t> widths;
    std::vector<Leaf> leaves;
    std::vector<Edge> edges;
    int32_t func = -1;               // direct callee
    bool invoke = false, cleanup = false;
    std::vector<uint64_t> clauses;   // landingpad: typeinfo addresses (0 = catch all); ~0 marks a filter
    int64_t off = 0;
};
struct Inst {
    IOp op; uint8_t w; uint8_t sub; uint8_t ord;  // ord: memory order (atomics), sub: predicate / rmw op
    int32_t dst, a, b, c;                         // operands: >=0 register, <0 constant pool ~x
    int32_t ext; int32_t loc;
};
struct Func {
    std::string name, pretty, unsupported;
    bool decl = true; bool userCode = false;
    int nregs = 0, nret = 0;
    std::vector<uint8_t> argw;       // flattened argument widths
    std::vector<std::pair<int, uint32_t>> byval; // (flattened argument, size) of objects passed by value in memory
    std::vector<uint8_t> retw;
    std::vector<Inst> code;
    std::vector<Ext> ext;
    int builtin = 0;
    uint64_t called = 0;
};
struct GObj { std::string name; uint32_t size; bool constant, external; std::vector<uint8_t> bytes; std::vector<uint8_t> uninit; };
struct Program {
    std::vector<Func> funcs;
    std::vector<Val> pool;
    std::vector<GObj> globals;       // object id = index (0 = null)
    std::map<std::string, int> fidx;
    std::vector<int> funcOfObj;      // object id -> function index or -1
    std::vector<int> ctors;          // global constructors, in order
    std::vector<std::pair<std::string, int>> locs;  // file, line
    std::map<uint64_t, std::string> typeinfoName;   // address -> mangled name
    std::map<uint64_t, uint64_t> typeinfoBase;      // address -> base typeinfo address
};
bool decodeProgram(const char* file, Program& p, std::string& err);
