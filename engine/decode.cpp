// LLVM IR -> pre-decoded program
#include "ir.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <unordered_map>
#include <cxxabi.h>
using namespace llvm;

namespace {
struct Err { std::string s; };
struct Decoder {
    Program& P; Module& M; const DataLayout& DL;
    std::unordered_map<const GlobalValue*, uint64_t> gaddr;
    std::unordered_map<const Constant*, int> cpool;
    std::map<std::pair<std::string, int>, int> locIdx;
    std::unordered_map<const Type*, std::vector<Leaf>> leafMemo;
    Decoder(Program& p, Module& m) : P(p), M(m), DL(m.getDataLayout()) {}

    void flat(Type* t, uint64_t off, std::vector<Leaf>& o) {
        if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) throw Err{"integer wider than 64 bits"}; o.push_back({(uint32_t)off, (uint8_t)w}); }
        else if (t->isPointerTy()) o.push_back({(uint32_t)off, 64});
        else if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) flat(s->getElementType(i), off + sl->getElementOffset(i), o); }
        else if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); ++i) flat(a->getElementType(), off + i * es, o); }
        else if (t->isVoidTy()) {}
        else { std::string s; raw_string_ostream os(s); t->print(os); throw Err{"unsupported type " + s}; }
    }
    const std::vector<Leaf>& leaves(Type* t) { auto it = leafMemo.find(t); if (it != leafMemo.end()) return it->second; std::vector<Leaf> o; flat(t, 0, o); return leafMemo[t] = o; }
    int nleaf(Type* t) { return (int)leaves(t).size(); }
    int width(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) throw Err{"integer wider than 64 bits"}; return (int)w; } std::string s; raw_string_ostream os(s); t->print(os); throw Err{"scalar expected, got " + os.str()}; }

    // constants -> leaf values
    void cvals(const Constant* c, std::vector<Val>& o) {
        Type* t = c->getType();
        if (isa<UndefValue>(c)) { for (auto& l : leaves(t)) o.push_back(Val{mkUninit(l.w), 0}); return; }
        if (auto* ci = dyn_cast<ConstantInt>(c)) { o.push_back(cv(ci->getValue().getLimitedValue(~0ull))); return; }
        if (isa<ConstantPointerNull>(c)) { o.push_back(cv(0)); return; }
        if (isa<ConstantAggregateZero>(c)) { for (int i = 0; i < nleaf(t); ++i) o.push_back(cv(0)); return; }
        if (auto* a = dyn_cast<ConstantAggregate>(c)) { for (auto& op : a->operands()) cvals(cast<Constant>(op), o); return; }
        if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); ++i) cvals(d->getElementAsConstant(i), o); return; }
        if (auto* ga = dyn_cast<GlobalAlias>(c)) { cvals(ga->getAliasee(), o); return; }
        if (auto* g = dyn_cast<GlobalValue>(c)) { o.push_back(cv(gaddr.at(g))); return; }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            if (auto* gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(DL, off)) throw Err{"constant GEP"};
                std::vector<Val> b; cvals(cast<Constant>(gep->getPointerOperand()), b);
                o.push_back(cv(b[0].c + off.getZExtValue())); return;
            }
            std::vector<Val> v; for (auto& op : ce->operands()) cvals(cast<Constant>(op), v);
            int w = width(t);
            switch (ce->getOpcode()) {
                case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: o.push_back(cv(v[0].c & maskw(w))); return;
                case Instruction::Add: o.push_back(cv((v[0].c + v[1].c) & maskw(w))); return;
                case Instruction::Sub: o.push_back(cv((v[0].c - v[1].c) & maskw(w))); return;
                case Instruction::ICmp: if (ce->getPredicate() == CmpInst::ICMP_EQ) { o.push_back(cv(v[0].c == v[1].c)); return; } if (ce->getPredicate() == CmpInst::ICMP_NE) { o.push_back(cv(v[0].c != v[1].c)); return; } break;
                default: break;
            }
            throw Err{"constant expression"};
        }
        throw Err{"unsupported constant"};
    }
    int poolOf(const Constant* c) {
        auto it = cpool.find(c); if (it != cpool.end()) return ~it->second;
        std::vector<Val> v; cvals(c, v);
        int i = (int)P.pool.size(); P.pool.insert(P.pool.end(), v.begin(), v.end());
        cpool[c] = i; return ~i;
    }
    int poolVal(uint64_t v) { P.pool.push_back(cv(v)); return ~(int)(P.pool.size() - 1); }

    void initBytes(const Constant* c, uint64_t off, GObj& g) {
        std::vector<Val> v; cvals(c, v); auto& L = leaves(c->getType());
        for (size_t i = 0; i < L.size(); ++i) {
            int n = (L[i].w + 7) / 8;
            for (int b = 0; b < n; ++b) { if (v[i].e) g.uninit[off + L[i].off + b] = 1; else g.bytes[off + L[i].off + b] = (uint8_t)(v[i].c >> (8 * b)); }
        }
    }

    // function decoding state
    std::unordered_map<const Value*, int> reg;
    std::unordered_map<const BasicBlock*, int> bpc;
    Func* F = nullptr; const Function* LF = nullptr;
    int opnd(const Value* v, int leaf = 0) {   // operand reference of leaf number `leaf`
        if (auto* c = dyn_cast<Constant>(v)) { int p = poolOf(c); return ~(~p + leaf); }
        auto it = reg.find(v); if (it == reg.end()) throw Err{"unknown value"};
        return it->second + leaf;
    }
    int newReg(int n) { int r = F->nregs; F->nregs += n; return r; }
    Ext& newExt(Inst& I) { I.ext = (int)F->ext.size(); F->ext.emplace_back(); return F->ext.back(); }
    struct Fix { int inst; const BasicBlock* from; std::vector<const BasicBlock*> to; };
    std::vector<Fix> fixes;
    int locOf(const Instruction& I) {
        const DILocation* d = I.getDebugLoc().get(); if (!d) return -1;
        auto k = std::make_pair(d->getFilename().str(), (int)d->getLine());
        if (!d->getDirectory().empty() && k.first[0] != '/') k.first = d->getDirectory().str() + "/" + k.first;
        auto it = locIdx.find(k); if (it != locIdx.end()) return it->second;
        P.locs.push_back(k); return locIdx[k] = (int)P.locs.size() - 1;
    }
    static int ordOf(AtomicOrdering o) { switch (o) { case AtomicOrdering::NotAtomic: return 0; case AtomicOrdering::Unordered: case AtomicOrdering::Monotonic: return 1; case AtomicOrdering::Acquire: return 2; case AtomicOrdering::Release: return 3; case AtomicOrdering::AcquireRelease: return 4; default: return 5; } }

    void function(const Function& f, Func& out) {
        F = &out; LF = &f; reg.clear(); bpc.clear(); fixes.clear();
        for (auto& a : f.args()) { int r0 = newReg(nleaf(a.getType())); reg[&a] = r0; if (a.hasByValAttr()) out.byval.push_back({r0, (uint32_t)DL.getTypeAllocSize(a.getParamByValType())}); }
        for (auto& b : f) for (auto& i : b) if (!i.getType()->isVoidTy()) { if (i.getType()->isTokenTy() || i.getType()->isMetadataTy()) continue; reg[&i] = newReg(nleaf(i.getType())); }
        for (auto& b : f) {
            bpc[&b] = (int)out.code.size();
            for (auto& i : b) {
                if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
                size_t before = out.code.size();
                instr(i);
                for (size_t k = before; k < out.code.size(); ++k) out.code[k].loc = locOf(i);
            }
        }
        for (auto& fx : fixes) {
            Ext& x = out.ext[out.code[fx.inst].ext];
            for (auto* to : fx.to) {
                Edge e; e.pc = bpc.at(to);
                for (auto& ph : to->phis()) {
                    const Value* v = ph.getIncomingValueForBlock(fx.from);
                    int n = nleaf(ph.getType());
                    for (int l = 0; l < n; ++l) e.copies.emplace_back(reg.at(&ph) + l, opnd(v, l));
                }
                x.edges.push_back(std::move(e));
            }
        }
    }
    void copyN(int dst, const Value* v, int n, int srcOff = 0) { for (int l = 0; l < n; ++l) { Inst c{}; c.op = I_COPY; c.dst = dst + l; c.a = opnd(v, srcOff + l); c.ext = -1; F->code.push_back(c); } }
    int aggOffset(Type* t, ArrayRef<unsigned> idx) {
        int off = 0;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) off += nleaf(s->getElementType(k)); t = s->getElementType(i); }
            else if (auto* a = dyn_cast<ArrayType>(t)) { off += (int)i * nleaf(a->getElementType()); t = a->getElementType(); }
        }
        return off;
    }
    void instr(const Instruction& i) {
        Inst I{}; I.dst = -1; I.ext = -1; I.loc = -1;
        if (!i.getType()->isVoidTy() && reg.count(&i)) I.dst = reg[&i];
        auto bin = [&](IOp op) { I.op = op; I.w = width(i.getType()); I.a = opnd(i.getOperand(0)); I.b = opnd(i.getOperand(1)); F->code.push_back(I); };
        switch (i.getOpcode()) {
            case Instruction::Add: bin(I_ADD); return; case Instruction::Sub: bin(I_SUB); return; case Instruction::Mul: bin(I_MUL); return;
            case Instruction::UDiv: bin(I_UDIV); return; case Instruction::SDiv: bin(I_SDIV); return; case Instruction::URem: bin(I_UREM); return; case Instruction::SRem: bin(I_SREM); return;
            case Instruction::And: bin(I_AND); return; case Instruction::Or: bin(I_OR); return; case Instruction::Xor: bin(I_XOR); return;
            case Instruction::Shl: bin(I_SHL); return; case Instruction::LShr: bin(I_LSHR); return; case Instruction::AShr: bin(I_ASHR); return;
            case Instruction::ICmp: I.op = I_ICMP; I.w = width(i.getOperand(0)->getType()); I.sub = (uint8_t)cast<ICmpInst>(i).getPredicate(); I.a = opnd(i.getOperand(0)); I.b = opnd(i.getOperand(1)); F->code.push_back(I); return;
            case Instruction::Select: {
                auto& L = leaves(i.getType());
                for (size_t l = 0; l < L.size(); ++l) { Inst S = I; S.op = I_SELECT; S.w = L[l].w; S.dst = I.dst + (int)l; S.a = opnd(i.getOperand(0)); S.b = opnd(i.getOperand(1), (int)l); S.c = opnd(i.getOperand(2), (int)l); F->code.push_back(S); }
                return;
            }
            case Instruction::GetElementPtr: {
                auto& g = cast<GetElementPtrInst>(i);
                I.op = I_GEP; I.w = 64; I.a = opnd(g.getPointerOperand());
                Ext& x = newExt(I); int64_t off = 0;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* op = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) { off += (int64_t)DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(op)->getZExtValue()); continue; }
                    uint64_t sz = DL.getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(op)) { off += ci->getSExtValue() * (int64_t)sz; continue; }
                    x.ops.push_back(opnd(op)); x.nums.push_back(sz); x.widths.push_back((uint8_t)width(op->getType()));
                }
                x.off = off; F->code.push_back(I); return;
            }
            case Instruction::Load: {
                auto& l = cast<LoadInst>(i);
                I.op = I_LOAD; I.a = opnd(l.getPointerOperand()); I.ord = (uint8_t)ordOf(l.getOrdering());
                auto& L = leaves(i.getType());
                if (L.size() == 1) I.w = L[0].w; else { I.w = 0; newExt(I).leaves = L; }
                F->code.push_back(I); return;
            }
            case Instruction::Store: {
                auto& s = cast<StoreInst>(i);
                auto& L = leaves(s.getValueOperand()->getType());
                I.ord = (uint8_t)ordOf(s.getOrdering()); I.op = I_STORE; I.b = opnd(s.getPointerOperand());
                if (L.size() == 1) { I.w = L[0].w; I.a = opnd(s.getValueOperand()); }
                else { I.w = 0; Ext& x = newExt(I); x.leaves = L; for (size_t k = 0; k < L.size(); ++k) x.ops.push_back(opnd(s.getValueOperand(), (int)k)); }
                F->code.push_back(I); return;
            }
            case Instruction::Alloca: {
                auto& a = cast<AllocaInst>(i);
                I.op = I_ALLOCA; auto* n = dyn_cast<ConstantInt>(a.getArraySize()); if (!n) throw Err{"dynamic alloca"};
                newExt(I).off = (int64_t)(DL.getTypeAllocSize(a.getAllocatedType()) * n->getZExtValue());
                F->code.push_back(I); return;
            }
            case Instruction::Br: {
                auto& b = cast<BranchInst>(i);
                if (b.isUnconditional()) { I.op = I_BR; newExt(I); fixes.push_back({(int)F->code.size(), i.getParent(), {b.getSuccessor(0)}}); }
                else { I.op = I_CONDBR; I.a = opnd(b.getCondition()); newExt(I); fixes.push_back({(int)F->code.size(), i.getParent(), {b.getSuccessor(0), b.getSuccessor(1)}}); }
                F->code.push_back(I); return;
            }
            case Instruction::Switch: {
                auto& s = cast<SwitchInst>(i);
                I.op = I_SWITCH; I.w = width(s.getCondition()->getType()); I.a = opnd(s.getCondition()); Ext& x = newExt(I);
                Fix fx{(int)F->code.size(), i.getParent(), {s.getDefaultDest()}};
                for (auto& c : s.cases()) { x.nums.push_back(c.getCaseValue()->getZExtValue()); fx.to.push_back(c.getCaseSuccessor()); }
                fixes.push_back(fx); F->code.push_back(I); return;
            }
            case Instruction::Ret: {
                I.op = I_RET; Ext& x = newExt(I);
                if (auto* v = cast<ReturnInst>(i).getReturnValue()) { int n = nleaf(v->getType()); for (int k = 0; k < n; ++k) x.ops.push_back(opnd(v, k)); }
                F->code.push_back(I); return;
            }
            case Instruction::Unreachable: I.op = I_UNREACHABLE; F->code.push_back(I); return;
            case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(i); copyN(I.dst, e.getAggregateOperand(), nleaf(i.getType()), aggOffset(e.getAggregateOperand()->getType(), e.getIndices())); return; }
            case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(i); copyN(I.dst, e.getAggregateOperand(), nleaf(i.getType())); copyN(I.dst + aggOffset(i.getType(), e.getIndices()), e.getInsertedValueOperand(), nleaf(e.getInsertedValueOperand()->getType())); return; }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
                int wf = width(i.getOperand(0)->getType()), wt = width(i.getType());
                I.a = opnd(i.getOperand(0)); I.w = wt; I.sub = wf; I.op = wf == wt ? I_COPY : wt < wf ? I_TRUNC : I_ZEXT; F->code.push_back(I); return;
            }
            case Instruction::Freeze: copyN(I.dst, i.getOperand(0), nleaf(i.getType())); return;
            case Instruction::Trunc: I.op = I_TRUNC; I.w = width(i.getType()); I.sub = width(i.getOperand(0)->getType()); I.a = opnd(i.getOperand(0)); F->code.push_back(I); return;
            case Instruction::ZExt: I.op = I_ZEXT; I.w = width(i.getType()); I.sub = width(i.getOperand(0)->getType()); I.a = opnd(i.getOperand(0)); F->code.push_back(I); return;
            case Instruction::SExt: I.op = I_SEXT; I.w = width(i.getType()); I.sub = width(i.getOperand(0)->getType()); I.a = opnd(i.getOperand(0)); F->code.push_back(I); return;
            case Instruction::Call: case Instruction::Invoke: {
                auto& c = cast<CallBase>(i);
                if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
                    switch (ii->getIntrinsicID()) {
                        case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label:
                        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::annotation:
                            if (!i.getType()->isVoidTy() && ii->getIntrinsicID() == Intrinsic::invariant_start) copyN(I.dst, ConstantInt::get(Type::getInt64Ty(i.getContext()), 0), 1);
                            return;
                        default: break;
                    }
                }
                I.op = I_CALL; Ext& x0 = newExt(I); (void)x0; int xi = I.ext;
                const Value* cal = c.getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
                if (auto* cf = dyn_cast<Function>(cal)) F->ext[xi].func = P.fidx.at(cf->getName().str());
                else { if (c.isInlineAsm()) { I.op = I_NOP; F->code.push_back(I); return; } I.a = opnd(c.getCalledOperand()); }
                for (unsigned k = 0; k < c.arg_size(); ++k) {
                    const Value* v = c.getArgOperand(k); Type* t = v->getType();
                    if (t->isMetadataTy()) continue;
                    auto& L = leaves(t);
                    for (size_t l = 0; l < L.size(); ++l) { int o = opnd(v, (int)l); F->ext[xi].ops.push_back(o); F->ext[xi].widths.push_back(L[l].w); }
                }
                if (!i.getType()->isVoidTy()) F->ext[xi].leaves = leaves(i.getType());
                if (auto* inv = dyn_cast<InvokeInst>(&i)) { F->ext[xi].invoke = true; fixes.push_back({(int)F->code.size(), i.getParent(), {inv->getNormalDest(), inv->getUnwindDest()}}); }
                F->code.push_back(I); return;
            }
            case Instruction::LandingPad: {
                auto& l = cast<LandingPadInst>(i);
                I.op = I_LANDINGPAD; Ext& x = newExt(I); x.cleanup = l.isCleanup();
                for (unsigned k = 0; k < l.getNumClauses(); ++k) {
                    if (l.isFilter(k)) { x.clauses.push_back(~0ull); continue; }
                    std::vector<Val> v; cvals(l.getClause(k), v); x.clauses.push_back(v[0].c);
                }
                F->code.push_back(I); return;
            }
            case Instruction::Resume: I.op = I_RESUME; I.a = opnd(i.getOperand(0), 0); I.b = opnd(i.getOperand(0), 1); F->code.push_back(I); return;
            case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(i); I.op = I_RMW; I.w = width(r.getValOperand()->getType()); I.sub = (uint8_t)r.getOperation(); I.ord = (uint8_t)ordOf(r.getOrdering()); I.a = opnd(r.getPointerOperand()); I.b = opnd(r.getValOperand()); I.c = i.use_empty(); F->code.push_back(I); return; }
            case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(i); I.op = I_CMPXCHG; I.w = width(r.getNewValOperand()->getType()); I.ord = (uint8_t)ordOf(r.getSuccessOrdering()); I.sub = (uint8_t)ordOf(r.getFailureOrdering()); I.a = opnd(r.getPointerOperand()); I.b = opnd(r.getCompareOperand()); I.c = opnd(r.getNewValOperand()); F->code.push_back(I); return; }
            case Instruction::Fence: I.op = I_FENCE; I.ord = (uint8_t)ordOf(cast<FenceInst>(i).getOrdering()); F->code.push_back(I); return;
            default: { std::string s; raw_string_ostream os(s); i.print(os); throw Err{"unsupported instruction: " + s}; }
        }
    }
    void run() {
        P.globals.push_back(GObj{"null", 0, true, true, {}, {}}); P.funcOfObj.push_back(-1);
        for (auto& g : M.globals()) {
            GObj o; o.name = g.getName().str(); o.constant = g.isConstant(); o.external = g.isDeclaration();
            uint64_t sz = o.external ? 64 : DL.getTypeAllocSize(g.getValueType()).getFixedValue();
            o.size = (uint32_t)sz; o.bytes.assign(sz, 0); o.uninit.assign(sz, 0);
            gaddr[&g] = (uint64_t)P.globals.size() << 32; P.globals.push_back(o); P.funcOfObj.push_back(-1);
        }
        for (auto& f : M) {
            int fi = (int)P.funcs.size(); P.funcs.emplace_back(); Func& F2 = P.funcs.back();
            F2.name = f.getName().str(); P.fidx[F2.name] = fi; F2.decl = f.isDeclaration();
            int st = 0; char* d = abi::__cxa_demangle(F2.name.c_str(), nullptr, nullptr, &st); F2.pretty = d ? d : F2.name; free(d);
            gaddr[&f] = (uint64_t)P.globals.size() << 32;
            P.globals.push_back(GObj{F2.name, 1, true, true, {0}, {0}}); P.funcOfObj.push_back(fi);
        }
        for (auto& g : M.globals()) if (g.hasInitializer()) {
            uint64_t a = gaddr[&g]; GObj& o = P.globals[a >> 32];
            if (o.name == "llvm.global_ctors") {
                if (auto* arr = dyn_cast<ConstantArray>(g.getInitializer())) for (auto& e : arr->operands()) { auto* s = cast<ConstantStruct>(e); P.ctors.push_back(P.fidx.at(cast<Function>(s->getOperand(1)->stripPointerCasts())->getName().str())); }
                continue;
            }
            if (o.name.rfind("llvm.", 0) == 0) continue;
            initBytes(g.getInitializer(), 0, o);
        }
        for (auto& g : M.globals()) if (g.getName().starts_with("_ZTI")) {
            uint64_t a = gaddr[&g]; P.typeinfoName[a] = g.getName().str();
            if (g.hasInitializer() && P.globals[a >> 32].size >= 24) { uint64_t b = 0; memcpy(&b, P.globals[a >> 32].bytes.data() + 16, 8); P.typeinfoBase[a] = b; }
        }
        int fi = 0;
        for (auto& f : M) {
            Func& F2 = P.funcs[fi++];
            if (auto* sp = f.getSubprogram()) { std::string fn = sp->getFilename().str(); if (fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; F2.userCode = fn.find("bpptree") != std::string::npos || fn.find("inverted_index") != std::string::npos; if (fn.find("/harness/") != std::string::npos || fn.find("/verif/") != std::string::npos) F2.userCode = false; }
            // what cannot be encoded is only an error if a path reaches it
            try {
                if (!f.isIntrinsic()) { for (auto& a : f.args()) for (auto& l : leaves(a.getType())) F2.argw.push_back(l.w); for (auto& l : leaves(f.getReturnType())) F2.retw.push_back(l.w); }
                F2.nret = (int)F2.retw.size();
                if (!F2.decl) function(f, F2);
            } catch (Err& e) { F2.unsupported = e.s; F2.code.clear(); F2.ext.clear(); }
        }
    }
};
}
bool decodeProgram(const char* file, Program& p, std::string& err) {
    LLVMContext* ctx = new LLVMContext(); SMDiagnostic d;
    auto m = parseIRFile(file, d, *ctx);
    if (!m) { err = d.getMessage().str(); return false; }
    try { Decoder dec(p, *m); dec.run(); } catch (Err& e) { err = e.s; return false; }
    return true;
}
