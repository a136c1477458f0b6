// LLVM bitcode -> ir.h
#include "ir.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;
namespace {
::Module* M;
const DataLayout* DL;
DenseMap<const Value*, u64> addrs; // globals and functions
std::map<std::pair<u64, void*>, int> constIdx;

int strIdx(const std::string& s) { M->strs.push_back(s); return (int)M->strs.size() - 1; }
[[noreturn]] void die(const std::string& s) { fprintf(stderr, "symx: load: %s\n", s.c_str()); exit(3); }

int mkConst(u64 c, E e = nullptr)
{
    auto k = std::make_pair(c, (void*)e);
    auto it = constIdx.find(k);
    if (it != constIdx.end()) return it->second;
    M->consts.push_back({c, e});
    int r = -(int)M->consts.size(); // -1 - index
    constIdx[k] = r;
    return r;
}

struct Slot { u64 off; u32 w; };
void flatten(Type* t, u64 off, std::vector<Slot>& out)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + (u64)sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 sz = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * sz, out);
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 sz = DL->getTypeAllocSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * sz, out);
    } else if (t->isVoidTy()) {
    } else if (t->isPointerTy()) out.push_back({off, 64});
    else if (t->isIntegerTy()) out.push_back({off, (u32)t->getIntegerBitWidth()});
    else if (t->isFloatTy()) out.push_back({off, 32});
    else if (t->isDoubleTy()) out.push_back({off, 64});
    else out.push_back({off, (u32)DL->getTypeSizeInBits(t)});
}
std::vector<Slot> flat(Type* t) { std::vector<Slot> v; flatten(t, 0, v); return v; }

bool evalConst(const Constant* c, u64& out);
void constSlots(const Constant* c, std::vector<int>& out)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        const APInt& v = ci->getValue();
        if (v.getBitWidth() <= 64) out.push_back(mkConst(v.getZExtValue()));
        else {
            Words w(v.getRawData(), v.getRawData() + v.getNumWords());
            out.push_back(mkConst(0, ex::cstw(w, v.getBitWidth())));
        }
        return;
    }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
        for (Slot& s : flat(t)) out.push_back(s.w <= 64 ? mkConst(0) : mkConst(0, ex::cstw(Words(nwords(s.w), 0), s.w)));
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(mkConst(cf->getValueAPF().bitcastToAPInt().getLimitedValue())); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); i++) constSlots(cast<Constant>(ca->getOperand(i)), out);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); i++) constSlots(cd->getElementAsConstant(i), out);
        return;
    }
    u64 v;
    if (!evalConst(c, v)) { std::string s; raw_string_ostream os(s); c->print(os); die("constant: " + os.str()); }
    out.push_back(mkConst(v));
}
bool evalConst(const Constant* c, u64& out)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; out = ci->getZExtValue(); return true; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { out = 0; return true; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee(), out);
    if (isa<GlobalVariable>(c) || isa<Function>(c)) { auto it = addrs.find(c); if (it == addrs.end()) return false; out = it->second; return true; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { out = cf->getValueAPF().bitcastToAPInt().getLimitedValue(); return true; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        u64 a, b;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
            if (!evalConst(ce->getOperand(0), a)) return false;
            out = a + off.getZExtValue();
            return true;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        case Instruction::ZExt:
            return evalConst(ce->getOperand(0), out);
        case Instruction::Trunc:
            if (!evalConst(ce->getOperand(0), out)) return false;
            out &= maskw(ce->getType()->getIntegerBitWidth());
            return true;
        case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Mul: {
            if (!evalConst(ce->getOperand(0), a) || !evalConst(ce->getOperand(1), b)) return false;
            u64 m = maskw(ce->getType()->getIntegerBitWidth());
            switch (ce->getOpcode()) {
            case Instruction::Add: out = a + b; break;
            case Instruction::Sub: out = a - b; break;
            case Instruction::And: out = a & b; break;
            case Instruction::Or: out = a | b; break;
            case Instruction::Xor: out = a ^ b; break;
            default: out = a * b;
            }
            out &= m;
            return true;
        }
        case Instruction::ICmp: {
            if (!evalConst(ce->getOperand(0), a) || !evalConst(ce->getOperand(1), b)) return false;
            auto p = (CmpInst::Predicate)ce->getPredicate();
            if (p == CmpInst::ICMP_EQ) out = a == b; else if (p == CmpInst::ICMP_NE) out = a != b;
            else if (p == CmpInst::ICMP_ULT) out = a < b; else if (p == CmpInst::ICMP_UGT) out = a > b; else return false;
            return true;
        }
        default: return false;
        }
    }
    return false;
}
void initBytes(const Constant* c, std::vector<u8>& b, u64 off)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cd->getRawDataValues();
        memcpy(&b[off], raw.data(), raw.size());
        return;
    }
    if (auto* st = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(st->getType());
        for (unsigned i = 0; i < st->getNumOperands(); i++) initBytes(st->getOperand(i), b, off + (u64)sl->getElementOffset(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
        u64 sz = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), b, off + i * sz);
        return;
    }
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        const APInt& v = ci->getValue();
        u64 n = DL->getTypeStoreSize(t);
        for (u64 i = 0; i < n; i++) b[off + i] = (u8)(v.getRawData()[i / 8] >> (8 * (i % 8)));
        return;
    }
    u64 v;
    if (!evalConst(c, v)) { std::string s; raw_string_ostream os(s); c->print(os); die("initializer: " + os.str()); }
    u64 n = DL->getTypeStoreSize(t);
    for (u64 i = 0; i < n && i < 8; i++) b[off + i] = (u8)(v >> (8 * i));
}

struct FnLower {
    ::Func* F;
    const Function* f;
    DenseMap<const Value*, int> slot;
    DenseMap<const BasicBlock*, u32> bpc;
    std::vector<std::pair<u32, const BasicBlock*>> edgeFix; // edge idx -> block

    void ops(const Value* v, std::vector<int>& out)
    {
        if (auto* c = dyn_cast<Constant>(v)) { constSlots(c, out); return; }
        auto it = slot.find(v);
        if (it == slot.end()) { if (isa<MetadataAsValue>(v)) { out.push_back(mkConst(0)); return; } die("unknown value in " + F->name); }
        size_t n = flat(v->getType()).size();
        for (size_t i = 0; i < n; i++) out.push_back(it->second + (int)i);
    }
    int op(const Value* v)
    {
        std::vector<int> o;
        ops(v, o);
        if (o.size() != 1) { std::string s; raw_string_ostream os(s); v->print(os); die("scalar expected in " + F->name + ": " + os.str()); }
        return o[0];
    }
    int edge(const BasicBlock* from, const BasicBlock* to)
    {
        Edge e;
        e.pc = 0;
        std::vector<int> l;
        for (const PHINode& p : to->phis()) {
            const Value* v = p.getIncomingValueForBlock(from);
            std::vector<int> o;
            ops(v, o);
            int d = slot[&p];
            for (size_t i = 0; i < o.size(); i++) if (o[i] != d + (int)i) { l.push_back(d + (int)i); l.push_back(o[i]); }
        }
        e.lo = (u32)M->lists.size();
        e.ln = (u32)l.size();
        M->lists.insert(M->lists.end(), l.begin(), l.end());
        M->edges.push_back(e);
        edgeFix.push_back({(u32)M->edges.size() - 1, to});
        return (int)M->edges.size() - 1;
    }
    void list(Inst& I, const std::vector<int>& l)
    {
        I.lo = (u32)M->lists.size();
        I.ln = (u32)l.size();
        M->lists.insert(M->lists.end(), l.begin(), l.end());
    }
    void unsup(const Instruction& in)
    {
        std::string s;
        raw_string_ostream os(s);
        in.print(os);
        Inst I;
        I.op = I_UNSUP;
        I.x = strIdx(os.str());
        F->code.push_back(I);
    }
    // offset inside flattened aggregate for index path
    void aggRange(Type* t, ArrayRef<unsigned> idx, size_t& start, size_t& n)
    {
        start = 0;
        for (unsigned i : idx) {
            if (auto* st = dyn_cast<StructType>(t)) {
                for (unsigned j = 0; j < i; j++) start += flat(st->getElementType(j)).size();
                t = st->getElementType(i);
            } else {
                auto* at = cast<ArrayType>(t);
                start += i * flat(at->getElementType()).size();
                t = at->getElementType();
            }
        }
        n = flat(t).size();
    }
    void inst(const Instruction& in)
    {
        Inst I;
        auto its = slot.find(&in);
        I.dst = its == slot.end() ? -1 : its->second;
        Type* t = in.getType();
        if (isa<PHINode>(in)) return;
        bool vec = false;
        for (const Use& u : in.operands()) if (u->getType()->isVectorTy()) vec = true;
        if ((t->isVectorTy() || vec) && !isa<LoadInst>(in) && !isa<StoreInst>(in)) { unsup(in); return; }
        if (auto* b = dyn_cast<BinaryOperator>(&in)) {
            if (!t->isIntegerTy()) { unsup(in); return; }
            I.op = I_BIN;
            I.w = (u16)t->getIntegerBitWidth();
            I.a = op(b->getOperand(0));
            I.b = op(b->getOperand(1));
            switch (b->getOpcode()) {
            case Instruction::Add: I.sub = E_ADD; break;
            case Instruction::Sub: I.op = I_SUBB; break;
            case Instruction::Mul: I.sub = E_MUL; break;
            case Instruction::UDiv: I.sub = E_UDIV; break;
            case Instruction::SDiv: I.sub = E_SDIV; break;
            case Instruction::URem: I.sub = E_UREM; break;
            case Instruction::SRem: I.sub = E_SREM; break;
            case Instruction::And: I.sub = E_AND; break;
            case Instruction::Or: I.sub = E_OR; break;
            case Instruction::Xor: I.sub = E_XOR; break;
            case Instruction::Shl: I.sub = E_SHL; break;
            case Instruction::LShr: I.sub = E_LSHR; break;
            case Instruction::AShr: I.sub = E_ASHR; break;
            default: unsup(in); return;
            }
        } else if (auto* c = dyn_cast<ICmpInst>(&in)) {
            I.op = I_ICMP;
            Type* ot = c->getOperand(0)->getType();
            I.w = ot->isPointerTy() ? 64 : (u16)ot->getIntegerBitWidth();
            I.a = op(c->getOperand(0));
            I.b = op(c->getOperand(1));
            switch (c->getPredicate()) {
            case CmpInst::ICMP_EQ: I.sub = P_EQ; break;
            case CmpInst::ICMP_NE: I.sub = P_NE; break;
            case CmpInst::ICMP_UGT: I.sub = P_UGT; break;
            case CmpInst::ICMP_UGE: I.sub = P_UGE; break;
            case CmpInst::ICMP_ULT: I.sub = P_ULT; break;
            case CmpInst::ICMP_ULE: I.sub = P_ULE; break;
            case CmpInst::ICMP_SGT: I.sub = P_SGT; break;
            case CmpInst::ICMP_SGE: I.sub = P_SGE; break;
            case CmpInst::ICMP_SLT: I.sub = P_SLT; break;
            default: I.sub = P_SLE; break;
            }
        } else if (auto* s = dyn_cast<SelectInst>(&in)) {
            I.op = I_SELECT;
            I.a = op(s->getCondition());
            std::vector<int> x, y, l;
            ops(s->getTrueValue(), x);
            ops(s->getFalseValue(), y);
            auto sl = flat(t);
            I.imm = 0;
            for (size_t i = 0; i < x.size(); i++) { l.push_back(x[i]); l.push_back(y[i]); l.push_back((int)sl[i].w); }
            if (t->isPointerTy() || sl.size() > 1) I.imm = 1;
            list(I, l);
        } else if (auto* l = dyn_cast<LoadInst>(&in)) {
            I.op = I_LOAD;
            I.a = op(l->getPointerOperand());
            std::vector<int> v;
            for (Slot& s : flat(t)) { v.push_back((int)s.off); v.push_back((int)s.w); }
            list(I, v);
        } else if (auto* s = dyn_cast<StoreInst>(&in)) {
            I.op = I_STORE;
            I.a = op(s->getPointerOperand());
            std::vector<int> v, o;
            ops(s->getValueOperand(), o);
            auto sl = flat(s->getValueOperand()->getType());
            for (size_t i = 0; i < o.size(); i++) { v.push_back(o[i]); v.push_back((int)sl[i].off); v.push_back((int)sl[i].w); }
            list(I, v);
        } else if (auto* a = dyn_cast<AllocaInst>(&in)) {
            I.op = I_ALLOCA;
            I.imm = DL->getTypeAllocSize(a->getAllocatedType());
            I.a = op(a->getArraySize());
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&in)) {
            I.op = I_GEP;
            I.a = op(g->getPointerOperand());
            std::vector<int> v;
            u64 off = 0;
            for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
                Value* idx = gti.getOperand();
                if (StructType* st = gti.getStructTypeOrNull()) { off += (u64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
                u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += (u64)(ci->getSExtValue()) * sz; continue; }
                v.push_back(op(idx));
                v.push_back((int)idx->getType()->getIntegerBitWidth());
                v.push_back((int)(u32)sz);
                v.push_back((int)(sz >> 32));
            }
            I.imm = off;
            list(I, v);
        } else if (isa<TruncInst>(in) || isa<ZExtInst>(in) || isa<SExtInst>(in)) {
            I.op = isa<TruncInst>(in) ? I_TRUNC : isa<ZExtInst>(in) ? I_ZEXT : I_SEXT;
            I.a = op(in.getOperand(0));
            I.w = (u16)t->getIntegerBitWidth();
            I.imm = in.getOperand(0)->getType()->getIntegerBitWidth();
        } else if (isa<BitCastInst>(in) || isa<PtrToIntInst>(in) || isa<IntToPtrInst>(in) || isa<FreezeInst>(in) || isa<AddrSpaceCastInst>(in)) {
            std::vector<int> o, l;
            auto s1 = flat(in.getOperand(0)->getType()), s2 = flat(t);
            ops(in.getOperand(0), o);
            if (s1.size() != s2.size()) { unsup(in); return; }
            for (size_t i = 0; i < o.size(); i++) { if (s1[i].w != s2[i].w) { unsup(in); return; } l.push_back(I.dst + (int)i); l.push_back(o[i]); }
            I.op = I_MOV;
            list(I, l);
        } else if (auto* ev = dyn_cast<ExtractValueInst>(&in)) {
            size_t st, n;
            aggRange(ev->getAggregateOperand()->getType(), ev->getIndices(), st, n);
            std::vector<int> o, l;
            ops(ev->getAggregateOperand(), o);
            for (size_t i = 0; i < n; i++) { l.push_back(I.dst + (int)i); l.push_back(o[st + i]); }
            I.op = I_MOV;
            list(I, l);
        } else if (auto* iv = dyn_cast<InsertValueInst>(&in)) {
            size_t st, n;
            aggRange(t, iv->getIndices(), st, n);
            std::vector<int> o, v, l;
            ops(iv->getAggregateOperand(), o);
            ops(iv->getInsertedValueOperand(), v);
            for (size_t i = 0; i < n; i++) o[st + i] = v[i];
            for (size_t i = 0; i < o.size(); i++) { l.push_back(I.dst + (int)i); l.push_back(o[i]); }
            I.op = I_MOV;
            list(I, l);
        } else if (auto* br = dyn_cast<BranchInst>(&in)) {
            if (br->isUnconditional()) { I.op = I_BR; I.x = edge(in.getParent(), br->getSuccessor(0)); }
            else { I.op = I_CBR; I.a = op(br->getCondition()); I.x = edge(in.getParent(), br->getSuccessor(0)); I.y = edge(in.getParent(), br->getSuccessor(1)); }
        } else if (auto* sw = dyn_cast<SwitchInst>(&in)) {
            I.op = I_SWITCH;
            I.a = op(sw->getCondition());
            I.w = (u16)sw->getCondition()->getType()->getIntegerBitWidth();
            I.x = edge(in.getParent(), sw->getDefaultDest());
            std::vector<int> l;
            for (auto& cs : sw->cases()) { std::vector<int> o; constSlots(cs.getCaseValue(), o); l.push_back(o[0]); l.push_back(edge(in.getParent(), cs.getCaseSuccessor())); }
            list(I, l);
        } else if (auto* r = dyn_cast<ReturnInst>(&in)) {
            I.op = I_RET;
            std::vector<int> o;
            if (r->getReturnValue()) ops(r->getReturnValue(), o);
            list(I, o);
        } else if (auto* cb = dyn_cast<CallBase>(&in)) {
            if (auto* ii = dyn_cast<IntrinsicInst>(&in)) {
                switch (ii->getIntrinsicID()) {
                case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
                case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
                case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
                    return;
                default: break;
                }
            }
            I.op = I_CALL;
            if (cb->isInlineAsm()) {
                if (cb->getType()->isVoidTy()) return; // compiler barriers
                unsup(in); return;
            }
            const Value* cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
            if (auto* cf = dyn_cast<Function>(cv)) { I.x = (int)((addrs[cf] - FUNC_BASE) >> 4); }
            else { I.x = -1; I.a = op(cb->getCalledOperand()); }
            std::vector<int> o;
            std::vector<u64> bv;
            for (unsigned i = 0; i < cb->arg_size(); i++) {
                size_t before = o.size();
                ops(cb->getArgOperand(i), o);
                if (cb->isByValArgument(i)) { // caller-side copy of the aggregate
                    u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i));
                    Inst A; A.op = I_ALLOCA; A.imm = sz; A.a = mkConst(1); A.dst = (int)F->nslots; F->nslots++;
                    F->code.push_back(A);
                    Inst C; C.op = I_CALL; C.dst = -1;
                    C.x = (int)M->funcByName["memcpy"];
                    std::vector<int> ml{A.dst, o[before], mkConst(sz)};
                    list(C, ml);
                    F->code.push_back(C);
                    o[before] = A.dst;
                }
            }
            list(I, o);
            I.imm = t->isVoidTy() ? 0 : flat(t).size();
            if (!t->isVoidTy() && !flat(t).empty()) I.w = (u16)flat(t)[0].w;
            if (auto* inv = dyn_cast<InvokeInst>(&in)) {
                I.e0 = edge(in.getParent(), inv->getNormalDest());
                I.e1 = edge(in.getParent(), inv->getUnwindDest());
            }
        } else if (auto* lp = dyn_cast<LandingPadInst>(&in)) {
            I.op = I_LANDING;
            I.imm = lp->isCleanup();
            std::vector<int> l;
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                if (lp->isCatch(i)) constSlots(lp->getClause(i), l);
                else l.push_back(mkConst(1)); // filter: matches everything
            }
            list(I, l);
        } else if (auto* r = dyn_cast<ResumeInst>(&in)) {
            I.op = I_RESUME;
            std::vector<int> o;
            ops(r->getValue(), o);
            I.a = o[0];
            I.b = o[1];
        } else if (isa<UnreachableInst>(in)) {
            I.op = I_UNREACHABLE;
        } else if (isa<FenceInst>(in)) {
            return;
        } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&in)) {
            I.op = I_CMPXCHG;
            I.a = op(cx->getPointerOperand()); I.b = op(cx->getCompareOperand()); I.c = op(cx->getNewValOperand());
            I.w = (u16)flat(cx->getCompareOperand()->getType())[0].w;
        } else if (auto* rm = dyn_cast<AtomicRMWInst>(&in)) {
            I.op = I_RMW;
            I.a = op(rm->getPointerOperand()); I.b = op(rm->getValOperand());
            I.w = (u16)flat(rm->getValOperand()->getType())[0].w;
            switch (rm->getOperation()) {
            case AtomicRMWInst::Xchg: I.sub = 0; break;
            case AtomicRMWInst::Add: I.sub = 1; break;
            case AtomicRMWInst::Sub: I.sub = 2; break;
            case AtomicRMWInst::And: I.sub = 3; break;
            case AtomicRMWInst::Or: I.sub = 4; break;
            default: unsup(in); return;
            }
        } else { unsup(in); return; }
        F->code.push_back(I);
    }
    void run()
    {
        u32 n = 0;
        for (const Argument& a : f->args()) {
            slot[&a] = (int)n;
            for (Slot& s : flat(a.getType())) { F->argw.push_back((u16)s.w); n++; }
        }
        for (const BasicBlock& b : *f)
            for (const Instruction& i : b) {
                if (i.getType()->isVoidTy()) continue;
                slot[&i] = (int)n;
                n += (u32)std::max<size_t>(1, flat(i.getType()).size());
            }
        F->nslots = n;
        F->nblocks = (u32)f->size();
        for (const BasicBlock& b : *f) {
            bpc[&b] = (u32)F->code.size();
            for (const Instruction& i : b) inst(i);
        }
        for (auto& p : edgeFix) M->edges[p.first].pc = bpc[p.second];
    }
};
} // namespace

::Module* loadModule(const char* path)
{
    static LLVMContext ctx;
    SMDiagnostic err;
    static std::unique_ptr<llvm::Module> mod = parseIRFile(path, err, ctx);
    if (!mod) die(std::string(path) + ": " + err.getMessage().str());
    M = new ::Module;
    DL = &mod->getDataLayout();
    auto addFunc = [&](const std::string& name) -> u32 {
        ::Func* F = new ::Func;
        F->name = name;
        F->id = (u32)M->funcs.size();
        M->funcs.push_back(F);
        M->funcByName[name] = F->id;
        return F->id;
    };
    for (const Function& f : *mod) {
        u32 id = addFunc(f.getName().str());
        M->funcs[id]->decl = f.isDeclaration();
        M->funcs[id]->isIntrinsic = f.isIntrinsic();
        M->funcs[id]->vararg = f.isVarArg();
        addrs[&f] = FUNC_BASE + ((u64)id << 4);
    }
    for (const char* n : {"memcpy", "free", "malloc"}) if (!M->funcByName.count(n)) addFunc(n);
    u32 obj = 2;
    for (const GlobalVariable& g : mod->globals()) {
        GlobalInit gi;
        gi.name = g.getName().str();
        gi.constant = g.isConstant();
        gi.decl = g.isDeclaration();
        gi.size = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
        if (gi.decl) gi.size = std::max<u64>(gi.size, 4096);
        gi.addr = objAddr(obj);
        obj += 2;
        addrs[&g] = gi.addr;
        M->globals.push_back(gi);
    }
    size_t k = 0;
    for (const GlobalVariable& g : mod->globals()) {
        GlobalInit& gi = M->globals[k++];
        gi.bytes.assign(gi.size, 0);
        if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used") initBytes(g.getInitializer(), gi.bytes, 0);
    }
    for (const Function& f : *mod) {
        if (f.isDeclaration()) continue;
        FnLower L;
        L.F = M->funcs[(addrs[&f] - FUNC_BASE) >> 4];
        L.f = &f;
        for (Slot& s : flat(f.getReturnType())) L.F->retw.push_back(s.w);
        L.run();
    }
    if (auto* gc = mod->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, u32>> v;
            for (unsigned i = 0; i < ca->getNumOperands(); i++) {
                auto* st = cast<ConstantStruct>(ca->getOperand(i));
                u64 pr, fp;
                evalConst(st->getOperand(0), pr);
                evalConst(cast<Constant>(st->getOperand(1)), fp);
                v.push_back({pr, (u32)((fp - FUNC_BASE) >> 4)});
            }
            std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : v) M->ctors.push_back(p.second);
        }
    return M;
}
