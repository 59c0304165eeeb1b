// LLVM pass: for every integer, pointer and double SSA value of the code under test keep a shadow
// pointer to a symbolic expression (null: concrete) and log the branch conditions that are symbolic.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "expr.h"
#include <map>
#include <set>

using namespace llvm;

namespace {

const char* const WRAPPED[] = {
    "strtod", "strtol", "__isoc23_strtol", "strtoul", "__isoc23_strtoul", "strtoll", "__isoc23_strtoll", "strtoull", "__isoc23_strtoull",
    "strlen", "memcmp", "bcmp", "memchr", "strcmp", "strncmp",
    "memcpy", "memmove", "memset",
    "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isprint", "ispunct", "isxdigit", "iscntrl", "isgraph", "isblank", "toupper", "tolower",
    "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "sinh", "cosh", "tanh", "atan2", "pow", "fabs", "floor", "ceil",
    "round", "trunc", "lround", "fmod", "fmax", "fmin", "hypot", "modf",
    "vsnprintf", "snprintf", "sprintf", "_ZSt11_Hash_bytesPKvmm",
    "_Znwm", "_Znam", "malloc", "calloc", "realloc",
    "_ZNSt7__cxx119to_stringEi", "_ZNSt7__cxx119to_stringEj", "_ZNSt7__cxx119to_stringEl", "_ZNSt7__cxx119to_stringEm",
    "_ZNKSt5ctypeIcE10do_toupperEc", "_ZNKSt5ctypeIcE10do_tolowerEc",
};

struct SymPass : PassInfoMixin<SymPass> {
    Module* M;
    LLVMContext* C;
    Type *I1, *I8, *I32, *I64, *Void, *Dbl;
    PointerType* P;
    Constant* Null;
    FunctionCallee fLoad, fLoadA, fStore, fBin, fCast, fSelect, fBranch, fSwitch, fConc, fMemcpy, fMemset, fOvf;
    GlobalVariable *gArgs, *gCallee, *gRet, *gRetFrom, *gByval, *gDone;

    PreservedAnalyses run(Module& m, ModuleAnalysisManager&)
    {
        M = &m;
        C = &m.getContext();
        I1 = Type::getInt1Ty(*C); I8 = Type::getInt8Ty(*C); I32 = Type::getInt32Ty(*C); I64 = Type::getInt64Ty(*C);
        Void = Type::getVoidTy(*C); Dbl = Type::getDoubleTy(*C);
        P = PointerType::getUnqual(*C);
        Null = ConstantPointerNull::get(P);
        auto fn = [&](const char* n, Type* r, ArrayRef<Type*> a) { return M->getOrInsertFunction(n, FunctionType::get(r, a, false)); };
        std::vector<Function*> todo;
        for (auto& f : *M)
            if (!f.isDeclaration() && !f.hasAvailableExternallyLinkage()) todo.push_back(&f);
        for (const char* w : WRAPPED)
            if (Function* f = M->getFunction(w); f && f->isDeclaration()) {
                auto c = M->getOrInsertFunction(std::string("__symw_") + w, f->getFunctionType());
                auto* nf = cast<Function>(c.getCallee());
                nf->setCallingConv(f->getCallingConv());
                f->replaceAllUsesWith(nf);
            }
        fLoad = fn("__sym_load", P, {P, I64});
        fLoadA = fn("__sym_load_addr", P, {P, P, I64});
        fStore = fn("__sym_store", Void, {P, I64, P});
        fBin = fn("__sym_bin", P, {I32, I32, P, P, I64, I64, I64});
        fCast = fn("__sym_cast", P, {I32, I32, I32, P, I64, I64});
        fSelect = fn("__sym_select", P, {I32, P, P, P, I64, I64, I64});
        fBranch = fn("__sym_branch", Void, {P, I1});
        fSwitch = fn("__sym_switch", Void, {P, I64, P, I64, I32});
        fConc = fn("__sym_conc", Void, {P, I64});
        fMemcpy = fn("__sym_memcpy", Void, {P, P, I64});
        fMemset = fn("__sym_memset", Void, {P, P, I64});
        auto gv = [&](const char* n, Type* t) {
            auto* g = M->getGlobalVariable(n);
            return g ? g : new GlobalVariable(*M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
        };
        gArgs = gv("__sym_args", ArrayType::get(P, 64));
        gByval = gv("__sym_byval", ArrayType::get(P, 64));
        gCallee = gv("__sym_callee", P);
        gRet = gv("__sym_ret", ArrayType::get(P, 8));
        gRetFrom = gv("__sym_ret_from", P);
        gDone = gv("__sym_done", P);
        for (auto& f : *M) {
            f.removeFnAttr(Attribute::Memory);
            f.removeFnAttr(Attribute::Speculatable);
            for (auto& i : instructions(f))
                if (auto* cb = dyn_cast<CallBase>(&i); cb && !isa<IntrinsicInst>(cb)) cb->removeFnAttr(Attribute::Memory);
        }
        for (auto* f : todo) {
            if (f->getName().starts_with("__sym")) continue;
            FunctionInstr fi{*this, *f};
            fi.run();
        }
        return PreservedAnalyses::none();
    }

    struct FunctionInstr {
        SymPass& p;
        Function& F;
        std::map<Value*, Value*> sh;                    // scalar shadows
        std::map<Value*, std::vector<Value*>> agg;      // one-level struct shadows
        std::vector<std::pair<PHINode*, PHINode*>> phis;
        std::vector<std::pair<PHINode*, std::vector<PHINode*>>> aggPhis;

        bool scalar(Type* t) const
        {
            if (t->isPointerTy() || t->isDoubleTy()) return true;
            if (auto* i = dyn_cast<IntegerType>(t)) return i->getBitWidth() <= 64;
            return false;
        }
        unsigned bits(Type* t) const { return t->isIntegerTy() ? t->getIntegerBitWidth() : 64; }
        Value* s(Value* v)
        {
            if (isa<Constant>(v)) return p.Null;
            auto it = sh.find(v);
            return it == sh.end() ? p.Null : it->second;
        }
        bool isNull(Value* v) const { return v == p.Null; }
        Value* asI64(IRBuilder<>& B, Value* v)
        {
            Type* t = v->getType();
            if (t->isPointerTy()) return B.CreatePtrToInt(v, p.I64);
            if (t->isDoubleTy()) return B.CreateBitCast(v, p.I64);
            return B.CreateZExt(v, p.I64);
        }
        Value* i32(unsigned v) { return ConstantInt::get(p.I32, v); }
        Value* i64(uint64_t v) { return ConstantInt::get(p.I64, v); }

        void run()
        {
            std::vector<Instruction*> insts;
            ReversePostOrderTraversalHelper(insts);
            // entry
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            {
                bool any = false;
                for (auto& a : F.args()) any |= !a.use_empty();
                if (F.isVarArg()) {
                    auto va = p.M->getOrInsertFunction("__sym_va_entry", FunctionType::get(p.Void, {p.P, p.I32}, false));
                    B.CreateCall(va, {&F, i32(F.arg_size())});
                } else if (any) {
                    Value* callee = B.CreateLoad(p.P, p.gCallee);
                    Value* ok = B.CreateICmpEQ(callee, &F);
                    B.CreateStore(p.Null, p.gCallee);
                    unsigned i = 0;
                    for (auto& a : F.args()) {
                        if (i >= 64) break;
                        if (a.hasByValAttr()) {
                            Value* src = B.CreateLoad(p.P, B.CreateConstInBoundsGEP2_64(p.gByval->getValueType(), p.gByval, 0, i));
                            src = B.CreateSelect(ok, src, p.Null);
                            uint64_t sz = F.getParent()->getDataLayout().getTypeAllocSize(a.getParamByValType());
                            B.CreateCall(p.fMemcpy, {&a, src, i64(sz)});
                        } else if (scalar(a.getType()) && !a.use_empty()) {
                            Value* v = B.CreateLoad(p.P, B.CreateConstInBoundsGEP2_64(p.gArgs->getValueType(), p.gArgs, 0, i));
                            sh[&a] = B.CreateSelect(ok, v, p.Null);
                        }
                        ++i;
                    }
                }
            }
            for (auto* I : insts) visit(I);
            for (auto& [o, n] : phis)
                for (unsigned i = 0; i < o->getNumIncomingValues(); ++i)
                    n->addIncoming(s(o->getIncomingValue(i)), o->getIncomingBlock(i));
            for (auto& [o, ns] : aggPhis)
                for (unsigned i = 0; i < o->getNumIncomingValues(); ++i) {
                    auto it = agg.find(o->getIncomingValue(i));
                    for (size_t k = 0; k < ns.size(); ++k)
                        ns[k]->addIncoming(it == agg.end() || k >= it->second.size() ? (Value*)p.Null : it->second[k], o->getIncomingBlock(i));
                }
        }

        void ReversePostOrderTraversalHelper(std::vector<Instruction*>& out)
        {
            // simple DFS post-order
            std::set<BasicBlock*> seen;
            std::vector<BasicBlock*> post;
            std::vector<std::pair<BasicBlock*, unsigned>> st;
            st.push_back({&F.getEntryBlock(), 0});
            seen.insert(&F.getEntryBlock());
            while (!st.empty()) {
                auto& [bb, i] = st.back();
                auto* t = bb->getTerminator();
                if (i < t->getNumSuccessors()) {
                    auto* n = t->getSuccessor(i++);
                    if (seen.insert(n).second) st.push_back({n, 0});
                } else {
                    post.push_back(bb);
                    st.pop_back();
                }
            }
            for (auto it = post.rbegin(); it != post.rend(); ++it)
                for (auto& i : **it) out.push_back(&i);
        }

        void conc(IRBuilder<>& B, Value* v)
        {
            Value* x = s(v);
            if (!isNull(x)) B.CreateCall(p.fConc, {x, asI64(B, v)});
        }

        void bin(Instruction* I, unsigned op, Value* a, Value* b, bool neg = false)
        {
            Value *sa = s(a), *sb = s(b);
            if (isNull(sa) && isNull(sb)) return;
            IRBuilder<> B(I->getNextNode());
            Value* r = B.CreateCall(p.fBin, {i32(op | (neg ? 0x100 : 0)), i32(bits(a->getType())), sa, sb, asI64(B, a), asI64(B, b), asI64(B, I)});
            sh[I] = r;
        }
        void cast(Instruction* I, unsigned op, Value* a)
        {
            Value* sa = s(a);
            if (isNull(sa)) return;
            IRBuilder<> B(I->getNextNode());
            sh[I] = B.CreateCall(p.fCast, {i32(op), i32(bits(a->getType())), i32(bits(I->getType())), sa, asI64(B, a), asI64(B, I)});
        }

        void visit(Instruction* I)
        {
            Type* T = I->getType();
            if (auto* phi = dyn_cast<PHINode>(I)) {
                if (scalar(T)) {
                    IRBuilder<> B(phi);
                    auto* n = B.CreatePHI(p.P, phi->getNumIncomingValues());
                    sh[phi] = n;
                    phis.push_back({phi, n});
                } else if (auto* stt = dyn_cast<StructType>(T)) {
                    IRBuilder<> B(phi);
                    std::vector<PHINode*> ns;
                    for (unsigned k = 0; k < stt->getNumElements(); ++k) ns.push_back(B.CreatePHI(p.P, phi->getNumIncomingValues()));
                    agg[phi] = std::vector<Value*>(ns.begin(), ns.end());
                    aggPhis.push_back({phi, ns});
                }
                return;
            }
            if (auto* b = dyn_cast<BinaryOperator>(I)) {
                if (!scalar(T)) { IRBuilder<> B(I); for (auto& o : I->operands()) if (scalar(o->getType())) conc(B, o); return; }
                unsigned op = 0;
                switch (b->getOpcode()) {
                case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break; case Instruction::Mul: op = O_MUL; break;
                case Instruction::UDiv: op = O_UDIV; break; case Instruction::SDiv: op = O_SDIV; break;
                case Instruction::URem: op = O_UREM; break; case Instruction::SRem: op = O_SREM; break;
                case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break; case Instruction::AShr: op = O_ASHR; break;
                case Instruction::And: op = O_AND; break; case Instruction::Or: op = O_OR; break; case Instruction::Xor: op = O_XOR; break;
                case Instruction::FAdd: op = O_FADD; break; case Instruction::FSub: op = O_FSUB; break; case Instruction::FMul: op = O_FMUL; break;
                case Instruction::FDiv: op = O_FDIV; break; case Instruction::FRem: op = O_FREM; break;
                default: return;
                }
                // a symbolic integer divisor that may be zero traps before the result exists: fork on it first
                if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
                    Value* sb = s(b->getOperand(1));
                    if (!isNull(sb)) {
                        IRBuilder<> B(I);
                        Value* z = B.CreateICmpEQ(b->getOperand(1), Constant::getNullValue(T));
                        Value* zs = B.CreateCall(p.fBin, {i32(O_EQ), i32(bits(T)), sb, p.Null, asI64(B, b->getOperand(1)), i64(0), B.CreateZExt(z, p.I64)});
                        B.CreateCall(p.fBranch, {zs, z});
                    }
                }
                bin(I, op, b->getOperand(0), b->getOperand(1));
                return;
            }
            if (auto* u = dyn_cast<UnaryOperator>(I)) {
                if (T->isDoubleTy() && u->getOpcode() == Instruction::FNeg) cast(I, O_FNEG, u->getOperand(0));
                return;
            }
            if (auto* c = dyn_cast<ICmpInst>(I)) {
                Value *a = c->getOperand(0), *b = c->getOperand(1);
                if (!scalar(a->getType())) return;
                switch (c->getPredicate()) {
                case CmpInst::ICMP_EQ: bin(I, O_EQ, a, b); break;
                case CmpInst::ICMP_NE: bin(I, O_EQ, a, b, true); break;
                case CmpInst::ICMP_ULT: bin(I, O_ULT, a, b); break;
                case CmpInst::ICMP_ULE: bin(I, O_ULE, a, b); break;
                case CmpInst::ICMP_UGT: bin(I, O_ULT, b, a); break;
                case CmpInst::ICMP_UGE: bin(I, O_ULE, b, a); break;
                case CmpInst::ICMP_SLT: bin(I, O_SLT, a, b); break;
                case CmpInst::ICMP_SLE: bin(I, O_SLE, a, b); break;
                case CmpInst::ICMP_SGT: bin(I, O_SLT, b, a); break;
                case CmpInst::ICMP_SGE: bin(I, O_SLE, b, a); break;
                default: break;
                }
                return;
            }
            if (auto* c = dyn_cast<FCmpInst>(I)) {
                Value *a = c->getOperand(0), *b = c->getOperand(1);
                if (!a->getType()->isDoubleTy()) return;
                // codes above 0x200: fcmp predicate number
                Value *sa = s(a), *sb = s(b);
                if (isNull(sa) && isNull(sb)) return;
                IRBuilder<> B(I->getNextNode());
                sh[I] = B.CreateCall(p.fBin, {i32(0x200 + c->getPredicate()), i32(64), sa, sb, asI64(B, a), asI64(B, b), asI64(B, I)});
                return;
            }
            if (auto* c = dyn_cast<CastInst>(I)) {
                Value* a = c->getOperand(0);
                if (!scalar(T) || !scalar(a->getType())) {
                    if (scalar(a->getType())) { IRBuilder<> B(I); conc(B, a); }
                    return;
                }
                switch (c->getOpcode()) {
                case Instruction::ZExt: cast(I, O_ZEXT, a); break;
                case Instruction::SExt: cast(I, O_SEXT, a); break;
                case Instruction::Trunc: cast(I, O_EXTRACT, a); break;
                case Instruction::SIToFP: if (T->isDoubleTy()) cast(I, O_SI2F, a); break;
                case Instruction::UIToFP: if (T->isDoubleTy()) cast(I, O_UI2F, a); break;
                case Instruction::FPToSI: if (a->getType()->isDoubleTy()) cast(I, O_F2SI, a); break;
                case Instruction::FPToUI: if (a->getType()->isDoubleTy()) cast(I, O_F2UI, a); break;
                case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
                    if (bits(T) == bits(a->getType())) sh[I] = s(a);
                    break;
                default: break;
                }
                return;
            }
            if (isa<FreezeInst>(I)) { if (scalar(T)) sh[I] = s(I->getOperand(0)); return; }
            if (auto* g = dyn_cast<GetElementPtrInst>(I)) { gep(g); return; }
            if (auto* sel = dyn_cast<SelectInst>(I)) {
                if (!scalar(T)) { IRBuilder<> B(I); if (sel->getCondition()->getType() == p.I1 && !isNull(s(sel->getCondition()))) B.CreateCall(p.fBranch, {s(sel->getCondition()), sel->getCondition()}); return; }
                Value *c = sel->getCondition(), *a = sel->getTrueValue(), *b = sel->getFalseValue();
                if (isNull(s(c)) && isNull(s(a)) && isNull(s(b))) return;
                IRBuilder<> B(I->getNextNode());
                if (T->isPointerTy()) {
                    if (!isNull(s(c))) B.CreateCall(p.fBranch, {s(c), c});
                    sh[I] = B.CreateSelect(c, s(a), s(b));
                } else {
                    sh[I] = B.CreateCall(p.fSelect, {i32(bits(T) | (T->isDoubleTy() ? 0x100 : 0)), s(c), s(a), s(b), B.CreateZExt(c, p.I64), asI64(B, a), asI64(B, b)});
                }
                return;
            }
            if (auto* l = dyn_cast<LoadInst>(I)) {
                IRBuilder<> B(I->getNextNode());
                if (!scalar(T)) return;
                if (bits(T) % 8 && bits(T) != 1) return;
                if (isa<GlobalVariable>(l->getPointerOperand()) && cast2gv(l->getPointerOperand())->isConstant()) return;
                uint64_t sz = bits(T) == 1 ? 1 : bits(T) / 8;
                Value* sp = s(l->getPointerOperand());
                Value* r = isNull(sp) ? B.CreateCall(p.fLoad, {l->getPointerOperand(), i64(sz)})
                                      : B.CreateCall(p.fLoadA, {l->getPointerOperand(), sp, i64(sz)});
                if (bits(T) == 1) r = B.CreateCall(p.fCast, {i32(O_EXTRACT), i32(8), i32(1), r, i64(0), asI64(B, I)});
                sh[I] = r;
                return;
            }
            if (auto* st = dyn_cast<StoreInst>(I)) {
                IRBuilder<> B(I->getNextNode());
                Value* v = st->getValueOperand();
                Type* t = v->getType();
                conc(B, st->getPointerOperand());
                uint64_t sz = F.getParent()->getDataLayout().getTypeStoreSize(t);
                Value* x = scalar(t) ? s(v) : p.Null;
                if (scalar(t) && bits(t) == 1 && !isNull(x)) x = B.CreateCall(p.fCast, {i32(O_ZEXT), i32(1), i32(8), x, i64(0), asI64(B, v)});
                if (scalar(t) && bits(t) % 8 && bits(t) != 1) x = p.Null;
                B.CreateCall(p.fStore, {st->getPointerOperand(), i64(sz), x});
                return;
            }
            if (auto* ev = dyn_cast<ExtractValueInst>(I)) {
                auto it = agg.find(ev->getAggregateOperand());
                if (it != agg.end() && ev->getNumIndices() == 1 && scalar(T)) sh[I] = it->second[ev->getIndices()[0]];
                return;
            }
            if (auto* iv = dyn_cast<InsertValueInst>(I)) {
                auto* stt = dyn_cast<StructType>(T);
                if (!stt || iv->getNumIndices() != 1) return;
                std::vector<Value*> v(stt->getNumElements(), p.Null);
                auto it = agg.find(iv->getAggregateOperand());
                if (it != agg.end()) v = it->second;
                if (scalar(iv->getInsertedValueOperand()->getType())) v[iv->getIndices()[0]] = s(iv->getInsertedValueOperand());
                agg[I] = v;
                return;
            }
            if (auto* br = dyn_cast<BranchInst>(I)) {
                if (br->isConditional() && !isNull(s(br->getCondition()))) {
                    IRBuilder<> B(I);
                    B.CreateCall(p.fBranch, {s(br->getCondition()), br->getCondition()});
                }
                return;
            }
            if (auto* sw = dyn_cast<SwitchInst>(I)) {
                Value* x = s(sw->getCondition());
                if (isNull(x)) return;
                std::vector<uint64_t> cs;
                for (auto& c : sw->cases()) cs.push_back(c.getCaseValue()->getZExtValue());
                auto* arr = ConstantDataArray::get(*p.C, cs);
                auto* g = new GlobalVariable(*p.M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, "symsw");
                IRBuilder<> B(I);
                B.CreateCall(p.fSwitch, {x, asI64(B, sw->getCondition()), g, i64(cs.size()), i32(bits(sw->getCondition()->getType()))});
                return;
            }
            if (auto* r = dyn_cast<ReturnInst>(I)) {
                IRBuilder<> B(I);
                Value* v = r->getReturnValue();
                B.CreateStore(&F, p.gDone);
                if (v && !scalar(v->getType()) && !isa<StructType>(v->getType())) return;
                if (!v) return;
                B.CreateStore(&F, p.gRetFrom);
                if (scalar(v->getType()))
                    B.CreateStore(s(v), ret(B, 0));
                else {
                    auto n = cast<StructType>(v->getType())->getNumElements();
                    auto it = agg.find(v);
                    for (unsigned i = 0; i < n && i < 8; ++i) B.CreateStore(it == agg.end() ? p.Null : it->second[i], ret(B, i));
                }
                return;
            }
            if (auto* cb = dyn_cast<CallBase>(I)) { call(cb); return; }
        }
        GlobalVariable* cast2gv(Value* v) { return llvm::cast<GlobalVariable>(v); }
        Value* ret(IRBuilder<>& B, unsigned i) { return B.CreateConstInBoundsGEP2_64(p.gRet->getValueType(), p.gRet, 0, i); }

        void gep(GetElementPtrInst* g)
        {
            bool any = !isNull(s(g->getPointerOperand()));
            for (auto& i : g->indices()) any |= !isNull(s(i));
            if (!any || !g->getType()->isPointerTy()) return;
            const DataLayout& DL = F.getParent()->getDataLayout();
            IRBuilder<> B(g->getNextNode());
            Value* cur = s(g->getPointerOperand());
            Value* curv = B.CreatePtrToInt(g->getPointerOperand(), p.I64);
            for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
                Value* idx = gti.getOperand();
                if (auto* stt = gti.getStructTypeOrNull()) {
                    uint64_t off = DL.getStructLayout(stt)->getElementOffset(llvm::cast<ConstantInt>(idx)->getZExtValue());
                    Value* nv = B.CreateAdd(curv, i64(off));
                    if (off) cur = B.CreateCall(p.fBin, {i32(O_ADD), i32(64), cur, p.Null, curv, i64(off), nv});
                    curv = nv;
                    continue;
                }
                uint64_t sz = gti.getSequentialElementStride(DL);
                Value* iv = idx->getType() == p.I64 ? idx : B.CreateSExtOrTrunc(idx, p.I64);
                Value* is = s(idx);
                if (!isNull(is) && idx->getType() != p.I64)
                    is = B.CreateCall(p.fCast, {i32(O_SEXT), i32(bits(idx->getType())), i32(64), is, asI64(B, idx), iv});
                Value* ov = B.CreateMul(iv, i64(sz));
                Value* os = is;
                if (!isNull(is) && sz != 1) os = B.CreateCall(p.fBin, {i32(O_MUL), i32(64), is, p.Null, iv, i64(sz), ov});
                Value* nv = B.CreateAdd(curv, ov);
                cur = B.CreateCall(p.fBin, {i32(O_ADD), i32(64), cur, os, curv, ov, nv});
                curv = nv;
            }
            sh[g] = cur;
        }

        void call(CallBase* cb)
        {
            if (cb->isInlineAsm()) return;
            if (auto* ii = dyn_cast<IntrinsicInst>(cb)) { intrinsic(ii); return; }
            IRBuilder<> B(cb);
            Type* T = cb->getType();
            Value* callee = cb->getCalledOperand();
            bool indirect = !isa<Function>(callee);
            if (indirect) conc(B, callee);
            Function* cf = dyn_cast<Function>(callee);
            if (cf && cf->getName().starts_with("__sym_")) return;
            unsigned i = 0;
            bool anyArg = false;
            for (auto& a : cb->args()) {
                if (i >= 64) break;
                Value* x = scalar(a->getType()) ? s(a) : p.Null;
                if (cb->isByValArgument(i)) {
                    B.CreateStore(a, B.CreateConstInBoundsGEP2_64(p.gByval->getValueType(), p.gByval, 0, i));
                    x = p.Null;
                }
                B.CreateStore(x, B.CreateConstInBoundsGEP2_64(p.gArgs->getValueType(), p.gArgs, 0, i));
                anyArg |= !isNull(x);
                ++i;
            }
            if (i < 64) B.CreateStore(p.Null, B.CreateConstInBoundsGEP2_64(p.gArgs->getValueType(), p.gArgs, 0, i));
            B.CreateStore(callee, p.gCallee);
            bool api = cf && (cf->getName().starts_with("__symw_") || cf->getName().starts_with("sym_"));
            if (anyArg && !api) B.CreateStore(p.Null, p.gDone);
            Value* after = nullptr;
            Instruction* pt;
            if (auto* inv = dyn_cast<InvokeInst>(cb)) {
                BasicBlock* dest = inv->getNormalDest();
                BasicBlock* nb = BasicBlock::Create(*p.C, "symret", &F, dest);
                pt = BranchInst::Create(dest, nb);
                dest->replacePhiUsesWith(inv->getParent(), nb);
                inv->setNormalDest(nb);
            } else {
                pt = cb->getNextNode();
                if (!pt) return;
                if (auto* ci = dyn_cast<CallInst>(cb)) ci->setTailCall(false);
                if (isa<UnreachableInst>(pt)) return;
            }
            IRBuilder<> A(pt);
            // symbolic scalar arguments an uninstrumented callee consumed concretely
            if (anyArg && !api) {
                Value* pend = A.CreateICmpNE(A.CreateLoad(p.P, p.gDone), callee);
                i = 0;
                for (auto& a : cb->args()) {
                    if (i++ >= 64) break;
                    Value* x = scalar(a->getType()) ? s(a) : p.Null;
                    if (isNull(x)) continue;
                    A.CreateCall(p.fConc, {A.CreateSelect(pend, x, p.Null), asI64(A, a)});
                }
            }
            A.CreateStore(p.Null, p.gCallee);
            if (T->isVoidTy()) return;
            if (scalar(T) && !cb->use_empty()) {
                Value* ok = A.CreateICmpEQ(A.CreateLoad(p.P, p.gRetFrom), callee);
                A.CreateStore(p.Null, p.gRetFrom);
                after = A.CreateSelect(ok, A.CreateLoad(p.P, ret(A, 0)), p.Null);
                sh[cb] = after;
            } else if (auto* stt = dyn_cast<StructType>(T)) {
                Value* ok = A.CreateICmpEQ(A.CreateLoad(p.P, p.gRetFrom), callee);
                A.CreateStore(p.Null, p.gRetFrom);
                std::vector<Value*> v;
                for (unsigned k = 0; k < stt->getNumElements(); ++k)
                    v.push_back(k < 8 && scalar(stt->getElementType(k)) ? A.CreateSelect(ok, A.CreateLoad(p.P, ret(A, k)), p.Null) : (Value*)p.Null);
                agg[cb] = v;
            }
        }

        void intrinsic(IntrinsicInst* I)
        {
            Type* T = I->getType();
            switch (I->getIntrinsicID()) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
                IRBuilder<> B(I);
                conc(B, I->getArgOperand(0)); conc(B, I->getArgOperand(1)); conc(B, I->getArgOperand(2));
                B.CreateCall(p.fMemcpy, {I->getArgOperand(0), I->getArgOperand(1), B.CreateZExtOrTrunc(I->getArgOperand(2), p.I64)});
                return;
            }
            case Intrinsic::memset: {
                IRBuilder<> B(I);
                conc(B, I->getArgOperand(0)); conc(B, I->getArgOperand(2));
                B.CreateCall(p.fMemset, {I->getArgOperand(0), s(I->getArgOperand(1)), B.CreateZExtOrTrunc(I->getArgOperand(2), p.I64)});
                return;
            }
            case Intrinsic::fabs: if (T->isDoubleTy()) cast(I, O_FABS, I->getArgOperand(0)); return;
            case Intrinsic::sqrt: if (T->isDoubleTy()) cast(I, O_FSQRT, I->getArgOperand(0)); return;
            case Intrinsic::floor: if (T->isDoubleTy()) cast(I, O_FFLOOR, I->getArgOperand(0)); return;
            case Intrinsic::ceil: if (T->isDoubleTy()) cast(I, O_FCEIL, I->getArgOperand(0)); return;
            case Intrinsic::trunc: if (T->isDoubleTy()) cast(I, O_FTRUNC, I->getArgOperand(0)); return;
            case Intrinsic::round: if (T->isDoubleTy()) cast(I, O_FROUND, I->getArgOperand(0)); return;
            case Intrinsic::umin: if (scalar(T)) bin(I, O_UMIN, I->getArgOperand(0), I->getArgOperand(1)); return;
            case Intrinsic::umax: if (scalar(T)) bin(I, O_UMAX, I->getArgOperand(0), I->getArgOperand(1)); return;
            case Intrinsic::smin: if (scalar(T)) bin(I, O_SMIN, I->getArgOperand(0), I->getArgOperand(1)); return;
            case Intrinsic::smax: if (scalar(T)) bin(I, O_SMAX, I->getArgOperand(0), I->getArgOperand(1)); return;
            case Intrinsic::minnum: if (T->isDoubleTy()) bin(I, O_FMIN, I->getArgOperand(0), I->getArgOperand(1)); return;
            case Intrinsic::maxnum: if (T->isDoubleTy()) bin(I, O_FMAX, I->getArgOperand(0), I->getArgOperand(1)); return;
            case Intrinsic::abs: if (scalar(T)) cast(I, 0x300, I->getArgOperand(0)); return;
            case Intrinsic::is_fpclass: if (I->getArgOperand(0)->getType()->isDoubleTy()) {
                    Value* sa = s(I->getArgOperand(0));
                    if (isNull(sa)) return;
                    IRBuilder<> B(I->getNextNode());
                    sh[I] = B.CreateCall(p.fBin, {i32(0x301), i32(64), sa, p.Null, asI64(B, I->getArgOperand(0)), asI64(B, I->getArgOperand(1)), asI64(B, I)});
                } return;
            case Intrinsic::sadd_with_overflow: ovf(I, O_ADD, O_SADDO); return;
            case Intrinsic::ssub_with_overflow: ovf(I, O_SUB, O_SSUBO); return;
            case Intrinsic::smul_with_overflow: ovf(I, O_MUL, O_SMULO); return;
            case Intrinsic::uadd_with_overflow: ovf(I, O_ADD, O_UADDO); return;
            case Intrinsic::usub_with_overflow: ovf(I, O_SUB, O_USUBO); return;
            case Intrinsic::umul_with_overflow: ovf(I, O_MUL, O_UMULO); return;
            case Intrinsic::usub_sat: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap:
            case Intrinsic::uadd_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: case Intrinsic::bitreverse: {
                IRBuilder<> B(I);
                for (auto& a : I->args()) if (scalar(a->getType())) conc(B, a);
                return;
            }
            case Intrinsic::expect: if (scalar(T)) sh[I] = s(I->getArgOperand(0)); return;
            default: return;
            }
        }
        void ovf(IntrinsicInst* I, unsigned op, unsigned oop)
        {
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
            if (!scalar(a->getType()) || (isNull(s(a)) && isNull(s(b)))) return;
            IRBuilder<> B(I->getNextNode());
            Value* r0 = B.CreateExtractValue(I, {0});
            Value* r1 = B.CreateExtractValue(I, {1});
            Value* x0 = B.CreateCall(p.fBin, {i32(op), i32(bits(a->getType())), s(a), s(b), asI64(B, a), asI64(B, b), asI64(B, r0)});
            Value* x1 = B.CreateCall(p.fBin, {i32(oop), i32(bits(a->getType())), s(a), s(b), asI64(B, a), asI64(B, b), asI64(B, r1)});
            agg[I] = {x0, x1};
        }
    };
    static bool isRequired() { return true; }
};

} // namespace

// The product declares some inline functions `extern` in other files and links only because -O0 emits them:
// keep the inline functions of its own namespaces.
struct KeepInline : PassInfoMixin<KeepInline> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
    {
        for (const char* n : {"_ZNSt7__cxx119to_stringEi", "_ZNSt7__cxx119to_stringEj", "_ZNSt7__cxx119to_stringEl", "_ZNSt7__cxx119to_stringEm"})
            if (Function* f = M.getFunction(n); f && !f->isDeclaration()) {
                f->deleteBody(); // becomes a call of the model
                f->setComdat(nullptr);
                f->setLinkage(GlobalValue::ExternalLinkage);
            }
        for (auto& F : M)
            if (!F.isDeclaration() && F.getLinkage() == GlobalValue::LinkOnceODRLinkage && F.getName().starts_with("_ZN6parser5fanuc") && F.getReturnType()->isIntegerTy() && F.arg_size() == 1)
                F.setLinkage(GlobalValue::WeakODRLinkage);
        return PreservedAnalyses::all();
    }
    static bool isRequired() { return true; }
};

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "sympass", "1", [](PassBuilder& PB) {
                PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(KeepInline()); });
                PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
            }};
}
