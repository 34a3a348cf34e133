#include "llvm/Transforms/Scalar/DeadStoreElimination.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "core.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/MemorySSA.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"

std::map<std::string, RuleFn>& ruleRegistry() { static std::map<std::string, RuleFn> m; return m; }
RuleReg::RuleReg(const char* id, RuleFn f) { ruleRegistry()[id] = f; }

const std::string& Ctx::dem(StringRef m) {
    auto it = demangleCache.find(m);
    if (it != demangleCache.end()) return it->second;
    return demangleCache[m] = llvm::demangle(m.str());
}

std::string stripArgs(const std::string& d) {
    // cut the parameter list: the last top-level '(' that is not part of "(anonymous namespace)" or "operator()"
    std::string s = d;
    // drop a leading return type? (only templates carry one) - keep it simple: handled by callers using find()
    int depth = 0;
    size_t pos = std::string::npos;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (c == '<') { if (!(i >= 8 && s.compare(i - 8, 8, "operator") == 0)) depth++; }
        else if (c == '>') { if (!(i >= 9 && s.compare(i - 9, 9, "operator-") == 0) && depth > 0) depth--; }
        else if (c == '(' && depth == 0) {
            if (s.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
            if (i >= 8 && s.compare(i - 8, 8, "operator") == 0) { i += 1; continue; }
            pos = i; 
            // nested function scopes: "f(int)::'lambda'(...)" -> continue to find the last one at depth 0
            size_t j = i; int pd = 0;
            for (; j < s.size(); ++j) { if (s[j] == '(') pd++; else if (s[j] == ')') { if (--pd == 0) break; } }
            // skip " const"
            size_t k = j + 1;
            if (s.compare(k, 6, " const") == 0) k += 6;
            if (s.compare(k, 2, "::") == 0) { i = k; continue; }
            break;
        }
    }
    if (pos == std::string::npos) return s;
    return s.substr(0, pos);
}

std::string Ctx::qname(const Function* F) {
    std::string s = stripArgs(name(F));
    // strip return type of templates: last space at depth 0
    int depth = 0; size_t cut = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '<' || s[i] == '(') depth++; else if ((s[i] == '>' || s[i] == ')') && depth > 0) depth--;
        else if (s[i] == ' ' && depth == 0 && s.compare(i, 9, " operator") != 0 && !(i >= 8 && s.compare(i - 8, 8, "operator") == 0)) cut = i + 1;
    }
    return s.substr(cut);
}

static std::string fullPath(const DIFile* f) {
    if (!f) return "";
    std::string fn = f->getFilename().str();
    if (!fn.empty() && fn[0] == '/') return fn;
    return f->getDirectory().str() + "/" + fn;
}

static std::string canon(const std::string& p) {
    std::vector<std::string> parts; std::string cur;
    for (size_t i = 0; i <= p.size(); ++i) {
        if (i == p.size() || p[i] == '/') {
            if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (!cur.empty() && cur != ".") parts.push_back(cur);
            cur.clear();
        } else cur += p[i];
    }
    std::string r; for (auto& x : parts) r += "/" + x; return r;
}

static std::string rel(Ctx& C, const DIFile* f) {
    std::string p = canon(fullPath(f));
    std::string pre = C.repo + "/";
    if (p.compare(0, pre.size(), pre) == 0) return p.substr(pre.size());
    return "";
}

std::string Ctx::file(const Function* F) {
    auto* SP = F->getSubprogram();
    return SP ? rel(*this, SP->getFile()) : "";
}
bool Ctx::inRepo(const Function* F) {
    std::string f = file(F);
    return f.compare(0, 4, "Src/") == 0;
}
std::string Ctx::fnLoc(const Function* F) {
    auto* SP = F->getSubprogram();
    if (!SP) return "?";
    std::string r = rel(*this, SP->getFile());
    return (r.empty() ? SP->getFile()->getFilename().str() : r) + ":" + std::to_string(SP->getLine());
}
std::string Ctx::loc(const Instruction* I) {
    const DILocation* L = I->getDebugLoc().get();
    const Instruction* J = I;
    while (!L && J) { J = J->getPrevNode(); if (J) L = J->getDebugLoc().get(); }
    if (!L) return fnLoc(I->getFunction());
    for (const DILocation* x = L; x; x = x->getInlinedAt()) {
        std::string r = rel(*this, x->getScope()->getFile());
        if (!r.empty()) return r + ":" + std::to_string(x->getLine());
    }
    return L->getFilename().str() + ":" + std::to_string(L->getLine());
}

std::vector<Function*> repoFunctions(Ctx& C) {
    std::vector<Function*> v;
    for (auto& F : *C.M) if (!F.isDeclaration() && C.inRepo(&F) && !F.hasFnAttribute("czi-clone")) v.push_back(&F);
    return v;
}

Function* calledFn(const CallBase* CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCastsAndAliases()); }

std::string calleeName(Ctx& C, const CallBase* CB) {
    if (Function* F = calledFn(CB)) {
        auto it = C.stubName.find(F);
        if (it != C.stubName.end()) return it->second;
        return C.qname(F);
    }
    if (CB->hasFnAttr("czi.stdfn")) return CB->getFnAttr("czi.stdfn").getValueAsString().str() + "::operator()";
    return "";
}

std::vector<Function*> possibleTargets(Ctx& C, const CallBase* CB, bool& unknown) {
    unknown = false;
    if (Function* F = calledFn(CB)) {
        auto it = C.stubTargets.find(F);
        if (it != C.stubTargets.end()) return it->second;
        return {F};
    }
    if (CB->hasFnAttr("czi.stdfn")) {
        auto s = CB->getFnAttr("czi.stdfn").getValueAsString().str();
        auto it = C.fnInvokers.find(s);
        if (it != C.fnInvokers.end()) return it->second;
    }
    unknown = true;
    return {};
}

// ---------------------------------------------------------------- load & stubify
static std::string classNameFromZTS(Ctx& C, StringRef id) {
    // _ZTSN6libCZI7IStreamE -> libCZI::IStream
    std::string d = C.dem(id);
    const std::string pre = "typeinfo name for ";
    if (d.compare(0, pre.size(), pre) == 0) return d.substr(pre.size());
    return d;
}

void loadAndPrepare(Ctx& C, const std::string& bc) {
    SMDiagnostic err;
    C.M = parseIRFile(bc, err, C.llctx);
    if (!C.M) { err.print("czilint", errs()); exit(3); }
    Module& M = *C.M;

    // calls through aliases (complete-object constructors and destructors)
    for (auto& A : M.aliases()) if (auto* F = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) {
        std::vector<CallBase*> cs; for (auto* U : A.users()) if (auto* CB = dyn_cast<CallBase>(U)) if (CB->getCalledOperand() == &A && CB->getFunctionType() == F->getFunctionType()) cs.push_back(CB);
        for (auto* CB : cs) CB->setCalledFunction(F);
    }
    for (auto& F : M) if (F.isDeclaration()) {
        StringRef n = F.getName();
        if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "calloc") F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
        else if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free") F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
    }
    // virtual method names by class identifier: collect from DI
    std::map<std::string, std::map<unsigned, std::string>> slotNames;
    DebugInfoFinder DIF; DIF.processModule(M);
    auto addSP = [&](const DISubprogram* SP) {
        if (!SP || SP->getVirtuality() == 0) return;
        auto* T = dyn_cast_or_null<DICompositeType>(SP->getScope());
        if (!T || T->getIdentifier().empty()) return;
        auto& m = slotNames[T->getIdentifier().str()];
        std::string n = SP->getName().str();
        auto& cur = m[SP->getVirtualIndex()];
        if (cur.empty() || cur[0] == '~') cur = n;
    };
    for (auto* SP : DIF.subprograms()) { addSP(SP); if (SP->getDeclaration()) addSP(SP->getDeclaration()); }
    for (auto* T : DIF.types()) if (auto* CT = dyn_cast<DICompositeType>(T)) for (auto* E : CT->getElements()) if (auto* SP = dyn_cast_or_null<DISubprogram>(E)) addSP(SP);
    // derived -> bases (for slots inherited from a base)
    std::map<std::string, std::vector<std::string>> bases;
    for (auto* T : DIF.types()) if (auto* CT = dyn_cast<DICompositeType>(T)) {
        if (CT->getIdentifier().empty()) continue;
        for (auto* E : CT->getElements()) if (auto* D = dyn_cast_or_null<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_inheritance)
            if (auto* B = dyn_cast_or_null<DICompositeType>(D->getBaseType())) bases[CT->getIdentifier().str()].push_back(B->getIdentifier().str());
    }
    std::function<std::string(const std::string&, unsigned, int)> slotOf = [&](const std::string& id, unsigned slot, int d) -> std::string {
        auto it = slotNames.find(id);
        if (it != slotNames.end()) { auto j = it->second.find(slot); if (j != it->second.end()) return j->second; }
        if (d > 6) return "";
        for (auto& b : bases[id]) { auto s = slotOf(b, slot, d + 1); if (!s.empty()) return s; }
        return "";
    };

    // vtables by type id
    struct VT { GlobalVariable* G; uint64_t off; };
    std::map<std::string, std::vector<VT>> vtables;
    for (auto& G : M.globals()) {
        SmallVector<MDNode*, 4> T; G.getMetadata(LLVMContext::MD_type, T);
        for (auto* N : T) {
            auto* s = dyn_cast<MDString>(N->getOperand(1)); if (!s) continue;
            auto* c = mdconst::dyn_extract<ConstantInt>(N->getOperand(0)); if (!c) continue;
            vtables[s->getString().str()].push_back({&G, c->getZExtValue()});
        }
    }
    auto entryAt = [&](GlobalVariable* G, uint64_t off) -> Function* {
        if (!G->hasInitializer()) return nullptr;
        Constant* c = G->getInitializer();
        const DataLayout& DL = M.getDataLayout();
        while (c) {
            if (auto* s = dyn_cast<ConstantStruct>(c)) {
                auto* SL = DL.getStructLayout(s->getType());
                if (off >= SL->getSizeInBytes()) return nullptr;
                unsigned i = SL->getElementContainingOffset(off); off -= SL->getElementOffset(i); c = s->getOperand(i);
            } else if (auto* a = dyn_cast<ConstantArray>(c)) {
                uint64_t es = DL.getTypeAllocSize(a->getType()->getElementType()); uint64_t i = off / es; off %= es;
                if (i >= a->getNumOperands()) return nullptr; c = a->getOperand(i);
            } else return dyn_cast<Function>(c->stripPointerCastsAndAliases());
        }
        return nullptr;
    };

    // collect type.test based virtual calls
    Function* TT = M.getFunction("llvm.type.test");
    Function* PTT = M.getFunction("llvm.public.type.test");
    std::vector<CallInst*> tests;
    for (Function* t : {TT, PTT}) if (t) for (auto* U : t->users()) if (auto* CI = dyn_cast<CallInst>(U)) tests.push_back(CI);
    std::map<std::pair<std::string, FunctionType*>, Function*> stubs;
    std::vector<Instruction*> dead;
    for (auto* CI : tests) {
        Value* vt = CI->getArgOperand(0);
        auto* id = dyn_cast<MDString>(cast<MetadataAsValue>(CI->getArgOperand(1))->getMetadata());
        if (id) for (auto* U : vt->users()) {
            uint64_t off = 0; Value* slotPtr = nullptr; std::vector<std::pair<LoadInst*, uint64_t>> lds;
            if (auto* G = dyn_cast<GetElementPtrInst>(U)) {
                APInt a(64, 0); if (!G->accumulateConstantOffset(M.getDataLayout(), a)) continue;
                off = a.getZExtValue(); slotPtr = G;
                for (auto* U2 : G->users()) if (auto* L = dyn_cast<LoadInst>(U2)) lds.push_back({L, off});
            } else if (auto* L = dyn_cast<LoadInst>(U)) lds.push_back({L, 0});
            (void)slotPtr;
            for (auto& p : lds) {
                std::vector<CallBase*> cbs;
                for (auto* U3 : p.first->users()) if (auto* CB = dyn_cast<CallBase>(U3)) if (CB->getCalledOperand() == p.first) cbs.push_back(CB);
                for (auto* CB : cbs) {
                    std::string mname = slotOf(id->getString().str(), p.second / 8, 0);
                    std::string cls = classNameFromZTS(C, id->getString());
                    std::string full = cls + "::" + (mname.empty() ? "slot" + std::to_string(p.second / 8) : mname);
                    auto key = std::make_pair(full + "#" + std::to_string(p.second / 8), CB->getFunctionType());
                    Function*& S = stubs[key];
                    if (!S) {
                        S = Function::Create(CB->getFunctionType(), GlobalValue::ExternalLinkage, "vcall." + full + "#" + std::to_string(p.second / 8), &M);
                        C.stubName[S] = full; C.stubSlot[S] = p.second / 8;
                        std::set<Function*> tg;
                        for (auto& v : vtables[id->getString().str()]) if (Function* t = entryAt(v.G, v.off + p.second)) {
                            if (t->getName() == "__cxa_pure_virtual") continue; tg.insert(t);
                        }
                        C.stubTargets[S] = std::vector<Function*>(tg.begin(), tg.end());
                    }
                    CB->setCalledFunction(S);
                }
            }
        }
        for (auto* U : std::vector<User*>(CI->user_begin(), CI->user_end())) if (auto* A = dyn_cast<CallInst>(U)) A->eraseFromParent();
        CI->replaceAllUsesWith(ConstantInt::getTrue(C.llctx));
        dead.push_back(CI);
    }
    for (auto* I : dead) I->eraseFromParent();

    // std::function calls
    for (auto& F : M) {
        if (F.isDeclaration()) continue;
        StringRef n = F.getName();
        if (n.starts_with("_ZNKSt8functionIF")) {
            std::string q = C.dem(n);
            size_t e = q.rfind(">::operator()(");
            if (e == std::string::npos) continue;
            size_t b = q.find("std::function<");
            std::string cls = q.substr(b, e + 1 - b);
            for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (CB->isIndirectCall()) {
                CB->addFnAttr(Attribute::get(C.llctx, "czi.stdfn", cls));
                // invoking a std::function does not modify the target object it holds (no mutable function objects in the library)
                unsigned fa = CB->paramHasAttr(0, Attribute::StructRet) ? 1 : 0;
                CB->addParamAttr(fa, Attribute::NoCapture); CB->addParamAttr(fa, Attribute::ReadOnly);
            }
        } else if (n.starts_with("_ZNSt14_Function_baseD") || n.starts_with("_ZNSt14_Function_baseC") || n.starts_with("_ZNSt8functionIF")) {
            for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (CB->isIndirectCall())
                for (unsigned i = 0; i < CB->arg_size() && i < 2; ++i) if (CB->getArgOperand(i)->getType()->isPointerTy()) {
                    // cloning or destroying a callable touches the two function objects and memory owned by the callable only
                    CB->addParamAttr(i, Attribute::NoCapture); CB->setMemoryEffects(MemoryEffects::argMemOnly() | MemoryEffects::inaccessibleMemOnly());
                }
        } else if (n.starts_with("_ZNSt17_Function_handlerIF") && n.contains("9_M_invoke")) {
            std::string q = C.dem(n);
            const std::string pre = "std::_Function_handler<";
            size_t b = q.find(pre); if (b == std::string::npos) continue; b += pre.size();
            // signature up to the top-level comma
            int d = 0; size_t i = b;
            for (; i < q.size(); ++i) { char c = q[i]; if (c == '(' || c == '<') d++; else if (c == ')' || c == '>') d--; else if (c == ',' && d == 0) break; }
            C.fnInvokers["std::function<" + q.substr(b, i - b) + ">"].push_back(&F);
        }
    }

    for (auto& F : M) for (auto it = inst_begin(F), e = inst_end(F); it != e;) { Instruction* I = &*it++; if (isa<DbgInfoIntrinsic>(I)) I->eraseFromParent(); }

    // stream stubs: buffer arguments do not escape, and an implementation does not touch the library's own objects
    for (auto& kv : C.stubName) {
        Function* S = kv.first; const std::string& n = kv.second;
        if (n == "libCZI::IStream::Read" || n == "libCZI::IInputOutputStream::Read" || n == "libCZI::IOutputStream::Write" || n == "libCZI::IInputOutputStream::Write") {
            for (unsigned i = 0; i < S->arg_size(); ++i) if (S->getArg(i)->getType()->isPointerTy() && i > 0) S->addParamAttr(i, Attribute::NoCapture);
            S->setMemoryEffects(MemoryEffects::argMemOnly(ModRefInfo::ModRef) | MemoryEffects::inaccessibleMemOnly(ModRefInfo::ModRef));
        }
    }
    if (verifyModule(M, &errs())) { errs() << "module broken after stubbing\n"; exit(3); }
}

// ---------------------------------------------------------------- never returns
static bool neverReturnsRec(Ctx& C, Function* F, std::set<Function*>& onStack) {
    auto it = C.noReturnCache.find(F);
    if (it != C.noReturnCache.end()) return it->second;
    if (F->doesNotReturn()) return C.noReturnCache[F] = true;
    if (F->isDeclaration()) {
        return C.noReturnCache[F] = false;
    }
    if (!onStack.insert(F).second) return false;
    // reachable ret?
    std::set<BasicBlock*> seen; std::vector<BasicBlock*> w{&F->getEntryBlock()}; bool ret = false;
    while (!w.empty() && !ret) {
        BasicBlock* B = w.back(); w.pop_back(); if (!seen.insert(B).second) continue;
        bool stop = false;
        for (auto& I : *B) if (auto* CI = dyn_cast<CallInst>(&I)) { Function* T = calledFn(CI); if (CI->doesNotReturn() || (T && T != F && neverReturnsRec(C, T, onStack))) { stop = true; break; } }
        if (stop) continue;
        if (isa<ReturnInst>(B->getTerminator())) { ret = true; break; }
        if (auto* II = dyn_cast<InvokeInst>(B->getTerminator())) {
            Function* T = calledFn(II);
            if (!(II->doesNotReturn() || (T && T != F && neverReturnsRec(C, T, onStack)))) w.push_back(II->getNormalDest());
            w.push_back(II->getUnwindDest());
            continue;
        }
        for (auto* S : successors(B)) w.push_back(S);
    }
    onStack.erase(F);
    return C.noReturnCache[F] = !ret;
}
bool neverReturns(Ctx& C, Function* F) { std::set<Function*> s; return neverReturnsRec(C, F, s); }
bool callNeverReturns(Ctx& C, const CallBase* CB) {
    if (CB->doesNotReturn()) return true;
    Function* F = calledFn(CB);
    return F && !C.stubName.count(F) && neverReturns(C, F);
}

// ---------------------------------------------------------------- transformations
namespace {
struct PM {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PM() { PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); }
};
PM& pm() { static PM* p = new PM(); return *p; }
}
void simplifyFunction(Function& F, bool ic, bool gvn) {
    FunctionPassManager FPM;
    SimplifyCFGOptions so; so.bonusInstThreshold(0).sinkCommonInsts(false).hoistCommonInsts(false).convertSwitchToLookupTable(false).forwardSwitchCondToPhi(false).convertSwitchRangeToICmp(false).setSimplifyCondBranch(true).speculateBlocks(false);
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(EarlyCSEPass(true));
    if (ic) FPM.addPass(InstCombinePass()); else FPM.addPass(InstSimplifyPass());
    FPM.addPass(SCCPPass());
    FPM.addPass(SimplifyCFGPass(so));
    if (gvn) {
        FPM.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false)));
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(InstSimplifyPass());
        FPM.addPass(SCCPPass());
        FPM.addPass(SimplifyCFGPass(so));
    }
    pm().FAM.invalidate(F, PreservedAnalyses::none());
    FPM.run(F, pm().FAM);
    pm().FAM.clear(F, F.getName());
}

void dropDeadStores(Function& F) {
    FunctionPassManager FPM; FPM.addPass(DSEPass()); FPM.addPass(ADCEPass());
    pm().FAM.invalidate(F, PreservedAnalyses::none()); FPM.run(F, pm().FAM); pm().FAM.clear(F, F.getName());
}
// Loads of a field of a local object are merged when every write to the object either precedes all of them or starts behind the field
// (a stream read into the tail of a header structure does not change the fields before it).
static bool forwardFieldLoads(Function& F) {
    const DataLayout& DL = F.getParent()->getDataLayout();
    DominatorTree DT(F); bool any = false;
    std::vector<AllocaInst*> as; for (auto& I : instructions(F)) if (auto* A = dyn_cast<AllocaInst>(&I)) as.push_back(A);
    for (auto* A : as) {
        std::map<std::pair<uint64_t, Type*>, std::vector<LoadInst*>> loads;
        struct W { Instruction* I; bool known; uint64_t off; }; std::vector<W> writes; bool esc = false;
        std::vector<std::tuple<Value*, bool, uint64_t>> w{{A, true, 0}}; std::set<Value*> seen;
        while (!w.empty() && !esc) {
            auto [V, kn, off] = w.back(); w.pop_back(); if (!seen.insert(V).second) continue;
            for (auto* U : V->users()) {
                auto* I = cast<Instruction>(U);
                if (auto* G = dyn_cast<GetElementPtrInst>(I)) { APInt k(64, 0); bool c = G->accumulateConstantOffset(DL, k); 
                    // variable index: at least non-negative is not known -> lower bound is the offset of V only for array fields
                    w.push_back({G, kn && c, off + (c ? k.getZExtValue() : 0)}); }
                else if (isa<BitCastInst>(I)) w.push_back({I, kn, off});
                else if (auto* L = dyn_cast<LoadInst>(I)) { if (kn && !L->isVolatile()) loads[{off, L->getType()}].push_back(L); }
                else if (auto* S = dyn_cast<StoreInst>(I)) { if (S->getValueOperand() == V) esc = true; else writes.push_back({S, kn, off}); }
                else if (auto* CB = dyn_cast<CallBase>(I)) {
                    if (isa<DbgInfoIntrinsic>(CB) || CB->isLifetimeStartOrEnd()) continue;
                    if (auto* MT = dyn_cast<MemTransferInst>(CB)) { if (MT->getRawDest() == V) writes.push_back({CB, kn, off}); continue; }
                    bool onlyRead = true, cap = false;
                    for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->getArgOperand(i) == V) { if (!CB->onlyReadsMemory(i) && !CB->onlyReadsMemory()) onlyRead = false; if (!CB->doesNotCapture(i)) cap = true; }
                    if (cap && !onlyRead) { esc = true; break; }
                    if (!onlyRead) writes.push_back({CB, kn, off});
                } else if (isa<ICmpInst>(I)) continue;
                else if (isa<PHINode>(I) || isa<SelectInst>(I)) w.push_back({I, false, 0});
                else esc = true;
            }
        }
        if (esc) continue;
        for (auto& kv : loads) {
            if (kv.second.size() < 2) continue; uint64_t b = kv.first.first, e = b + DL.getTypeStoreSize(kv.first.second);
            LoadInst* E = nullptr;
            for (auto* L : kv.second) { bool all = true; for (auto* M : kv.second) if (M != L && !DT.dominates(L, M)) all = false; if (all) E = L; }
            if (!E) continue;
            bool ok = true;
            for (auto& x : writes) { if (x.known && x.off >= e) continue; if (auto* S = dyn_cast<StoreInst>(x.I)) if (x.known && x.off + DL.getTypeStoreSize(S->getValueOperand()->getType()) <= b) continue; if (!DT.dominates(x.I, E)) { ok = false; break; } }
            if (!ok) continue;
            for (auto* L : kv.second) if (L != E) { L->replaceAllUsesWith(E); any = true; }
        }
    }
    return any;
}

// loads of memory that was filled by a copy are taken from the source of the copy; wide loads over narrower stores are split
bool forwardMem(Function& F) {
    auto& FAM = pm().FAM; FAM.invalidate(F, PreservedAnalyses::none());
    auto& MS = FAM.getResult<MemorySSAAnalysis>(F).getMSSA(); auto* W = MS.getWalker(); const DataLayout& DL = F.getParent()->getDataLayout();
    struct Job { LoadInst* L; MemTransferInst* M; int64_t delta; }; std::vector<Job> jobs; std::vector<LoadInst*> split;
    for (auto& I : instructions(F)) {
        auto* L = dyn_cast<LoadInst>(&I); if (!L || !L->isSimple()) continue;
        auto* MU = MS.getMemoryAccess(L); if (!MU) continue;
        auto* D = dyn_cast<MemoryDef>(W->getClobberingMemoryAccess(MU)); if (!D || !D->getMemoryInst()) continue;
        uint64_t sz = DL.getTypeStoreSize(L->getType());
        if (auto* M = dyn_cast<MemTransferInst>(D->getMemoryInst())) {
            auto* len = dyn_cast<ConstantInt>(M->getLength()); if (!len || M->isVolatile()) continue;
            int64_t o1 = 0, o2 = 0; Value* b1 = GetPointerBaseWithConstantOffset(L->getPointerOperand(), o1, DL); Value* b2 = GetPointerBaseWithConstantOffset(M->getRawDest(), o2, DL);
            if (b1 != b2 || o1 < o2 || o1 + (int64_t)sz > o2 + (int64_t)len->getZExtValue()) continue;
            jobs.push_back({L, M, o1 - o2});
        } else if (auto* S = dyn_cast<StoreInst>(D->getMemoryInst())) {
            if (!L->getType()->isIntegerTy() || sz < 2 || sz > 8 || (sz & (sz - 1))) continue;
            if (DL.getTypeStoreSize(S->getValueOperand()->getType()) < sz) split.push_back(L);
        }
    }
    for (auto& j : jobs) {
        IRBuilder<> B(j.M); Value* p = j.M->getRawSource(); if (j.delta) p = B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), p, j.delta);
        auto* N = B.CreateAlignedLoad(j.L->getType(), p, Align(1)); j.L->replaceAllUsesWith(N); j.L->eraseFromParent();
    }
    for (auto* L : split) {
        IRBuilder<> B(L); unsigned w = L->getType()->getIntegerBitWidth(); Type* H = B.getIntNTy(w / 2); Value* p = L->getPointerOperand();
        Value* lo = B.CreateAlignedLoad(H, p, Align(1)); Value* hi = B.CreateAlignedLoad(H, B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), p, w / 16), Align(1));
        Value* v = B.CreateOr(B.CreateZExt(lo, L->getType()), B.CreateShl(B.CreateZExt(hi, L->getType()), w / 2)); L->replaceAllUsesWith(v); L->eraseFromParent();
    }
    FAM.invalidate(F, PreservedAnalyses::none()); FAM.clear(F, F.getName());
    return !jobs.empty() || !split.empty();
}
// witnesses are analysed as sequential programs
static void plainMemory(Function& F) {
    for (auto& I : instructions(F)) { if (auto* L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) L->setAtomic(AtomicOrdering::NotAtomic); } else if (auto* S = dyn_cast<StoreInst>(&I)) if (S->isAtomic()) S->setAtomic(AtomicOrdering::NotAtomic); }
    // shared_ptr release: the test of both counters at once is only a shortcut of the general path
    for (auto& I : instructions(F)) if (auto* C = dyn_cast<ICmpInst>(&I)) if (auto* k = dyn_cast<ConstantInt>(C->getOperand(1))) if (k->getBitWidth() == 64 && k->getZExtValue() == 0x100000001ull && isa<LoadInst>(C->getOperand(0)) && C->getPredicate() == ICmpInst::ICMP_EQ) C->replaceAllUsesWith(ConstantInt::getFalse(C->getType()));
    std::vector<IntrinsicInst*> ex; for (auto& I : instructions(F)) if (auto* II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::expect) ex.push_back(II);
    for (auto* II : ex) { II->replaceAllUsesWith(II->getArgOperand(0)); II->eraseFromParent(); }
}
static void unstub(Ctx& C, Function& F) {
    plainMemory(F);
    std::vector<CallBase*> cs;
    for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (Function* T = calledFn(CB)) if (C.stubSlot.count(T)) cs.push_back(CB);
    for (auto* CB : cs) {
        unsigned self = CB->hasStructRetAttr() && CB->paramHasAttr(0, Attribute::StructRet) ? 1 : 0; if (CB->arg_size() <= self) continue;
        IRBuilder<> B(CB); Type* P = B.getPtrTy(); unsigned slot = C.stubSlot[calledFn(CB)];
        auto* vt = B.CreateLoad(P, CB->getArgOperand(self), "vt"); auto* fn = B.CreateLoad(P, B.CreateConstInBoundsGEP1_64(P, vt, slot), "vfn");
        CB->setCalledOperand(fn);
    }
}
// comparison of a few bytes, used for equality only
static void expandCompares(Function& F) {
    std::vector<CallBase*> cs;
    for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallInst>(&I)) if (Function* T = calledFn(CB)) if ((T->getName() == "bcmp" || T->getName() == "memcmp") && CB->arg_size() == 3) {
        auto* n = dyn_cast<ConstantInt>(CB->getArgOperand(2)); if (!n || n->getZExtValue() > 64) continue;
        bool eq = true; for (auto* U : CB->users()) { auto* C = dyn_cast<ICmpInst>(U); auto* z = C ? dyn_cast<ConstantInt>(C->getOperand(1)) : nullptr; if (!C || !C->isEquality() || !z || !z->isZero()) eq = false; }
        if (eq) cs.push_back(CB);
    }
    for (auto* CB : cs) {
        IRBuilder<> B(CB); Value* r = B.getInt8(0);
        for (uint64_t i = 0; i < cast<ConstantInt>(CB->getArgOperand(2))->getZExtValue(); ++i) {
            Value* a = B.CreateAlignedLoad(B.getInt8Ty(), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), CB->getArgOperand(0), i), Align(1)); Value* b = B.CreateAlignedLoad(B.getInt8Ty(), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), CB->getArgOperand(1), i), Align(1));
            r = B.CreateOr(r, B.CreateXor(a, b));
        }
        CB->replaceAllUsesWith(B.CreateZExt(r, CB->getType())); CB->eraseFromParent();
    }
}
void prepareClone(Ctx& C, Function& F) {
    for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* A = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) if (auto* T = dyn_cast<Function>(A->getAliaseeObject())) CB->setCalledOperand(T);
    unstub(C, F); expandCompares(F);
}
Function* deepClone(Ctx& C, Function* F, const InlineOpts& o, bool* truncated) {
    ValueToValueMapTy vm;
    Function* N = CloneFunction(F, vm);
    N->setName("deep." + F->getName());
    N->setLinkage(GlobalValue::ExternalLinkage);
    N->setComdat(nullptr);
    N->addFnAttr("czi-clone");
    if (o.devirt) unstub(C, *N);
    simplifyFunction(*N, o.instCombine);
    bool trunc = false;
    // history of inlining per call instruction to stop recursion
    std::map<CallBase*, std::vector<Function*>> hist;
    for (int round = 0; round < (o.devirt ? 16 : 8); ++round) {
        std::vector<CallBase*> work;
        for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) work.push_back(CB);
        bool any = false;
        while (!work.empty()) {
            CallBase* CB = work.back(); work.pop_back();
            Function* T = calledFn(CB);
            if (!T || T->isDeclaration() || T->isIntrinsic()) continue;
            if (T == F || T == N) continue;
            auto& h = hist[CB];
            if (std::find(h.begin(), h.end(), T) != h.end()) continue;
            if ((int)h.size() > o.maxDepth) { trunc = true; continue; }
            if (T->getInstructionCount() > o.maxCallee) { trunc = true; continue; }
            if (T->isVarArg()) continue;
            if (neverReturns(C, T)) continue;
            if (o.allow && !o.allow(T, (int)h.size())) continue;
            if (N->getInstructionCount() > o.maxTotal) { trunc = true; continue; }
            if (CB->getFunctionType() != T->getFunctionType()) continue;
            if (CB->hasFnAttr(Attribute::NoInline)) CB->removeFnAttr(Attribute::NoInline);
            std::vector<Function*> nh = h; nh.push_back(T);
            hist.erase(CB);
            InlineFunctionInfo IFI;
            auto res = InlineFunction(*CB, IFI, false, nullptr, false);
            if (!res.isSuccess()) continue;
            any = true;
            for (auto* NC : IFI.InlinedCallSites) { hist[NC] = nh; work.push_back(NC); }
        }
        if (o.devirt) unstub(C, *N);
        simplifyFunction(*N, o.instCombine);
        if (o.devirt) for (int k = 0; k < 4 && forwardMem(*N); ++k) simplifyFunction(*N, o.instCombine);
        // drop history of erased calls
        std::set<CallBase*> alive; for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) alive.insert(CB);
        for (auto it = hist.begin(); it != hist.end();) if (!alive.count(it->first)) it = hist.erase(it); else ++it;
        if (!any) break;
    }
    if (forwardFieldLoads(*N)) simplifyFunction(*N, o.instCombine);
    if (truncated) *truncated = trunc;
    return N;
}

// ---------------------------------------------------------------- facts
void decompose(Value* cond, bool truth, Instruction* at, std::vector<Fact>& out) {
    out.push_back({cond, truth, at});
    if (auto* BO = dyn_cast<BinaryOperator>(cond)) {
        if (BO->getOpcode() == Instruction::And && truth) { decompose(BO->getOperand(0), true, at, out); decompose(BO->getOperand(1), true, at, out); }
        else if (BO->getOpcode() == Instruction::Or && !truth) { decompose(BO->getOperand(0), false, at, out); decompose(BO->getOperand(1), false, at, out); }
        else if (BO->getOpcode() == Instruction::Xor) if (auto* c = dyn_cast<ConstantInt>(BO->getOperand(1))) if (c->isOne()) decompose(BO->getOperand(0), !truth, at, out);
    } else if (auto* S = dyn_cast<SelectInst>(cond)) {
        auto* t = dyn_cast<ConstantInt>(S->getTrueValue()); auto* f = dyn_cast<ConstantInt>(S->getFalseValue());
        if (f && f->isZero() && truth) { decompose(S->getCondition(), true, at, out); decompose(S->getTrueValue(), true, at, out); }
        if (t && t->isOne() && !truth) { decompose(S->getCondition(), false, at, out); decompose(S->getFalseValue(), false, at, out); }
        if (t && f && t->isZero() && f->isOne()) decompose(S->getCondition(), !truth, at, out);
    } else if (auto* CI = dyn_cast<ICmpInst>(cond)) {
        // (zext i1 x) ==/!= 0/1
        if (CI->isEquality()) if (auto* k = dyn_cast<ConstantInt>(CI->getOperand(1))) {
            Value* x = CI->getOperand(0);
            if (auto* Z = dyn_cast<ZExtInst>(x)) x = Z->getOperand(0);
            if (auto* T = dyn_cast<TruncInst>(x)) { if (auto* Z2 = dyn_cast<ZExtInst>(T->getOperand(0))) x = Z2->getOperand(0); }
            if (x->getType()->isIntegerTy(1) && (k->isZero() || k->isOne())) {
                bool eq = CI->getPredicate() == ICmpInst::ICMP_EQ;
                bool val = (k->isOne() == eq) == truth;
                decompose(x, val, at, out);
            }
        }
        if (CI->isEquality()) if (auto* k = dyn_cast<Constant>(CI->getOperand(1))) if (k->isNullValue() && k->getType()->isPointerTy()) if (auto* P = dyn_cast<PHINode>(CI->getOperand(0))) {
            bool isNull = (CI->getPredicate() == ICmpInst::ICMP_EQ) == truth;
            // incoming edges which contradict
            std::vector<unsigned> rest;
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                Value* in = P->getIncomingValue(i);
                bool knownNull = isa<ConstantPointerNull>(in), knownNonNull = false;
                BasicBlock* cur = P->getIncomingBlock(i); BasicBlock* to = P->getParent(); int g = 0;
                while (cur && g++ < 6 && !knownNonNull) {
                    if (auto* B = dyn_cast<BranchInst>(cur->getTerminator())) if (B->isConditional() && B->getSuccessor(0) != B->getSuccessor(1)) if (auto* c2 = dyn_cast<ICmpInst>(B->getCondition()))
                        if (c2->isEquality() && c2->getOperand(0) == in && isa<ConstantPointerNull>(c2->getOperand(1))) knownNonNull = (c2->getPredicate() == ICmpInst::ICMP_NE) == (B->getSuccessor(0) == to);
                    to = cur; cur = cur->getSinglePredecessor();
                }
                if (isNull ? knownNonNull : knownNull) continue;
                rest.push_back(i);
            }
            if (rest.size() == 1) {
                BasicBlock* cur = P->getIncomingBlock(rest[0]); BasicBlock* to = P->getParent(); int g = 0;
                while (cur && g++ < 8) { factsAtEdge(cur, to, out); to = cur; cur = cur->getSinglePredecessor(); }
            }
        }
    } else if (auto* P = dyn_cast<PHINode>(cond)) {
        // phi of i1 constants and one non-constant: short-circuit evaluation
        // if all incoming but one are the constant !truth, then the remaining value is 'truth' and that edge was taken
        Value* rest = nullptr; BasicBlock* rb = nullptr; int n = 0;
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
            auto* c = dyn_cast<ConstantInt>(P->getIncomingValue(i));
            if (c && (c->isOne() != truth)) continue;
            rest = P->getIncomingValue(i); rb = P->getIncomingBlock(i); n++;
        }
        if (n == 1 && rest) {
            if (!isa<ConstantInt>(rest)) decompose(rest, truth, at, out);
            // control facts: rb was executed
            BasicBlock* cur = rb; int guard = 0;
            BasicBlock* to = P->getParent();
            while (cur && guard++ < 8) {
                factsAtEdge(cur, to, out);
                to = cur; cur = cur->getSinglePredecessor();
            }
        }
    } else if (auto* T = dyn_cast<TruncInst>(cond)) {
        if (auto* Z = dyn_cast<ZExtInst>(T->getOperand(0))) if (Z->getOperand(0)->getType()->isIntegerTy(1)) decompose(Z->getOperand(0), truth, at, out);
        if (auto* P = dyn_cast<PHINode>(T->getOperand(0))) {
            Value* rest = nullptr; BasicBlock* rb = nullptr; int n = 0;
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                auto* c = dyn_cast<ConstantInt>(P->getIncomingValue(i));
                if (c && (c->isOne() != truth)) continue;
                rest = P->getIncomingValue(i); rb = P->getIncomingBlock(i); n++;
            }
            if (n == 1 && rest) {
                if (auto* Z = dyn_cast<ZExtInst>(rest)) if (Z->getOperand(0)->getType()->isIntegerTy(1)) decompose(Z->getOperand(0), truth, at, out);
                BasicBlock* cur = rb; int guard = 0; BasicBlock* to = P->getParent();
                while (cur && guard++ < 8) { factsAtEdge(cur, to, out); to = cur; cur = cur->getSinglePredecessor(); }
            }
        }
    }
}

void factsAtEdge(BasicBlock* From, BasicBlock* To, std::vector<Fact>& out) {
    auto* T = From->getTerminator();
    if (auto* B = dyn_cast<BranchInst>(T)) {
        if (B->isConditional() && B->getSuccessor(0) != B->getSuccessor(1)) decompose(B->getCondition(), B->getSuccessor(0) == To, B, out);
    } else if (auto* S = dyn_cast<SwitchInst>(T)) {
        // single case value?
        ConstantInt* v = nullptr; int n = 0;
        for (auto& c : S->cases()) if (c.getCaseSuccessor() == To) { v = c.getCaseValue(); n++; }
        if (n == 1 && S->getDefaultDest() != To) {
            // represent as icmp eq: only used through switchFacts
            out.push_back({S->getCondition(), true, S});
        }
        (void)v;
    }
}

std::map<BasicBlock*, std::vector<Fact>>* gFactCache = nullptr;   // set while a function is not being changed
static std::vector<Fact> dominatingFacts0(DominatorTree& DT, BasicBlock* BB);
std::vector<Fact> dominatingFacts(DominatorTree& DT, BasicBlock* BB) {
    if (!gFactCache) return dominatingFacts0(DT, BB);
    auto it = gFactCache->find(BB); if (it != gFactCache->end()) return it->second;
    return (*gFactCache)[BB] = dominatingFacts0(DT, BB);
}
static void dominatingFactsCached(DominatorTree& DT, BasicBlock* BB) { if (!gFactCache->count(BB)) (*gFactCache)[BB] = dominatingFacts0(DT, BB); }
static std::vector<Fact> dominatingFacts0(DominatorTree& DT, BasicBlock* BB) {
    std::vector<Fact> out;
    auto* N = DT.getNode(BB);
    while (N && N->getIDom()) {
        BasicBlock* D = N->getIDom()->getBlock();
        for (auto* S : successors(D)) {
            BasicBlockEdge E(D, S);
            if (DT.dominates(E, BB)) { factsAtEdge(D, S, out); }
        }
        N = N->getIDom();
    }
    return out;
}

Value* stripCasts(Value* V) {
    while (true) {
        if (auto* Z = dyn_cast<ZExtInst>(V)) V = Z->getOperand(0);
        else if (auto* S = dyn_cast<SExtInst>(V)) V = S->getOperand(0);
        else if (auto* T = dyn_cast<TruncInst>(V)) V = T->getOperand(0);
        else if (auto* F = dyn_cast<FreezeInst>(V)) V = F->getOperand(0);
        else return V;
    }
}
Value* stripPtr(Value* V) {
    while (true) {
        if (auto* G = dyn_cast<GEPOperator>(V)) V = G->getPointerOperand();
        else if (auto* B = dyn_cast<BitCastOperator>(V)) V = B->getOperand(0);
        else return V;
    }
}
bool sameValue(Value* A, Value* B, int depth) {
    if (A == B) return true;
    A = stripCasts(A); B = stripCasts(B);
    if (A == B) return true;
    if (depth > 8) return false;
    if (auto* ca = dyn_cast<ConstantInt>(A)) if (auto* cb = dyn_cast<ConstantInt>(B)) return ca->getSExtValue() == cb->getSExtValue();
    auto* IA = dyn_cast<Instruction>(A); auto* IB = dyn_cast<Instruction>(B);
    if (!IA || !IB || IA->getOpcode() != IB->getOpcode()) return false;
    if (isa<BinaryOperator>(IA) || isa<GetElementPtrInst>(IA)) {
        if (IA->getNumOperands() != IB->getNumOperands()) return false;
        bool e = true;
        for (unsigned i = 0; i < IA->getNumOperands(); ++i) if (!sameValue(IA->getOperand(i), IB->getOperand(i), depth + 1)) { e = false; break; }
        if (e) return true;
        if (IA->isCommutative() && IA->getNumOperands() == 2) return sameValue(IA->getOperand(0), IB->getOperand(1), depth + 1) && sameValue(IA->getOperand(1), IB->getOperand(0), depth + 1);
        return false;
    }
    if (auto* LA = dyn_cast<LoadInst>(IA)) { auto* LB = cast<LoadInst>(IB); return LA->getType() == LB->getType() && sameValue(LA->getPointerOperand(), LB->getPointerOperand(), depth + 1); }
    return false;
}

static ConstantRange rangeAt0(Value* V, BasicBlock* BB, DominatorTree& DT, int depth);
static std::map<std::tuple<Value*, BasicBlock*, int>, ConstantRange> rangeMemo;
void setFactCache(std::map<BasicBlock*, std::vector<Fact>>* c) { gFactCache = c; rangeMemo.clear(); }
ConstantRange rangeAt(Value* V, BasicBlock* BB, DominatorTree& DT, int depth) {
    if (!gFactCache || isa<ConstantInt>(V)) return rangeAt0(V, BB, DT, depth);
    auto k = std::make_tuple(V, BB, depth); auto it = rangeMemo.find(k); if (it != rangeMemo.end()) return it->second;
    auto r = rangeAt0(V, BB, DT, depth); rangeMemo.insert({k, r}); return r;
}
static ConstantRange rangeAt0(Value* V, BasicBlock* BB, DominatorTree& DT, int depth) {
    unsigned W = V->getType()->getIntegerBitWidth();
    if (auto* c = dyn_cast<ConstantInt>(V)) return ConstantRange(c->getValue());
    ConstantRange R = ConstantRange::getFull(W);
    if (depth < 10) {
        if (auto* Z = dyn_cast<ZExtInst>(V)) R = rangeAt(Z->getOperand(0), BB, DT, depth + 1).zeroExtend(W);
        else if (auto* S = dyn_cast<SExtInst>(V)) R = rangeAt(S->getOperand(0), BB, DT, depth + 1).signExtend(W);
        else if (auto* T = dyn_cast<TruncInst>(V)) R = rangeAt(T->getOperand(0), BB, DT, depth + 1).truncate(W);
        else if (auto* BO = dyn_cast<BinaryOperator>(V)) {
            auto a = rangeAt(BO->getOperand(0), BB, DT, depth + 1), b = rangeAt(BO->getOperand(1), BB, DT, depth + 1);
            R = a.binaryOp(BO->getOpcode(), b);
        } else if (auto* S = dyn_cast<SelectInst>(V)) R = rangeAt(S->getTrueValue(), BB, DT, depth + 1).unionWith(rangeAt(S->getFalseValue(), BB, DT, depth + 1));
        else if (auto* P = dyn_cast<PHINode>(V)) {
            bool first = true; ConstantRange u = ConstantRange::getEmpty(W); bool ind = false;
            // induction variable: constant start, increments by a positive constant without signed wrap
            if (P->getNumIncomingValues() == 2) for (int k = 0; k < 2 && !ind; ++k) {
                auto* st = dyn_cast<ConstantInt>(P->getIncomingValue(k)); auto* in = dyn_cast<BinaryOperator>(P->getIncomingValue(1 - k));
                if (st && in && in->getOpcode() == Instruction::Add && in->getOperand(0) == P) if (auto* step = dyn_cast<ConstantInt>(in->getOperand(1))) if (step->getValue().isStrictlyPositive() && in->hasNoSignedWrap()) {
                    R = ConstantRange::getNonEmpty(st->getValue(), APInt::getSignedMinValue(W)); ind = true;
                }
            }
            if (!ind && depth < 4) { for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) { if (P->getIncomingValue(i) == P) continue; auto r = rangeAt(P->getIncomingValue(i), P->getIncomingBlock(i), DT, depth + 3); u = first ? r : u.unionWith(r); first = false; } if (!first) R = u; }
        } else if (auto* II = dyn_cast<IntrinsicInst>(V)) {
            if (ConstantRange::isIntrinsicSupported(II->getIntrinsicID())) {
                SmallVector<ConstantRange, 3> ops; for (auto& A : II->args()) ops.push_back(A->getType()->isIntegerTy() ? rangeAt(A, BB, DT, depth + 1) : ConstantRange::getFull(W));
                R = ConstantRange::intrinsic(II->getIntrinsicID(), ops);
            }
        }
    }
    std::vector<Fact> tmp; if (!gFactCache) tmp = dominatingFacts(DT, BB); else dominatingFactsCached(DT, BB);
    for (auto& f : gFactCache ? (*gFactCache)[BB] : tmp) {
        auto* CI = dyn_cast<ICmpInst>(f.cond); if (!CI || !CI->getOperand(0)->getType()->isIntegerTy()) continue;
        for (int side = 0; side < 2; ++side) {
            Value* X = CI->getOperand(side); Value* Kv = CI->getOperand(1 - side); auto* K = dyn_cast<ConstantInt>(Kv);
            auto pred = side ? CI->getSwappedPredicate() : CI->getPredicate();
            if (!f.truth) pred = CmpInst::getInversePredicate(pred);
            if (!K && (depth > 3 || (stripCasts(X) != V && X != V))) continue;
            auto allowed = ConstantRange::makeAllowedICmpRegion(pred, K ? ConstantRange(K->getValue()) : rangeAt(Kv, BB, DT, depth + 4));
            if (X == V) R = R.intersectWith(allowed);
            else if (auto* Z = dyn_cast<ZExtInst>(X)) { if (Z->getOperand(0) == V) R = R.intersectWith(allowed.intersectWith(ConstantRange::getFull(W).zeroExtend(allowed.getBitWidth())).truncate(W)); }
            else if (auto* S = dyn_cast<SExtInst>(X)) { if (S->getOperand(0) == V) R = R.intersectWith(allowed.intersectWith(ConstantRange::getFull(W).signExtend(allowed.getBitWidth())).truncate(W)); }
            else if (auto* BO = dyn_cast<BinaryOperator>(X)) {
                // (V + k) pred K
                if (BO->getOpcode() == Instruction::Or) {   // (a | b | ...) <= K bounds each operand
                    std::vector<Value*> w{BO}; bool in = false; int g = 0;
                    while (!w.empty() && g++ < 16) { Value* x = w.back(); w.pop_back(); if (x == V) { in = true; break; } if (auto* o = dyn_cast<BinaryOperator>(x)) if (o->getOpcode() == Instruction::Or) { w.push_back(o->getOperand(0)); w.push_back(o->getOperand(1)); } }
                    if (in && !allowed.isEmptySet()) R = R.intersectWith(ConstantRange::getNonEmpty(APInt(W, 0), allowed.getUnsignedMax() + 1));
                }
                if (BO->getOpcode() == Instruction::Add && BO->getOperand(0) == V) if (auto* k2 = dyn_cast<ConstantInt>(BO->getOperand(1))) R = R.intersectWith(allowed.subtract(k2->getValue()));
            }
        }
    }
    return R;
}

std::set<BasicBlock*> reachableFrom(BasicBlock* Start, const EdgeSet& cut) {
    std::set<BasicBlock*> seen; std::vector<BasicBlock*> w{Start};
    while (!w.empty()) {
        auto* B = w.back(); w.pop_back(); if (!seen.insert(B).second) continue;
        for (auto* S : successors(B)) if (!cut.count({B, S})) w.push_back(S);
    }
    return seen;
}

Lin linOf(Value* V, int depth) {
    Lin r; V = stripCasts(V);
    if (auto* c = dyn_cast<ConstantInt>(V)) { r.c = c->getSExtValue(); return r; }
    if (depth < 20) if (auto* B = dyn_cast<BinaryOperator>(V)) {
        if (B->getOpcode() == Instruction::Add) { r.add(linOf(B->getOperand(0), depth + 1), 1); r.add(linOf(B->getOperand(1), depth + 1), 1); return r; }
        if (B->getOpcode() == Instruction::Sub) { r.add(linOf(B->getOperand(0), depth + 1), 1); r.add(linOf(B->getOperand(1), depth + 1), -1); return r; }
        if (auto* k = dyn_cast<ConstantInt>(B->getOperand(1))) {
            if (B->getOpcode() == Instruction::Mul) { r.add(linOf(B->getOperand(0), depth + 1), k->getSExtValue()); return r; }
            if (B->getOpcode() == Instruction::Shl && k->getZExtValue() < 62) { r.add(linOf(B->getOperand(0), depth + 1), (int64_t)1 << k->getZExtValue()); return r; }
        }
    }
    r.t.push_back({V, 1}); return r;
}
std::string str(Value* V) { std::string s; raw_string_ostream os(s); V->print(os); return os.str(); }
