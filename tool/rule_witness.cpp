#include "llvm/IR/InlineAsm.h"
#include "core.h"
#include <chrono>
#include <csignal>
#include <poll.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "llvm/Transforms/Utils/LowerAtomic.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/DebugInfo.h"
// Witness rules: every function W_<ID>_* (from witness/*.cpp) is specialised by inlining the library's code and constant propagation.
// No reachable marker -> discharged; marker executed on every path -> violation; otherwise undecided.
static void strongSimplify(Function& F) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto FPM = PB.buildFunctionSimplificationPipeline(OptimizationLevel::O3, ThinOrFullLTOPhase::None);
    FPM.run(F, FAM);
}
// peel one iteration off every innermost loop, so that constants can flow into it
static bool peelOnce(Function& F) {
    TargetLibraryInfoImpl TLII(Triple(F.getParent()->getTargetTriple())); TargetLibraryInfo TLI(TLII);
    DominatorTree DT(F); LoopInfo LI(DT); AssumptionCache AC(F); ScalarEvolution SE(F, TLI, AC, DT, LI);
    bool any = false;
    for (auto* L : LI) { simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false); }
    std::vector<Loop*> ls(LI.begin(), LI.end());
    for (auto* L : ls) { formLCSSARecursively(*L, DT, &LI, &SE); if (!canPeel(L)) continue; ValueToValueMapTy VM; any |= peelLoop(L, 1, &LI, &SE, DT, &AC, true, VM); }
    return any;
}
// ---- decide comparisons by difference bounds: value = sum of unsigned leaves, rounding down ("and" with a high mask) = x - r with 0 <= r <= mask
namespace {
typedef __int128 I128;
struct Form { I128 c = 0; std::map<Value*, I128> t; std::map<Value*, I128> round;   // round: and-instruction -> coefficient of its r
    void add(const Form& o, I128 k) { c += k * o.c; for (auto& p : o.t) if (!(t[p.first] += k * p.second)) t.erase(p.first); for (auto& p : o.round) if (!(round[p.first] += k * p.second)) round.erase(p.first); } };
struct DiffFold {
    DominatorTree DT; BasicBlock* BB; bool S = false;   // S: values are read as signed numbers
    typedef std::tuple<Value*, BasicBlock*, bool> Key;
    std::map<std::pair<Value*, BasicBlock*>, ConstantRange> memo;
    std::map<BasicBlock*, std::vector<Fact>> fc;
    DiffFold(Function& F) : DT(F), BB(nullptr) { setFactCache(&fc); }
    ~DiffFold() { setFactCache(nullptr); }
    ConstantRange rng(Value* V) { auto k = std::make_pair(V, BB); auto it = memo.find(k); if (it != memo.end()) return it->second; auto r = rangeAt(V, BB, DT); memo.insert({k, r}); return r; }
    I128 u(const APInt& a) { return S ? (I128)a.getSExtValue() : (I128)a.getZExtValue(); }
    std::map<Key, std::pair<I128, I128>> lh;
    std::pair<I128, I128> lohi(Value* V) {
        Key k{V, BB, S}; auto it = lh.find(k); if (it != lh.end()) return it->second;
        auto g = rng(V); I128 l = u(S ? g.getSignedMin() : g.getUnsignedMin()), h = u(S ? g.getSignedMax() : g.getUnsignedMax());
        lh[k] = {l, h};
        if (isa<BinaryOperator>(V) || isa<CastInst>(V)) { Form f = form(V); if (!f.t.count(V)) { I128 a, b; bounds(f, a, b); l = std::max(l, a); h = std::min(h, b); if (l <= h) lh[k] = {l, h}; } }
        return lh[k];
    }
    I128 lo(Value* V) { return lohi(V).first; }
    I128 hi(Value* V) { return lohi(V).second; }
    // the (unsigned or signed) value of V as a form
    Form form(Value* V, int d = 0) {
        Form f; if (auto* c = dyn_cast<ConstantInt>(V)) { f.c = u(c->getValue()); return f; }
        unsigned W = V->getType()->getIntegerBitWidth(); I128 top = ((I128)1 << (S ? W - 1 : W)) - 1, bot = S ? -top - 1 : 0;
        auto fits = [&](I128 l, I128 h) { return l >= bot && h <= top; };
        if (d < 16) {
            if (auto* Z = dyn_cast<ZExtInst>(V)) { if (!S || lo(Z->getOperand(0)) >= 0) return form(Z->getOperand(0), d + 1); }
            if (auto* Z = dyn_cast<SExtInst>(V)) { if (S || hi(Z->getOperand(0)) <= (((I128)1 << (Z->getOperand(0)->getType()->getIntegerBitWidth() - 1)) - 1)) return form(Z->getOperand(0), d + 1); }
            if (auto* T = dyn_cast<TruncInst>(V)) { if (T->getOperand(0)->getType()->getIntegerBitWidth() <= 64 && fits(lo(T->getOperand(0)), hi(T->getOperand(0)))) return form(T->getOperand(0), d + 1); }
            if (auto* B = dyn_cast<BinaryOperator>(V)) {
                Value* a = B->getOperand(0); Value* b = B->getOperand(1); auto* k = dyn_cast<ConstantInt>(b);
                auto wrapless = [&] { return S ? B->hasNoSignedWrap() : B->hasNoUnsignedWrap(); };
                I128 kv = k ? u(k->getValue()) : 0;
                switch (B->getOpcode()) {
                case Instruction::Or: if (!cast<PossiblyDisjointInst>(B)->isDisjoint()) break; [[fallthrough]];
                case Instruction::Add:
                    if (!S && k && k->isNegative()) { I128 n = (top + 1) - kv; if (lo(a) >= n) { f = form(a, d + 1); f.c -= n; return f; } }
                    if (B->getOpcode() == Instruction::Or || wrapless() || fits(lo(a) + lo(b), hi(a) + hi(b))) { f = form(a, d + 1); f.add(form(b, d + 1), 1); return f; }
                    break;
                case Instruction::Sub: if (wrapless() || fits(lo(a) - hi(b), hi(a) - lo(b))) { f = form(a, d + 1); f.add(form(b, d + 1), -1); return f; } break;
                case Instruction::Mul: if (k && kv >= 0 && hi(a) < ((I128)1 << 62) && kv < ((I128)1 << 40) && fits(lo(a) * kv, hi(a) * kv)) { f.add(form(a, d + 1), kv); return f; } break;
                case Instruction::Shl: if (k && kv >= 0 && kv < 40 && hi(a) < ((I128)1 << 62) && fits(lo(a) * ((I128)1 << kv), hi(a) * ((I128)1 << kv))) { f.add(form(a, d + 1), (I128)1 << kv); return f; } break;
                case Instruction::And: if (k && lo(a) >= 0) { I128 m = u(k->getValue()); if (S && m < 0) m += top + top + 2; I128 low = 0; while (low < top && !(m & (low + 1))) low = low * 2 + 1; I128 hb = m | low; if (low && low < ((I128)1 << 40) && (hb & (hb + 1)) == 0 && hi(a) <= hb) { f = form(a, d + 1); f.round[V] -= 1; if (!f.round[V]) f.round.erase(V); return f; } } break;
                default: break;
                }
            }
        }
        f.t[V] = 1; return f;
    }
    I128 roundMax(Value* V) { I128 m = (I128)cast<ConstantInt>(cast<BinaryOperator>(V)->getOperand(1))->getValue().getZExtValue(); I128 low = 0; while (!(m & (low + 1))) low = low * 2 + 1; return low; }
    void bounds(const Form& f, I128& l, I128& h) {
        l = h = f.c;
        for (auto& p : f.t) { I128 a = lo(p.first), b = hi(p.first); if (p.second > 0) { l += p.second * a; h += p.second * b; } else { l += p.second * b; h += p.second * a; } }
        for (auto& p : f.round) { I128 b = roundMax(p.first); if (p.second > 0) h += p.second * b; else l += p.second * b; }
    }
    // can a comparison be read in the current interpretation (and if so, as which one)?
    bool readable(CmpInst::Predicate& P, Value* A, Value* B) {
        if (CmpInst::isEquality(P)) return true;
        unsigned W = A->getType()->getIntegerBitWidth(); I128 s = ((I128)1 << (W - 1)) - 1;
        if (CmpInst::isSigned(P)) { if (!S && (hi(A) > s || hi(B) > s)) return false; P = ICmpInst::getUnsignedPredicate(P); return true; }
        return !S || (lo(A) >= 0 && lo(B) >= 0);
    }
    static bool shares(const Form& a, const Form& b) { for (auto& p : a.t) if (b.t.count(p.first)) return true; return false; }
    std::map<std::pair<BasicBlock*, bool>, std::vector<std::pair<Form, bool>>> gc;
    // dominating inequalities g <= 0 (second: g == 0)
    const std::vector<std::pair<Form, bool>>& ineqs(BasicBlock* at) {
        auto k = std::make_pair(at, S); auto it = gc.find(k); if (it != gc.end()) return it->second;
        auto& out = gc[k]; dominatingFacts(DT, at);
        for (auto& x : fc[at]) {
            auto* CI = dyn_cast<ICmpInst>(x.cond); if (!CI || !CI->getOperand(0)->getType()->isIntegerTy() || CI->getOperand(0)->getType()->getIntegerBitWidth() > 64) continue;
            auto Q = CI->getPredicate(); if (!x.truth) Q = CmpInst::getInversePredicate(Q);
            if (Q == CmpInst::ICMP_NE || !readable(Q, CI->getOperand(0), CI->getOperand(1))) continue;
            Form g = form(CI->getOperand(0)); g.add(form(CI->getOperand(1)), -1);
            if (g.t.empty()) continue;
            if (Q == CmpInst::ICMP_UGT || Q == CmpInst::ICMP_UGE) { Form n; n.add(g, -1); g = n; Q = Q == CmpInst::ICMP_UGT ? CmpInst::ICMP_ULT : CmpInst::ICMP_ULE; }
            if (Q == CmpInst::ICMP_ULT) g.c += 1;
            out.push_back({g, Q == CmpInst::ICMP_EQ});
        }
        return out;
    }
    void sharpen(const Form& f, const std::vector<std::pair<Form, bool>>& gs, I128& l, I128& h, int deep) {
        for (auto& x : gs) {
            const Form& g = x.first; if (!shares(f, g)) continue; I128 l2, h2;   // g <= 0 (or == 0): f = (f - g) + g <= max(f - g); f = (f + g) - g >= min(f + g)
            Form a = f; a.add(g, -1); bounds(a, l2, h2); if (deep && a.t.size() <= 3) { I128 l3 = l2, h3 = h2; sharpen(a, gs, l3, h3, 0); l2 = std::max(l2, l3); h2 = std::min(h2, h3); } h = std::min(h, h2); if (x.second) l = std::max(l, l2);
            Form b = f; b.add(g, 1); bounds(b, l2, h2); if (deep && b.t.size() <= 3) { I128 l3 = l2, h3 = h2; sharpen(b, gs, l3, h3, 0); l2 = std::max(l2, l3); h2 = std::min(h2, h3); } l = std::max(l, l2); if (x.second) h = std::min(h, h2);
        }
    }
    // -1 unknown, 0 false, 1 true
    int decide1(CmpInst::Predicate P, Value* A, Value* B, BasicBlock* at) {
        BB = at; if (!readable(P, A, B)) return -1;
        Form f = form(A); f.add(form(B), -1); I128 l, h; bounds(f, l, h);
        auto& gs = ineqs(at); sharpen(f, gs, l, h, gs.size() < 40 ? 1 : 0);
        if (l > h) return -1;
        switch (P) {
        case CmpInst::ICMP_EQ: return l > 0 || h < 0 ? 0 : l == 0 && h == 0 ? 1 : -1;
        case CmpInst::ICMP_NE: return l > 0 || h < 0 ? 1 : l == 0 && h == 0 ? 0 : -1;
        case CmpInst::ICMP_ULT: return h < 0 ? 1 : l >= 0 ? 0 : -1;
        case CmpInst::ICMP_ULE: return h <= 0 ? 1 : l > 0 ? 0 : -1;
        case CmpInst::ICMP_UGT: return l > 0 ? 1 : h <= 0 ? 0 : -1;
        case CmpInst::ICMP_UGE: return l >= 0 ? 1 : h < 0 ? 0 : -1;
        default: return -1;
        }
    }
    int decide(CmpInst::Predicate P, Value* A, Value* B, BasicBlock* at, int depth = 0) {
        if (!A->getType()->isIntegerTy() || A->getType()->getIntegerBitWidth() > 64) return -1;
        S = false; int r = decide1(P, A, B, at); if (r < 0) { S = true; r = decide1(P, A, B, at); S = false; }
        if (r >= 0 || depth > 2) return r;
        // a phi: every incoming value has to give the same answer
        for (int s = 0; s < 2; ++s) if (auto* Ph = dyn_cast<PHINode>(s ? B : A)) {
            Value* O = s ? A : B; int all = -2; auto* OI = dyn_cast<Instruction>(O);
            if (OI && !(isa<PHINode>(OI) && OI->getParent() == Ph->getParent()) && !DT.dominates(OI->getParent(), Ph->getParent())) continue;
            if (OI && OI->getParent() == Ph->getParent() && !isa<PHINode>(OI)) continue;
            for (unsigned i = 0; i < Ph->getNumIncomingValues(); ++i) {
                Value* iv = Ph->getIncomingValue(i); if (iv == Ph) { all = -1; break; }
                Value* ov = O; if (OI && isa<PHINode>(OI) && OI->getParent() == Ph->getParent()) ov = cast<PHINode>(OI)->getIncomingValueForBlock(Ph->getIncomingBlock(i));
                int q = s ? decide(P, ov, iv, Ph->getIncomingBlock(i), depth + 1) : decide(P, iv, ov, Ph->getIncomingBlock(i), depth + 1);
                if (all == -2) all = q; else if (all != q) all = -1; if (all == -1) break;
            }
            if (all >= 0) return all;
        }
        return -1;
    }
};
}
static bool foldCompares(Function& F) {
    if (F.getInstructionCount() > 6000) return false;
    bool any = false; DiffFold D(F);
    std::vector<std::pair<ICmpInst*, int>> todo;
    for (auto& I : instructions(F)) if (auto* C = dyn_cast<ICmpInst>(&I)) { if (!D.DT.isReachableFromEntry(C->getParent())) continue; int r = D.decide(C->getPredicate(), C->getOperand(0), C->getOperand(1), C->getParent()); if (r >= 0) todo.push_back({C, r}); }
    for (auto& p : todo) { p.first->replaceAllUsesWith(ConstantInt::getBool(p.first->getType(), p.second)); any = true; }
    std::vector<std::pair<Instruction*, Value*>> mm;   // minimum and maximum of ordered values
    for (auto& I : instructions(F)) if (auto* M = dyn_cast<MinMaxIntrinsic>(&I)) if (M->getType()->isIntegerTy() && D.DT.isReachableFromEntry(M->getParent())) { int r = D.decide(M->getPredicate(), M->getLHS(), M->getRHS(), M->getParent()); if (r >= 0) mm.push_back({M, r ? M->getLHS() : M->getRHS()}); else { r = D.decide(CmpInst::getSwappedPredicate(M->getPredicate()), M->getLHS(), M->getRHS(), M->getParent()); if (r == 1) mm.push_back({M, M->getRHS()}); } }
    std::map<Value*, Value*> mr(mm.begin(), mm.end()); for (auto& p : mm) { Value* v = p.second; while (mr.count(v)) v = mr[v]; p.first->replaceAllUsesWith(v); any = true; }
    for (auto& p : mm) p.first->eraseFromParent();
    std::vector<std::pair<SwitchInst*, ConstantInt*>> dead;
    for (auto& B : F) if (auto* S = dyn_cast<SwitchInst>(B.getTerminator())) if (D.DT.isReachableFromEntry(&B)) for (auto& c : S->cases()) if (D.decide(CmpInst::ICMP_EQ, S->getCondition(), c.getCaseValue(), &B) == 0) dead.push_back({S, c.getCaseValue()});
    for (auto& p : dead) { auto c = p.first->findCaseValue(p.second); if (c == p.first->case_default()) continue; c->getCaseSuccessor()->removePredecessor(p.first->getParent()); p.first->removeCase(c); any = true; }
    return any;
}
static bool foldPointers(Function& F);
static void foldAll(Function& F) { for (int i = 0; i < 8; ++i) { bool a = forwardMem(F), b = foldCompares(F), c = foldPointers(F); if (!a && !b && !c) break; simplifyFunction(F, true); } }
static void foldLoops(Function& F) {
    foldAll(F);
    for (int i = 0; i < 24; ++i) { if (!peelOnce(F)) break; simplifyFunction(F, true); foldAll(F); if (F.getInstructionCount() > 5000) break; }
}
// assumption of the witness rules: allocations succeed and that functions of other libraries do not throw
static void assumeBenign(Ctx& C, Function& F) {
    std::vector<InvokeInst*> inv; std::vector<ICmpInst*> cmp;
    for (auto& I : instructions(F)) {
        if (auto* II = dyn_cast<InvokeInst>(&I)) { Function* T = calledFn(II); if (T && T->isDeclaration() && !C.stubSlot.count(T) && !T->doesNotReturn() && !II->doesNotReturn()) inv.push_back(II); }
        if (auto* C = dyn_cast<ICmpInst>(&I)) if (C->isEquality() && isa<ConstantPointerNull>(C->getOperand(1))) if (auto* CB = dyn_cast<CallBase>(C->getOperand(0))) if (Function* T = calledFn(CB)) if (T->getName() == "malloc" || T->getName().starts_with("_Znwm") || T->getName().starts_with("_Znam")) cmp.push_back(C);
    }
    for (auto* C : cmp) C->replaceAllUsesWith(ConstantInt::getBool(C->getType(), C->getPredicate() == ICmpInst::ICMP_NE));
    std::vector<CallInst*> lock;   // sequential: locking always succeeds
    for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallInst>(&I)) if (Function* T = calledFn(CB)) if (T->getName() == "pthread_mutex_lock" || T->getName() == "pthread_mutex_unlock") lock.push_back(CB);
    for (auto* CB : lock) { CB->replaceAllUsesWith(ConstantInt::get(CB->getType(), 0)); CB->eraseFromParent(); }
    for (auto* II : inv) changeToCall(II);
}
// pointers into distinct objects (allocations, locals, globals) differ; into the same object they compare by offset
static void objectsOf(Value* V, std::set<Value*>& out, int64_t& off, bool& one, int d = 0) {
    V = V->stripPointerCasts();
    if (d < 8) {
        if (auto* P = dyn_cast<PHINode>(V)) { one = false; static std::set<Value*> busy; if (!busy.insert(P).second) return; for (auto& x : P->incoming_values()) objectsOf(x.get(), out, off, one, d + 1); busy.erase(P); return; }
        if (auto* S = dyn_cast<SelectInst>(V)) { one = false; objectsOf(S->getTrueValue(), out, off, one, d + 1); objectsOf(S->getFalseValue(), out, off, one, d + 1); return; }
        if (auto* G = dyn_cast<GEPOperator>(V)) {
            auto* F = dyn_cast<Instruction>(V); APInt a(64, 0);
            if (one && F && G->accumulateConstantOffset(F->getModule()->getDataLayout(), a)) off += a.getSExtValue(); else one = false;
            objectsOf(G->getPointerOperand(), out, off, one, d + 1); return;
        }
    }
    out.insert(V);
}
static bool isObject(Value* V) {
    if (isa<AllocaInst>(V) || isa<GlobalVariable>(V) || isa<Function>(V) || isa<ConstantPointerNull>(V)) return true;
    if (auto* A = dyn_cast<Argument>(V)) return A->hasByValAttr();
    if (auto* CB = dyn_cast<CallBase>(V)) if (Function* T = calledFn(CB)) return T->getName() == "malloc" || T->getName().starts_with("_Znwm") || T->getName().starts_with("_Znam");
    return false;
}
static bool foldPointers(Function& F) {
    std::vector<std::pair<ICmpInst*, bool>> todo;
    for (auto& I : instructions(F)) if (auto* C = dyn_cast<ICmpInst>(&I)) {
        if (!C->isEquality()) continue;
        if (C->getOperand(0)->getType()->isIntegerTy(64)) {   // the same for addresses taken as integers
            auto split = [&](Value* V, int64_t& o) -> Value* {
                for (int i = 0; i < 6; ++i) if (auto* B = dyn_cast<BinaryOperator>(V)) { auto* K = dyn_cast<ConstantInt>(B->getOperand(1)); if (!K || (B->getOpcode() != Instruction::Add && B->getOpcode() != Instruction::Sub)) return nullptr; o += B->getOpcode() == Instruction::Add ? K->getSExtValue() : -K->getSExtValue(); V = B->getOperand(0); }
                auto* P = dyn_cast<PtrToIntInst>(V); if (!P) return nullptr; Value* X = P->getOperand(0);
                for (int i = 0; i < 6; ++i) { auto* G = dyn_cast<GEPOperator>(X); if (!G) break; APInt a(64, 0); if (!G->accumulateConstantOffset(F.getParent()->getDataLayout(), a)) break; o += a.getSExtValue(); X = G->getPointerOperand(); }
                return X; };
            int64_t x = 0, y = 0; Value *a = split(C->getOperand(0), x), *b = split(C->getOperand(1), y); if (a && a == b) todo.push_back({C, x == y});
            continue;
        }
        if (!C->getOperand(0)->getType()->isPointerTy()) continue;
        std::set<Value*> a, b; int64_t oa = 0, ob = 0; bool ua = true, ub = true;
        if (isa<Constant>(C->getOperand(0)) && isa<Constant>(C->getOperand(1))) continue;
        auto get = [](Value* V, std::set<Value*>& s, int64_t& o, bool& u) { if (isa<ConstantExpr>(V)) { s.insert(getUnderlyingObject(V)); u = false; } else objectsOf(V, s, o, u); };
        get(C->getOperand(0), a, oa, ua); get(C->getOperand(1), b, ob, ub);
        bool sep = !a.empty() && !b.empty(); for (auto* x : a) { if (!isObject(x)) sep = false; for (auto* y : b) if (x == y || !isObject(y)) sep = false; }
        if (sep) { todo.push_back({C, false}); continue; }
        if (ua && ub && a.size() == 1 && a == b) todo.push_back({C, oa == ob});
    }
    for (auto& p : todo) p.first->replaceAllUsesWith(ConstantInt::getBool(p.first->getType(), p.second == (p.first->getPredicate() == ICmpInst::ICMP_EQ)));
    return !todo.empty();
}
struct WitnessResult { bool reach = false, uncond = false, done = false, ret = false; std::string what; unsigned size = 0; };
static bool hasCall(Function& F, StringRef n) { for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (Function* T = calledFn(CB)) if (T->getName() == n) return true; return false; }
// ---- exceptions, followed only for witnesses that ask for it (czi_exceptions): a throw becomes a branch to the handler that takes it
static bool followsThrows(const Function& F) { return F.hasFnAttribute("czi-eh"); }
// the public bases (at offset 0) of a thrown type, itself included; false if it is not known
static bool typeChain(Value* T, std::set<std::string>& out, int d = 0) {
    auto* G = dyn_cast<GlobalVariable>(T->stripPointerCasts()); if (!G || d > 10) return false;
    if (!out.insert(G->getName().str()).second) return true;
    if (!G->hasInitializer()) {
        static const std::map<std::string, std::string> std_ = {{"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
            {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
        std::string n = G->getName().str(); if (n == "_ZTISt9exception" || n == "_ZTISt16nested_exception") return true;
        auto it = std_.find(n); if (it == std_.end()) return false;
        while (it != std_.end()) { out.insert(it->second); it = std_.find(it->second); }
        return true;
    }
    auto* S = dyn_cast<ConstantStruct>(G->getInitializer()); if (!S) return false;
    if (S->getNumOperands() == 2) return true;
    if (S->getNumOperands() == 3) return typeChain(S->getOperand(2), out, d + 1);
    for (unsigned i = 4; i + 1 < S->getNumOperands(); i += 2) { auto* o = dyn_cast<ConstantInt>(S->getOperand(i + 1)); if (!o) return false; if (o->getSExtValue() == 2) { if (!typeChain(S->getOperand(i), out, d + 1)) return false; } else { std::set<std::string> x; if (!typeChain(S->getOperand(i), x, d + 1)) return false; for (auto& y : x) out.insert("@" + y); } }
    return true;
}
static unsigned typeNumber(Value* T) { static std::map<Value*, unsigned> n; auto& x = n[T->stripPointerCasts()]; if (!x) x = n.size(); return x; }
static GlobalVariable* excCell(Module& M, const char* n) { if (auto* G = M.getNamedGlobal(n)) return G; auto* P = PointerType::get(M.getContext(), 0); return new GlobalVariable(M, P, false, GlobalValue::InternalLinkage, ConstantPointerNull::get(P), n); }
static bool lowerThrows(Function& F) {
    bool any = false; Module& M = *F.getParent(); auto& X = F.getContext(); auto* P = PointerType::get(X, 0);
    std::vector<CallBase*> cs; for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) cs.push_back(CB);
    for (auto* CB : cs) {
        Function* T = calledFn(CB); if (!T) continue; StringRef n = T->getName();
        // the text of messages is irrelevant
        bool ss = n.starts_with("_ZNSt7__cxx1118basic_stringstream") || n.starts_with("_ZNSt7__cxx1119basic_ostringstream"), sc = n.starts_with("_ZNKSt7__cxx1118basic_stringstream") || n.starts_with("_ZNKSt7__cxx1115basic_stringbuf") || n.starts_with("_ZNKSt7__cxx1119basic_ostringstream");
        bool ctor = n.contains("C1E") || n.contains("C2E"), dtor = n.contains("D1Ev") || n.contains("D2Ev");
        bool exc = n.starts_with("_ZNSt13runtime_error") || n.starts_with("_ZNSt11logic_error") || n.starts_with("_ZNSt16invalid_argument") || n.starts_with("_ZNSt12out_of_range") || n.starts_with("_ZNSt9exception");
        if (((ss || exc) && (ctor || dtor) && CB->getType()->isVoidTy())) { if (auto* II = dyn_cast<InvokeInst>(CB)) CB = changeToCall(II); CB->eraseFromParent(); any = true; continue; }
        if ((n.starts_with("_ZStlsI") || n.starts_with("_ZNSols") || n.starts_with("_ZNSo9_M_insert") || n.starts_with("_ZSt16__ostream_insert")) && CB->getType()->isPointerTy()) { CB->replaceAllUsesWith(CB->getArgOperand(0)); if (auto* II = dyn_cast<InvokeInst>(CB)) CB = changeToCall(II); CB->eraseFromParent(); any = true; continue; }
        if (sc && n.ends_with("3strEv")) if (Function* E = M.getFunction("czi_empty_text")) if (E->getFunctionType() == CB->getFunctionType()) { CB->setCalledFunction(E); any = true; continue; }
        if (n == "_ZSt17current_exceptionv" && CB->arg_size() == 1 && CB->getType()->isVoidTy()) { IRBuilder<> B(CB); B.CreateStore(ConstantPointerNull::get(P), CB->getArgOperand(0)); if (auto* II = dyn_cast<InvokeInst>(CB)) CB = changeToCall(II); CB->eraseFromParent(); any = true; continue; }
        if ((n.starts_with("_ZNSt15__exception_ptr13exception_ptr9_M_addref") || n.starts_with("_ZNSt15__exception_ptr13exception_ptr10_M_release") || n == "_ZNSt16nested_exceptionD2Ev") && CB->getType()->isVoidTy()) { if (auto* II = dyn_cast<InvokeInst>(CB)) CB = changeToCall(II); CB->eraseFromParent(); any = true; continue; }
        if (T->getIntrinsicID() == Intrinsic::eh_typeid_for) { CB->replaceAllUsesWith(ConstantInt::get(CB->getType(), typeNumber(CB->getArgOperand(0)))); CB->eraseFromParent(); any = true; }
        else if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") {
            Value* p = CB->getArgOperand(0); IRBuilder<> B(CB);
            if (n == "__cxa_begin_catch") { B.CreateStore(p, excCell(M, "czi.caught")); B.CreateStore(B.CreateLoad(P, excCell(M, "czi.thrown.type")), excCell(M, "czi.caught.type")); }
            CB->replaceAllUsesWith(p); if (auto* II = dyn_cast<InvokeInst>(CB)) CB = changeToCall(II); CB->eraseFromParent(); any = true;
        } else if (n == "__cxa_end_catch" || n == "__cxa_free_exception" || n == "czi_exceptions") { if (auto* II = dyn_cast<InvokeInst>(CB)) CB = changeToCall(II); CB->eraseFromParent(); any = true; }
        else if (n == "__cxa_allocate_exception") { FunctionCallee A = M.getOrInsertFunction("malloc", P, Type::getInt64Ty(X)); if (auto* II = dyn_cast<InvokeInst>(CB)) CB = changeToCall(II); CB->setCalledFunction(A); any = true; }
        else if (n == "__cxa_rethrow") {
            FunctionCallee A = M.getOrInsertFunction("__cxa_throw", Type::getVoidTy(X), P, P, P); IRBuilder<> B(CB);
            Value* as[] = {B.CreateLoad(P, excCell(M, "czi.caught")), B.CreateLoad(P, excCell(M, "czi.caught.type")), ConstantPointerNull::get(P)};
            CallBase* N; if (auto* II = dyn_cast<InvokeInst>(CB)) N = B.CreateInvoke(A, II->getNormalDest(), II->getUnwindDest(), as); else N = B.CreateCall(A, as);
            N->setDoesNotReturn(); CB->eraseFromParent(); any = true;
        } else if (n == "__cxa_throw" && isa<InvokeInst>(CB)) {
            auto* II = cast<InvokeInst>(CB); Value* ti = II->getArgOperand(1); auto* LP = II->getLandingPadInst(); BasicBlock* L = LP->getParent(); BasicBlock* B = II->getParent();
            std::set<std::string> chain; if (!typeChain(ti, chain)) continue;
            int sel = -1; bool bad = false;
            for (unsigned k = 0; k < LP->getNumClauses() && sel < 0 && !bad; ++k) {
                if (!LP->isCatch(k)) { bad = true; break; }
                Constant* c = cast<Constant>(LP->getClause(k)); if (c->isNullValue()) { sel = typeNumber(c); break; }
                std::string cn = c->stripPointerCasts()->getName().str(); if (chain.count(cn)) sel = typeNumber(c); else if (chain.count("@" + cn)) bad = true;
            }
            if (bad) continue;
            if (sel < 0 && LP->isCleanup()) sel = 0;
            II->getNormalDest()->removePredecessor(B);
            IRBuilder<> IB(II);
            if (sel < 0) { L->removePredecessor(B); IB.CreateUnreachable(); II->eraseFromParent(); any = true; continue; }
            IB.CreateStore(ti, excCell(M, "czi.thrown.type"));
            Value* v = IB.CreateInsertValue(PoisonValue::get(LP->getType()), II->getArgOperand(0), 0u); v = IB.CreateInsertValue(v, ConstantInt::get(Type::getInt32Ty(X), sel), 1u);
            BasicBlock* R = L->splitBasicBlock(LP->getNextNode(), "eh.rest");
            std::vector<PHINode*> ps; for (auto& p : L->phis()) ps.push_back(&p);
            for (auto* p : ps) { auto* np = PHINode::Create(p->getType(), 2, "", &R->front()); p->replaceUsesWithIf(np, [&](Use& u) { return u.getUser() != np; }); np->addIncoming(p, L); Value* in = p->getIncomingValueForBlock(B); np->addIncoming(in == np ? (Value*)p : in, B); }
            auto* np = PHINode::Create(LP->getType(), 2, "", &R->front()); LP->replaceUsesWithIf(np, [&](Use& u) { return u.getUser() != np; }); np->addIncoming(LP, L); np->addIncoming(v, B);
            IB.CreateBr(R); L->removePredecessor(B, true); II->eraseFromParent(); any = true;
        }
    }
    return any;
}
// code behind calls that never return is unreachable
static bool cutNoReturn(Ctx& C, Function& F) {
    std::vector<CallBase*> cs; bool eh = followsThrows(F);
    for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) { Function* T = calledFn(CB); if (!T || T->isIntrinsic() || C.stubSlot.count(T)) continue; if (!CB->doesNotReturn() && !neverReturns(C, T)) continue;
        if (eh && !T->isDeclaration()) continue;
        if (auto* II = dyn_cast<InvokeInst>(CB)) { if (isa<UnreachableInst>(&*II->getNormalDest()->getFirstNonPHIOrDbg())) continue; } else if (isa<UnreachableInst>(CB->getNextNonDebugInstruction())) continue;
        cs.push_back(CB); }
    for (auto* CB : cs) {
        if (auto* II = dyn_cast<InvokeInst>(CB)) {
            if (!II->use_empty()) II->replaceAllUsesWith(PoisonValue::get(II->getType()));
            II->getNormalDest()->removePredecessor(II->getParent());
            auto* U = BasicBlock::Create(F.getContext(), "noret", &F); new UnreachableInst(F.getContext(), U); II->setNormalDest(U);
        } else changeToUnreachable(CB->getNextNonDebugInstruction());
        // (a block may hold several such calls)
        break;
    }
    return !cs.empty();
}
// (witnesses that do not follow exceptions: a path that throws ends)
static void dropHandlers(Function& F) { std::vector<InvokeInst*> v; for (auto& I : instructions(F)) if (auto* II = dyn_cast<InvokeInst>(&I)) v.push_back(II); for (auto* II : v) changeToCall(II); if (!v.empty()) removeUnreachableBlocks(F); }
static bool g_eh = false;
// what follows the end of the witness is irrelevant
static void endAtDone(Function& F) {
    if (!F.getName().starts_with("spec.") || !F.getReturnType()->isVoidTy()) return;
    std::vector<CallInst*> v; for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallInst>(&I)) if (Function* T = calledFn(CB)) if (T->getName() == "czi_done" && !isa<ReturnInst>(CB->getNextNode())) v.push_back(CB);
    for (auto* CB : v) { if (!CB->getParent()) continue; Instruction* n = CB->getNextNode(); if (isa<ReturnInst>(n)) continue; changeToUnreachable(n); auto* T = CB->getParent()->getTerminator(); ReturnInst::Create(F.getContext(), nullptr, T); T->eraseFromParent(); }
    if (!v.empty()) removeUnreachableBlocks(F);
}
static void normalise(Ctx& C, Function& F, bool deep, bool gvn = true) {
    if (!g_eh) dropHandlers(F);
    endAtDone(F);
    while (cutNoReturn(C, F)) {}
    if (followsThrows(F)) lowerThrows(F);
    removeUnreachableBlocks(F); assumeBenign(C, F); prepareClone(C, F); simplifyFunction(F, true, gvn);
    for (int i = 0; i < (deep ? 40 : 6); ++i) { bool x = forwardMem(F); x |= foldPointers(F); if (deep) x |= foldCompares(F); if (followsThrows(F) && lowerThrows(F)) { removeUnreachableBlocks(F); x = true; } assumeBenign(C, F); prepareClone(C, F); if (!x) break; simplifyFunction(F, true, gvn); }
}
// a callee with its trivial helpers already expanded
static std::map<Function*, Function*> prepCache;
static Function* prepared(Ctx& C, Function* T, int depth = 0) {
    auto& cache = prepCache; auto it = cache.find(T); if (it != cache.end()) return it->second;
    cache[T] = T; if (depth > 12) { cache.erase(T); return T; }
    ValueToValueMapTy vm; Function* N = CloneFunction(T, vm); N->setName("prep." + T->getName()); N->setLinkage(GlobalValue::InternalLinkage); N->setComdat(nullptr); N->addFnAttr("czi-clone"); stripDebugInfo(*N);
    if (!g_eh) dropHandlers(*N);
    std::vector<CallBase*> cs; bool any = false;
    for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) { if (auto* A = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) if (auto* X = dyn_cast<Function>(A->getAliaseeObject())) CB->setCalledOperand(X); cs.push_back(CB); }
    for (auto* CB : cs) {
        Function* X = calledFn(CB); if (!X || X->isDeclaration() || X->isIntrinsic() || X->isVarArg() || X == T || CB->getFunctionType() != X->getFunctionType() || C.stubSlot.count(X) || neverReturns(C, X) || X->getInstructionCount() > 60 || X->getName().contains("basic_stringstream") || X->getName().contains("basic_ostringstream") || X->getName().contains("basic_stringbuf")) continue;
        Function* P = prepared(C, X, depth + 1); if (P->getInstructionCount() > 30) continue; bool loop = false; { DominatorTree DT(*P); LoopInfo LI(DT); loop = !LI.empty(); } if (loop) continue;
        CB->setCalledFunction(P); InlineFunctionInfo IFI; if (InlineFunction(*CB, IFI, false, nullptr, false).isSuccess()) any = true; else CB->setCalledFunction(X);
    }
    if (any) simplifyFunction(*N, false);
    return cache[T] = N;
}
// witness helpers that contain obligations themselves (directly or through further helpers)
static const std::set<Function*>& obliged(Module& M) {
    static std::map<Module*, std::set<Function*>> cache; auto it = cache.find(&M); if (it != cache.end()) return it->second;
    auto& s = cache[&M]; std::vector<Function*> w; if (Function* V = M.getFunction("czi_violation")) w.push_back(V);
    while (!w.empty()) { Function* T = w.back(); w.pop_back(); for (auto* U : T->users()) if (auto* CB = dyn_cast<CallBase>(U)) if (CB->getCalledOperand() == T) if (s.insert(CB->getFunction()).second) w.push_back(CB->getFunction()); }
    return s;
}
static bool hasObligation(Function& F) { if (hasCall(F, "czi_violation")) return true; auto& s = obliged(*F.getParent()); for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (Function* T = calledFn(CB)) if (s.count(T)) return true; return false; }
// Specialise a clone of F: follow the control flow from the entry, expanding calls and unrolling loops whose course is determined, folding
// constants, memory contents and comparisons after every step.
// czi_startup(): the variables behind the site object have the values they have when the program starts (assumes the default site)
static void startup(Function& N) {
    CallBase* at = nullptr; for (auto& I : instructions(N)) if (auto* CB = dyn_cast<CallBase>(&I)) if (Function* T = calledFn(CB)) if (T->getName() == "czi_startup") { at = CB; break; }
    if (!at) return;
    Module& M = *N.getParent(); std::set<GlobalVariable*> vars; std::set<Value*> seen; std::vector<std::pair<Value*, int>> w; if (Function* G = M.getFunction("_ZN6libCZI6detail7GetSiteEv")) w.push_back({G, 0});
    while (!w.empty()) {
        auto [V, d] = w.back(); w.pop_back(); if (!seen.insert(V).second) continue;
        if (auto* F = dyn_cast<Function>(V)) { if (d < 12) for (auto& I : instructions(*F)) for (auto& O : I.operands()) if (isa<Constant>(O)) w.push_back({O, d + 1}); }
        else if (auto* G = dyn_cast<GlobalVariable>(V)) { if (!G->isConstant() && G->hasInitializer() && !G->isThreadLocal() && M.getDataLayout().getTypeAllocSize(G->getValueType()) <= 512) vars.insert(G); }
        else if (auto* K = dyn_cast<Constant>(V)) for (auto& O : K->operands()) w.push_back({O, d});
    }
    IRBuilder<> B(at);
    for (auto* G : vars) {
        if (G->getValueType()->isSingleValueType()) { B.CreateStore(G->getInitializer(), G); continue; }
        auto* K = new GlobalVariable(M, G->getValueType(), true, GlobalValue::PrivateLinkage, G->getInitializer(), "czi.init"); K->setAlignment(Align(8)); uint64_t z = M.getDataLayout().getTypeAllocSize(G->getValueType());
        B.CreateMemCpy(G, Align(8), K, Align(8), z);
    }
    std::vector<CallBase*> all; for (auto& I : instructions(N)) if (auto* CB = dyn_cast<CallBase>(&I)) if (Function* T = calledFn(CB)) if (T->getName() == "czi_startup") all.push_back(CB);
    for (auto* CB : all) { if (auto* II = dyn_cast<InvokeInst>(CB)) CB = changeToCall(II); CB->eraseFromParent(); }
}
static Function* specialise(Ctx& C, Function* F) {
    ValueToValueMapTy vm; Function* N = CloneFunction(F, vm); N->setName("spec." + F->getName()); N->setLinkage(GlobalValue::ExternalLinkage); N->setComdat(nullptr); N->addFnAttr("czi-clone");
    startup(*N);
    bool eh = hasCall(*N, "czi_exceptions") || C.opts.count("exceptions"); if (eh) N->addFnAttr("czi-eh");
    if (eh != g_eh) { g_eh = eh; prepCache.clear(); }
    bool tr = C.opts.count("trace"); unsigned limit = C.opts.count("limit") ? atoi(C.opts["limit"].c_str()) : 20000;
    int bk = C.opts.count("bk") ? atoi(C.opts["bk"].c_str()) : 150;
    normalise(C, *N, false);
    bool strong = false, clean = true; std::map<std::string, int> peels; std::map<CallBase*, std::vector<Function*>> hist;
    for (int step = 0; step < 2000; ++step) {
        if (C.opts.count("dumpstep") && step == atoi(C.opts["dumpstep"].c_str())) { errs() << *N; exit(0); }
        if (!hasObligation(*N)) break;
        unsigned start = N->getInstructionCount(); if (start > limit) break;
        DominatorTree DT(*N); LoopInfo LI(DT);
        std::set<CallBase*> alive; for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) alive.insert(CB);
        for (auto it = hist.begin(); it != hist.end();) if (!alive.count(it->first)) it = hist.erase(it); else ++it;
        std::vector<CallBase*> todo; Loop* peel = nullptr; unsigned planned = 0; std::string what;
        ReversePostOrderTraversal<Function*> RPO(N);
        for (auto* B : RPO) {
            if (Loop* L = LI.getLoopFor(B)) {
                while (L->getParentLoop()) L = L->getParentLoop();
                std::string h = L->getHeader()->getName().str();
                if (L->getHeader() == B && peels[h] < 24 && planned < 20) { if (todo.empty()) peel = L; break; }
            }
            bool full = false;
            for (auto& I : *B) if (auto* CB = dyn_cast<CallBase>(&I)) {
                Function* T = calledFn(CB); if (!T || T->isDeclaration() || T->isIntrinsic() || T->isVarArg() || T == F || T == N || (!eh && neverReturns(C, T)) || CB->getFunctionType() != T->getFunctionType()) continue;
                auto& h = hist[CB]; if (std::count(h.begin(), h.end(), T) > 2 || h.size() > 40 || T->getInstructionCount() > 4000) continue;
                todo.push_back(CB); planned += T->getInstructionCount(); if (planned > 1200) { full = true; break; }
            }
            if (full || (planned > (unsigned)bk && succ_size(B) > 1)) break;   // what lies behind a branch is expanded when the branch could not be decided
        }
        if (todo.empty() && !peel && !strong) { strong = true; strongSimplify(*N); normalise(C, *N, true); if (tr) errs() << "  step " << step << ": full pipeline -> " << N->getInstructionCount() << "\n"; continue; }
        if (!todo.empty() || peel) strong = false;
        if (todo.empty() && !peel) { if (tr) errs() << "  nothing left to expand after " << step << " steps\n"; break; }
        if (peel && !clean) { normalise(C, *N, true, true); clean = true; if (tr) errs() << "  step " << step << ": settle -> " << N->getInstructionCount() << "\n"; continue; }   // everything known about the loop first
        if (peel) {
            std::string h = peel->getHeader()->getName().str(); ++peels[h]; what = "peel " + h;
            TargetLibraryInfoImpl TLII(Triple(N->getParent()->getTargetTriple())); TargetLibraryInfo TLI(TLII); AssumptionCache AC(*N); ScalarEvolution SE(*N, TLI, AC, DT, LI);
            simplifyLoop(peel, &DT, &LI, &SE, &AC, nullptr, false); formLCSSARecursively(*peel, DT, &LI, &SE);
            if (!canPeel(peel)) { peels[h] = 1000; peels[peel->getHeader()->getName().str()] = 1000; what += " impossible"; }
            else { ValueToValueMapTy VM; unsigned k = SE.getSmallConstantMaxTripCount(peel); if (k < 1 || k > 12) k = 1; peelLoop(peel, k, &LI, &SE, DT, &AC, true, VM); }
        } else {
            what = std::to_string(todo.size()) + " calls from " + calledFn(todo[0])->getName().substr(0, 60).str();
            for (auto* CB : todo) {
                Function* T = calledFn(CB); auto nh = hist[CB]; nh.push_back(T); hist.erase(CB);
                if (CB->hasFnAttr(Attribute::NoInline)) CB->removeFnAttr(Attribute::NoInline);
                CB->setCalledFunction(prepared(C, T));
                InlineFunctionInfo IFI; if (!InlineFunction(*CB, IFI, false, nullptr, false).isSuccess()) { hist[CB] = std::vector<Function*>(50, T); continue; }
                for (auto* NC : IFI.InlinedCallSites) hist[NC] = nh;
            }
        }
        stripDebugInfo(*N); if (step % 8 == 7) dropDeadStores(*N);
        clean = step % 8 == 7 || (peel && peels[what.substr(5)] % 2 == 0); normalise(C, *N, clean || peel, clean);
        if (tr) errs() << "  step " << step << ": " << what << " -> " << N->getInstructionCount() << "\n";
    }
    return N;
}
// memory a pointer parameter may refer to: some bytes, all different from their neighbours (only to refute)
static Constant* someBytes(Module& M, uint64_t seed) {
    std::vector<uint8_t> b; for (unsigned i = 0; i < 1024; ++i) b.push_back(seed == 0 ? 0 : seed == 1 ? (i & 1) : uint8_t((i * 37 + i / 7 + seed * 11) & 0xff));
    auto* I = ConstantDataArray::get(M.getContext(), b); auto* G = new GlobalVariable(M, I->getType(), true, GlobalValue::PrivateLinkage, I, "czi.some"); G->setAlignment(Align(16)); return G;
}
static Function* withArgs(Function* F, const std::vector<uint64_t>& args) {
    ValueToValueMapTy vm; Function* N = CloneFunction(F, vm); unsigned i = 0;
    for (auto& A : N->args()) { if (auto* T = dyn_cast<IntegerType>(A.getType())) A.replaceAllUsesWith(ConstantInt::get(T, APInt(64, args[i]).zextOrTrunc(T->getBitWidth()))); else if (A.getType()->isPointerTy() && !A.use_empty()) A.replaceAllUsesWith(someBytes(*F->getParent(), args[i])); ++i; }
    // memory which is allocated holds arbitrary bytes
    std::vector<CallInst*> al; for (auto& I : instructions(*N)) if (auto* CI = dyn_cast<CallInst>(&I)) if (Function* T = calledFn(CI)) if ((T->getName() == "malloc" || T->getName() == "_Znwm" || T->getName() == "_Znam") && isa<ConstantInt>(CI->getArgOperand(0)) && cast<ConstantInt>(CI->getArgOperand(0))->getZExtValue() <= 4096) al.push_back(CI);
    for (auto* CI : al) { IRBuilder<> B(CI->getNextNode()); B.CreateMemSet(CI, B.getInt8(0xA5), cast<ConstantInt>(CI->getArgOperand(0))->getZExtValue(), MaybeAlign(1)); }
    return N;
}
// keep: receives the specialised function (otherwise it is dropped)
static WitnessResult evalWitness(Ctx& C, Function* F, const std::vector<uint64_t>* args, Function** keep = nullptr) {
    WitnessResult r; Function* base = args ? withArgs(F, *args) : F;
    Function* N2 = specialise(C, base);
    if (C.opts.count("dump") && F->getName() == C.opts["dump"] && (args != nullptr) == (C.opts.count("spec") != 0)) errs() << *N2;
    std::set<BasicBlock*> mark;
    for (auto& B : *N2) for (auto& I : B) if (auto* CB = dyn_cast<CallBase>(&I)) if (Function* T = calledFn(CB)) {
        if (T->getName() == "czi_done") r.done = true;
        if (T->getName() != "czi_violation") { if (obliged(*N2->getParent()).count(T)) { r.reach = true; if (r.what.empty()) r.what = "not expanded: " + T->getName().str(); } continue; }
        mark.insert(&B); r.reach = true;
        if (r.what.empty()) if (auto* G = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts())) if (G->hasInitializer()) if (auto* d = dyn_cast<ConstantDataSequential>(G->getInitializer())) r.what = d->isCString() ? d->getAsCString().str() : "";
    }
    for (auto& B : *N2) if (isa<ReturnInst>(B.getTerminator())) r.ret = true;   // without "done": the values contradict the assumptions of the witness
    // is there a way to the end that avoids every marker?
    EdgeSet cut; for (auto* B : mark) for (auto* S : successors(B)) cut.insert({B, S});
    bool avoid = false;
    for (auto* B : reachableFrom(&N2->getEntryBlock(), cut)) if (!mark.count(B)) { auto* T = B->getTerminator(); if (isa<ReturnInst>(T) || isa<ResumeInst>(T) || isa<UnreachableInst>(T)) avoid = true; }
    r.uncond = r.reach && !avoid; r.size = N2->getInstructionCount();
    if (keep) *keep = N2; else N2->eraseFromParent();
    if (args) base->eraseFromParent();
    return r;
}
// the constants the remaining code compares each parameter (or something computed from it) with
static std::vector<std::vector<uint64_t>> interesting(Function& F) {
    std::vector<std::vector<uint64_t>> out;
    for (auto& A : F.args()) {
        std::set<uint64_t> cs; auto* T = dyn_cast<IntegerType>(A.getType()); if (!T) { out.push_back({}); continue; }
        std::vector<Value*> w{&A}; std::set<Value*> seen;
        auto put = [&](const APInt& k, const APInt& off) { APInt v = k.sextOrTrunc(64) - off; for (int d = -1; d <= 1; ++d) cs.insert((v + (uint64_t)(int64_t)d).getZExtValue()); };
        std::map<Value*, APInt> off; off[&A] = APInt(64, 0);
        while (!w.empty()) {
            Value* V = w.back(); w.pop_back(); if (!seen.insert(V).second) continue;
            for (auto* U : V->users()) {
                if (auto* I = dyn_cast<ICmpInst>(U)) { for (int k = 0; k < 2; ++k) if (auto* c = dyn_cast<ConstantInt>(I->getOperand(k))) put(c->getValue(), off[V]); }
                else if (auto* S = dyn_cast<SwitchInst>(U)) { for (auto& c : S->cases()) put(c.getCaseValue()->getValue(), off[V]); }
                else if (auto* O = dyn_cast<BinaryOperator>(U)) { auto o = off[V]; if (O->getOpcode() == Instruction::Add) if (auto* c = dyn_cast<ConstantInt>(O->getOperand(1))) o += c->getValue().sextOrTrunc(64); off.insert({O, o}); w.push_back(O); }
                else if (isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) { off.insert({U, off[V]}); w.push_back(U); }
            }
        }
        uint64_t m = T->getBitWidth() >= 64 ? ~0ull : (1ull << T->getBitWidth()) - 1; std::set<uint64_t> ms; for (auto c : cs) ms.insert(c & m);
        std::vector<uint64_t> v(ms.begin(), ms.end()); if (v.size() > 24) v.resize(24); out.push_back(v);
    }
    return out;
}
static bool usesDone(Function* F) { for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (Function* T = calledFn(CB)) if (T->getName() == "czi_done") return true; return false; }
// outcome of one witness: status, detail
static Finding decideWitness(Ctx& C, Function* F) {
    std::string key = F->getName().substr(2).str(); bool wantDone = usesDone(F), eh = hasCall(*F, "czi_exceptions");
    auto mk = [&](const char* st, const std::string& d) { return Finding{st, key, "witness", d}; };
    Function* res = nullptr; auto r = evalWitness(C, F, nullptr, &res);
    // "ends in an exception" has to be confirmed with the exceptions followed to their handlers
    if (!r.reach && wantDone && !r.done && !eh && !C.opts.count("exceptions")) { C.opts["exceptions"] = "1"; res->eraseFromParent(); r = evalWitness(C, F, nullptr, &res); }
    if (!r.reach && (!wantDone || r.done)) return mk("ok", F->arg_size() ? "marker unreachable for all values of the parameters" : "marker unreachable after constant propagation");
    if (!r.reach) return mk("violation", "the operation can never succeed: every path of the specialised code ends in an exception");
    if (r.uncond) return mk("violation", r.what);
    // representative values, distinct for every parameter: only to refute
    static const uint64_t primes[] = {1009, 2003, 3001, 4001, 5003, 6007, 7001, 8009, 9001, 10007, 11003, 12007, 13001, 14009, 15013, 16001, 17011, 18013, 19001, 20011, 21001, 22003, 23003, 24001, 25013, 26003, 27011, 28001, 29009, 30011, 31013, 32003};
    auto name = [&](const std::vector<uint64_t>& v) { std::string vs; unsigned i = 0; for (auto& A : F->args()) { vs += (vs.empty() ? "" : ", ") + A.getName().str() + "=" + std::to_string(v[i]); ++i; } return vs; };
    if (!F->arg_empty()) {
        auto tryOn = [&](Function* G, const std::vector<uint64_t>& v, bool must) -> std::unique_ptr<Finding> {
            auto q = evalWitness(C, G, &v);
            if (q.uncond) return std::make_unique<Finding>(mk("violation", q.what + " (with " + name(v) + ")"));
            if (must && !q.reach && wantDone && !q.done && !q.ret && (eh || C.opts.count("exceptions"))) return std::make_unique<Finding>(mk("violation", "the operation fails with an exception (with " + name(v) + ")"));
            return nullptr;
        };
        std::vector<uint64_t> pv, sv, zv, ov; for (unsigned i = 0; i < F->arg_size(); ++i) { pv.push_back(primes[i % 32]); sv.push_back(3 + 2 * i); zv.push_back(0); ov.push_back(1); }
        // cheap: on what is left of the function
        for (auto* v : {&pv, &sv, &zv, &ov}) if (auto f = tryOn(res, *v, false)) return *f;
        auto cand = interesting(*res);
        for (auto* bv : {&pv, &sv}) for (unsigned i = 0; i < cand.size(); ++i) for (auto c : cand[i]) { auto v = *bv; v[i] = c; if (auto f = tryOn(res, v, false)) return *f; }
        // in full
        for (auto* v : {&pv, &sv}) if (auto f = tryOn(F, *v, true)) return *f;
        if (wantDone && !eh && !C.opts.count("exceptions")) { C.opts["exceptions"] = "1"; if (auto f = tryOn(F, sv, true)) return *f; }
    }
    return mk("undecided", "constant propagation could not decide: " + r.what + " (" + std::to_string(r.size) + " instructions left)");
}
static void sendAll(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) return; o += n; } }
int witnessRule(Ctx& C, Report& R, const std::string& id) {
    StripDebugInfo(*C.M);
    // functions of the C++ runtime library (exceptions, streams) do not touch memory other than what they are given
    for (auto& F : *C.M) if (F.isDeclaration() && !F.isIntrinsic()) { StringRef n = F.getName(); if (n.starts_with("_ZNSo") || n.starts_with("_ZNSi") || n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZStls") || n.starts_with("_ZSt16__ostream_insert") || n.starts_with("__cxa_")) F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly()); }
    if (Function* A = C.M->getFunction("aligned_alloc")) {   // the alignment of allocations is irrelevant
        auto* P = PointerType::get(C.M->getContext(), 0); FunctionCallee m = C.M->getOrInsertFunction("malloc", P, Type::getInt64Ty(C.M->getContext())); std::vector<CallBase*> cs; for (auto* U : A->users()) if (auto* CB = dyn_cast<CallBase>(U)) if (CB->getCalledOperand() == A) cs.push_back(CB);
        for (auto* CB : cs) { IRBuilder<> B(CB); CallBase* N; if (auto* II = dyn_cast<InvokeInst>(CB)) N = B.CreateInvoke(m, II->getNormalDest(), II->getUnwindDest(), {CB->getArgOperand(1)}); else N = B.CreateCall(m, {CB->getArgOperand(1)}); N->addRetAttr(Attribute::NoAlias); CB->replaceAllUsesWith(N); CB->eraseFromParent(); }
    }
    for (auto& G : C.M->globals()) if (G.isThreadLocal()) G.setThreadLocalMode(GlobalValue::NotThreadLocal);
    for (auto& F : *C.M) if (F.getIntrinsicID() == Intrinsic::threadlocal_address) { std::vector<User*> us(F.user_begin(), F.user_end()); for (auto* U : us) if (auto* CB = dyn_cast<CallBase>(U)) { CB->replaceAllUsesWith(CB->getArgOperand(0)); CB->eraseFromParent(); } }
    for (auto& F : *C.M) {   // queries of the processor's features (inline assembler without access to memory) answer "none"; the variants for other processors have witnesses of their own
        std::vector<CallBase*> as; for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (CB->isInlineAsm() && isa<CallInst>(CB)) { bool mem = false; for (auto& A : CB->args()) if (A->getType()->isPointerTy()) mem = true; if (!mem) as.push_back(CB); }
        for (auto* CB : as) { if (!CB->getType()->isVoidTy()) CB->replaceAllUsesWith(Constant::getNullValue(CB->getType())); else if (CB->mayHaveSideEffects() && !cast<InlineAsm>(CB->getCalledOperand())->getAsmString().empty()) continue; CB->eraseFromParent(); }
        std::vector<IntrinsicInst*> ld; for (auto& I : instructions(F)) if (auto* II = dyn_cast<IntrinsicInst>(&I)) if (II->getCalledFunction()->getName().starts_with("llvm.x86.sse3.ldu") || II->getCalledFunction()->getName().starts_with("llvm.x86.avx.ldu")) ld.push_back(II);
        for (auto* II : ld) { IRBuilder<> B(II); II->replaceAllUsesWith(B.CreateAlignedLoad(II->getType(), II->getArgOperand(0), Align(1))); II->eraseFromParent(); }
        std::vector<IntrinsicInst*> vz; for (auto& I : instructions(F)) if (auto* II = dyn_cast<IntrinsicInst>(&I)) if (II->getCalledFunction()->getName().starts_with("llvm.x86.avx.vzero")) vz.push_back(II);
        for (auto* II : vz) II->eraseFromParent();
    }
    for (auto& F : *C.M) {   // the witnesses are sequential: atomic operations are plain ones
        std::vector<Instruction*> at; for (auto& I : instructions(F)) if (I.isAtomic()) at.push_back(&I);
        for (auto* I : at) { if (auto* X = dyn_cast<AtomicRMWInst>(I)) lowerAtomicRMWInst(X); else if (auto* X = dyn_cast<AtomicCmpXchgInst>(I)) lowerAtomicCmpXchgInst(X); else if (auto* X = dyn_cast<LoadInst>(I)) X->setAtomic(AtomicOrdering::NotAtomic); else if (auto* X = dyn_cast<StoreInst>(I)) X->setAtomic(AtomicOrdering::NotAtomic); else if (isa<FenceInst>(I)) I->eraseFromParent(); }
    }
    std::string pre = "W_" + id + "_"; int n = 0, forAll = 0;
    std::vector<Function*> ws; for (auto& F : *C.M) if (!F.isDeclaration() && F.getName().starts_with(pre)) if (!C.opts.count("only") || F.getName().contains(C.opts["only"])) ws.push_back(&F);
    for (auto& G : C.M->globals()) if (!G.isConstant() && G.hasInitializer() && !G.isExternallyInitialized() && !G.use_empty()) { bool loads = true; for (auto* U : G.users()) if (!isa<LoadInst>(U)) loads = false; if (loads) { G.setConstant(true); if (!G.hasDefinitiveInitializer()) G.setLinkage(GlobalValue::InternalLinkage); } }   // variables which nothing writes
    for (auto* W : ws) for (auto& A : W->args()) if (A.getType()->isPointerTy()) A.addAttr(Attribute::NoAlias);   // the inputs of a witness are no objects of the library
    std::vector<Finding> res(ws.size()); std::vector<double> secs(ws.size(), 0);
    bool serial = C.opts.count("trace") || C.opts.count("dump") || C.opts.count("dumpstep") || ws.size() == 1;
    double limit = C.opts.count("wlimit") ? atof(C.opts["wlimit"].c_str()) : 420;
    typedef std::chrono::steady_clock CL; auto begin = CL::now(); double total = C.opts.count("total") ? atof(C.opts["total"].c_str()) : 600;
    if (serial) for (size_t i = 0; i < ws.size(); ++i) res[i] = decideWitness(C, ws[i]);
    else {   // one process per witness, as many at a time as there are processors
        struct Kid { pid_t pid; int fd; size_t i; std::string got; CL::time_point t0; }; std::vector<Kid> kids; size_t next = 0; unsigned cores = std::max(1u, std::thread::hardware_concurrency());
        while (next < ws.size() || !kids.empty()) {
            while (next < ws.size() && kids.size() < cores) {
                int p[2]; if (pipe(p)) break; fflush(nullptr); pid_t k = fork();
                if (k == 0) { close(p[0]); Finding f = decideWitness(C, ws[next]); sendAll(p[1], f.status + "\n" + f.detail + "\n\x01"); close(p[1]); _exit(0); }
                close(p[1]); kids.push_back({k, p[0], next++, "", CL::now()});
            }
            std::vector<pollfd> pf; for (auto& k : kids) pf.push_back({k.fd, POLLIN, 0}); poll(pf.data(), pf.size(), 500);
            for (size_t j = kids.size(); j-- > 0;) {
                Kid& k = kids[j]; bool end = false; double t = std::chrono::duration<double>(CL::now() - k.t0).count();
                if (pf[j].revents) { char b[4096]; ssize_t m = read(k.fd, b, sizeof(b)); if (m > 0) k.got.append(b, m); else end = true; }
                if (!end && (t > limit || std::chrono::duration<double>(CL::now() - begin).count() > total)) { kill(k.pid, SIGKILL); end = true; k.got.clear(); }
                if (!end) continue;
                close(k.fd); int st; waitpid(k.pid, &st, 0); secs[k.i] = t; Finding f{"undecided", ws[k.i]->getName().substr(2).str(), "witness", k.got.empty() ? "time limit reached" : "the analysis of this witness failed"};
                size_t e = k.got.find('\x01'), l = k.got.find('\n'); if (e != std::string::npos && l < e) { f.status = k.got.substr(0, l); f.detail = k.got.substr(l + 1, e - l - 2); }
                res[k.i] = f; kids.erase(kids.begin() + j);
            }
        }
    }
    for (size_t i = 0; i < ws.size(); ++i) { ++n; if (C.opts.count("times")) errs() << res[i].key << " " << res[i].status << " " << secs[i] << "\n"; if (res[i].status == "ok") ++forAll; R.items.push_back(res[i]); }
    R.counts["witnesses"] += n; R.counts["decided for all values"] += forAll;
    if (!n) R.notes.push_back("no witness unit for " + id + " could be built against the library's headers");
    return n;
}
RULE(F02) { witnessRule(C, R, "F02"); }
RULE(F03) { witnessRule(C, R, "F03"); }
RULE(F04) { witnessRule(C, R, "F04"); }
RULE(F05) { witnessRule(C, R, "F05"); }
RULE(W02) { witnessRule(C, R, "W02"); }
RULE(W03) { witnessRule(C, R, "W03"); }
RULE(W04) { witnessRule(C, R, "W04"); }
RULE(R05) { witnessRule(C, R, "R05"); }
RULE(W06) { witnessRule(C, R, "W06"); }
RULE(W05) { witnessRule(C, R, "W05"); }
RULE(R06) { witnessRule(C, R, "R06"); }
RULE(S01) { witnessRule(C, R, "S01"); }
RULE(T01) { witnessRule(C, R, "T01"); }
RULE(E01) { witnessRule(C, R, "E01"); }
RULE(P01) { witnessRule(C, R, "P01"); }
RULE(P02) { witnessRule(C, R, "P02"); }
RULE(C01) { witnessRule(C, R, "C01"); }
RULE(K01) { witnessRule(C, R, "K01"); }
RULE(D01) { witnessRule(C, R, "D01"); }
RULE(D02) { witnessRule(C, R, "D02"); }
RULE(D03) { witnessRule(C, R, "D03"); }
RULE(P03) { witnessRule(C, R, "P03"); }
RULE(F06) { witnessRule(C, R, "F06"); }
RULE(M01) { witnessRule(C, R, "M01"); }
RULE(X02) { witnessRule(C, R, "X02"); }
RULE(G01) { witnessRule(C, R, "G01"); }
RULE(X01) { witnessRule(C, R, "X01"); }
RULE(U02) { witnessRule(C, R, "U02"); }
RULE(U01) { witnessRule(C, R, "U01"); }
