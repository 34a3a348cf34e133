#include "core.h"
// R01 / W01: every transfer of n bytes through a stream is followed, on every path that can return normally, by a test that
// the number of bytes actually transferred equals n; an exception raised by the transfer never turns into a normal return.

// facts which imply "transferred >= requested"
bool factMeansComplete(const Fact& f, Value* P, Value* S) {
    auto* CI = dyn_cast<ICmpInst>(f.cond);
    if (!CI) return false;
    for (int side = 0; side < 2; ++side) {
        Value* X = stripCasts(CI->getOperand(side)); Value* Y = CI->getOperand(1 - side);
        auto pred = side ? CI->getSwappedPredicate() : CI->getPredicate();
        if (!f.truth) pred = CmpInst::getInversePredicate(pred);
        bool isBr = false;
        if (auto* L = dyn_cast<LoadInst>(X)) isBr = L->getPointerOperand()->stripPointerCasts() == P;
        if (!isBr) continue;
        if (pred == ICmpInst::ICMP_EQ || pred == ICmpInst::ICMP_UGE || pred == ICmpInst::ICMP_SGE) { if (sameValue(Y, S)) return true; }
        // strict forms against a constant: br > n-1
        if (pred == ICmpInst::ICMP_UGT || pred == ICmpInst::ICMP_SGT) {
            auto* cy = dyn_cast<ConstantInt>(stripCasts(Y)); auto* cs = dyn_cast<ConstantInt>(stripCasts(S));
            if (cy && cs && cy->getSExtValue() == cs->getSExtValue() - 1) return true;
        }
    }
    return false;
}

void stopAtNoReturn(Ctx& C, Function* N, EdgeSet& cut) {
    for (auto& B : *N) {
        bool stop = false;
        for (auto& I : B) if (auto* CI = dyn_cast<CallInst>(&I)) if (callNeverReturns(C, CI)) { stop = true; break; }
        if (stop) for (auto* S : successors(&B)) cut.insert({&B, S});
        if (auto* II = dyn_cast<InvokeInst>(B.getTerminator())) if (callNeverReturns(C, II)) cut.insert({&B, II->getNormalDest()});
    }
}

// true if a 'ret' is in the set and executable (not behind a noreturn call of the same block)
BasicBlock* retIn(Ctx& C, const std::set<BasicBlock*>& s) {
    for (auto* B : s) {
        if (!isa<ReturnInst>(B->getTerminator())) continue;
        bool stop = false;
        for (auto& I : *B) if (auto* CI = dyn_cast<CallInst>(&I)) if (callNeverReturns(C, CI)) stop = true;
        if (!stop) return B;
    }
    return nullptr;
}

enum class Verdict { Ok, Bad, Pass /*obligation handed to the caller*/ };

static Verdict judgeCall(Ctx& C, Function* N, CallBase* CB, unsigned szArg, unsigned cntArg, std::string& why) {
    Value* S = CB->getArgOperand(szArg);
    Value* P = CB->getArgOperand(cntArg)->stripPointerCasts();
    if (auto* c = dyn_cast<ConstantInt>(S)) if (c->isZero()) return Verdict::Ok;
    EdgeSet cut; stopAtNoReturn(C, N, cut);
    // exceptional continuation
    if (auto* II = dyn_cast<InvokeInst>(CB)) {
        auto s = reachableFrom(II->getUnwindDest(), cut);
        if (auto* r = retIn(C, s)) { why = "an exception raised by the transfer can end in a normal return at " + C.loc(r->getTerminator()); return Verdict::Bad; }
    }
    if (isa<ConstantPointerNull>(P)) { why = "the number of bytes transferred is not requested (null)"; return Verdict::Bad; }
    if (isa<Argument>(P)) { why = "count is handed to the caller"; return Verdict::Pass; }
    for (auto& B : *N) for (auto* T : successors(&B)) {
        std::vector<Fact> fs; factsAtEdge(&B, T, fs);
        for (auto& f : fs) if (factMeansComplete(f, P, S)) { cut.insert({&B, T}); break; }
    }
    BasicBlock* start = nullptr; 
    if (auto* II = dyn_cast<InvokeInst>(CB)) start = II->getNormalDest();
    else {
        start = CB->getParent();
        // the branch in the very same block counts
    }
    std::set<BasicBlock*> s;
    s = reachableFrom(start, cut);
    if (auto* r = retIn(C, s)) {
        // is the count at least looked at? distinguishes messages
        why = "a normal return at " + C.loc(r->getTerminator()) + " is reachable without the test 'bytes transferred == bytes requested'";
        // transferred count escapes through a return value? -> obligation of the caller
        for (auto& I : instructions(*N)) if (auto* R = dyn_cast<ReturnInst>(&I)) if (R->getReturnValue()) {
            Value* v = stripCasts(R->getReturnValue());
            if (auto* L = dyn_cast<LoadInst>(v)) if (L->getPointerOperand()->stripPointerCasts() == P) return Verdict::Pass;
        }
        return Verdict::Bad;
    }
    return Verdict::Ok;
}

static void checkTransfers(Ctx& C, Report& R, const std::set<std::string>& stubs, const std::set<std::string>& overrideNames, const char* what) {
    std::map<Function*, int> work; // function -> caller depth
    std::set<Function*> impls;
    for (auto& kv : C.stubTargets) if (stubs.count(C.stubName[kv.first])) for (auto* t : kv.second) impls.insert(t);
    std::vector<Function*> fs;
    for (auto* F : repoFunctions(C)) {
        for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (stubs.count(calleeName(C, CB))) { fs.push_back(F); break; }
    }
    int sites = 0;
    std::set<Function*> done;
    std::vector<std::pair<Function*, int>> q; for (auto* F : fs) q.push_back({F, 0});
    while (!q.empty()) {
        auto [F, d] = q.back(); q.pop_back();
        if (!done.insert(F).second) continue;
        InlineOpts o; Function* N = deepClone(C, F, o);
        bool pass = false; int ord = 0;
        for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) {
            if (!stubs.count(calleeName(C, CB))) continue;
            ++ord;
            std::string why; 
            auto v = judgeCall(C, N, CB, 3, 4, why);
            std::string key = std::string(what) + " in " + C.qname(F) + " #" + std::to_string(ord);
            std::string extra; raw_string_ostream os(extra);
            if (auto* c = dyn_cast<ConstantInt>(CB->getArgOperand(3))) os << " (" << c->getZExtValue() << " bytes)";
            if (v == Verdict::Ok) { R.ok(key, C.loc(CB), "complete transfer enforced" + os.str()); sites++; }
            else if (v == Verdict::Bad) { R.bad(key, C.loc(CB), why + os.str()); sites++; }
            else {
                if (impls.count(F)) { R.ok(key, C.loc(CB), "forwarding implementation of the same interface, count passed through"); sites++; }
                else pass = true;
            }
        }
        N->eraseFromParent();
        if (pass) {
            std::set<Function*> callers;
            for (auto* U : F->users()) if (auto* CB = dyn_cast<CallBase>(U)) if (calledFn(CB) == F && !CB->getFunction()->hasFnAttribute("czi-clone")) callers.insert(CB->getFunction());
            if (callers.empty() || d > 4) R.bad(std::string(what) + " in " + C.qname(F), C.fnLoc(F), "the transferred count is handed out and no caller tests it");
            for (auto* c : callers) q.push_back({c, d + 1});
        }
    }
    R.counts["transfer sites"] = sites;
    R.counts["functions"] = fs.size();
}

RULE(R01) {
    checkTransfers(C, R, {"libCZI::IStream::Read", "libCZI::IInputOutputStream::Read"}, {}, "stream read");
    if (R.counts["transfer sites"] < 6) R.error("fewer stream-read sites than the format has segment kinds");
}
RULE(W01) {
    checkTransfers(C, R, {"libCZI::IOutputStream::Write", "libCZI::IInputOutputStream::Write"}, {}, "stream write");
    if (R.counts["transfer sites"] < 1) R.error("no stream-write site found");
}
