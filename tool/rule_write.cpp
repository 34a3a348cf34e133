#include "core.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
static bool isWrite(const std::string& n) { return n == "libCZI::IOutputStream::Write" || n == "libCZI::IInputOutputStream::Write"; }
static std::string linStr(const Lin& l) { std::string s = std::to_string(l.c); for (auto& p : l.t) if (p.second) s += " + " + std::to_string(p.second) + "*" + str(p.first).substr(0, 70); return s; }
// the number of bytes transferred equals the number requested behind every write that returns (W01), so the count is replaced by it
static void assumeComplete(Ctx& C, Function* N) {
    std::vector<CallBase*> ws; for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) if (isWrite(calleeName(C, CB))) ws.push_back(CB);
    for (auto* CB : ws) {
        Value* p = CB->getArgOperand(4); if (isa<ConstantPointerNull>(p)) continue;
        Instruction* at = nullptr;
        if (auto* II = dyn_cast<InvokeInst>(CB)) { BasicBlock* D = II->getNormalDest(); if (!D->getSinglePredecessor()) D = SplitEdge(II->getParent(), D); at = &*D->getFirstInsertionPt(); } else at = CB->getNextNode();
        new StoreInst(CB->getArgOperand(3), p, at);
    }
}
RULE(DUMPW) {
    for (auto* F : repoFunctions(C)) {
        if (C.name(F).find(C.opts["fn"]) == std::string::npos) continue;
        InlineOpts o; Function* N = deepClone(C, F, o); assumeComplete(C, N);
        Function* N2 = deepClone(C, N, o);
        for (auto& I : instructions(*N2)) if (auto* CB = dyn_cast<CallBase>(&I)) { auto n = calleeName(C, CB);
            if (isWrite(n)) R.ok("WRITE " + linStr(linOf(CB->getArgOperand(1))), C.loc(CB), "SIZE " + linStr(linOf(CB->getArgOperand(3))));
            else if (n.find("operator()") != std::string::npos || CB->isIndirectCall()) R.ok("INDIRECT " + n, C.loc(CB), str(CB).substr(0,100)); }
        if (C.opts.count("ir")) outs() << *N2;
    }
}
