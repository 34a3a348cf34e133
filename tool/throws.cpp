#include "throws.h"
static std::string tiName(Value* V) {
    if (isa<ConstantPointerNull>(V)) return "*";
    if (auto* G = dyn_cast<GlobalVariable>(V->stripPointerCasts())) return G->getName().str();
    return "?";
}
bool ThrowAnalysis::derives(const std::string& t, const std::string& base) {
    if (t == base) return true;
    if (base == "_ZTISt9exception") {
        // everything thrown by the standard library derives from std::exception
        if (t == "STD" || t.compare(0, 6, "_ZTISt") == 0 || t.compare(0, 7, "_ZTINSt") == 0) return true;
    }
    auto it = basesOf.find(t);
    if (it != basesOf.end()) for (auto& b : it->second) if (derives(b, base)) return true;
    return false;
}
std::set<std::string> ThrowAnalysis::calleeTypes(const CallBase* CB) {
    std::set<std::string> r;
    if (CB->doesNotThrow()) return r;
    if (auto* F = calledFn(CB)) {
        StringRef n = F->getName();
        if (n == "__cxa_throw") { r.insert(tiName(CB->getArgOperand(1))); return r; }
        if (n == "__cxa_rethrow") { r.insert("RETHROW"); return r; }
        if (n == "_Unwind_Resume") return r;
    }
    bool unknown; auto ts = possibleTargets(C, CB, unknown);
    for (auto* F : ts) {
        if (F->isDeclaration()) {
            if (F->doesNotThrow() || F->isIntrinsic()) continue;
            if (C.stubName.count(F)) continue;
            if (F->getName().starts_with("_Z")) { r.insert("STD"); }
            continue;
        }
        for (auto& t : info[F].types) r.insert(t.first);
    }
    return r;
}
ThrowAnalysis::ThrowAnalysis(Ctx& c) : C(c) {
    for (auto& G : C.M->globals()) if (G.getName().starts_with("_ZTI") && G.hasInitializer()) {
        std::function<void(Constant*)> walk = [&](Constant* k) {
            if (auto* g = dyn_cast<GlobalVariable>(k)) { if (g != &G && g->getName().starts_with("_ZTI")) basesOf[G.getName().str()].insert(g->getName().str()); return; }
            if (isa<GlobalValue>(k)) return;
            for (auto& op : k->operands()) if (auto* cc = dyn_cast<Constant>(op)) walk(cc);
        };
        walk(G.getInitializer());
    }
    bool changed = true; int it = 0;
    while (changed && it++ < 200) {
        changed = false;
        for (auto& F : *C.M) {
            if (F.isDeclaration() || F.doesNotThrow()) continue;
            auto& inf = info[&F];
            for (auto& I : instructions(F)) {
                auto* CB = dyn_cast<CallBase>(&I); if (!CB) continue;
                auto ts = calleeTypes(CB);
                if (ts.count("RETHROW")) {
                    // types caught by the handlers of this function: approximated by every type any invoke of F may raise
                    ts.erase("RETHROW");
                    for (auto& J : instructions(F)) if (auto* II = dyn_cast<InvokeInst>(&J)) for (auto& t : calleeTypes(II)) if (t != "RETHROW") ts.insert(t);
                    if (ts.empty()) ts.insert("STD");
                }
                if (auto* II = dyn_cast<InvokeInst>(CB)) {
                    auto* LP = II->getLandingPadInst();
                    for (unsigned k = 0; k < LP->getNumClauses(); ++k) {
                        if (!LP->isCatch(k)) continue;
                        std::string cl = tiName(LP->getClause(k));
                        for (auto j = ts.begin(); j != ts.end();) if (cl == "*" || derives(*j, cl)) j = ts.erase(j); else ++j;
                    }
                }
                for (auto& t : ts) if (!inf.types.count(t)) { inf.types[t] = CB; changed = true; }
            }
        }
    }
}
std::string ThrowAnalysis::chain(Function* F, const std::string& type, int maxDepth) {
    std::string s;
    std::set<Function*> seen;
    while (F && maxDepth-- > 0 && seen.insert(F).second) {
        auto it = info[F].types.find(type); if (it == info[F].types.end()) break;
        auto* CB = cast<CallBase>(it->second);
        bool u; auto ts = possibleTargets(C, CB, u);
        Function* next = nullptr;
        for (auto* t : ts) if (!t->isDeclaration() && info[t].types.count(type)) { next = t; break; }
        std::string nm = next ? C.qname(next) : calleeName(C, CB);
        s += " -> " + nm + " (called at " + C.loc(CB) + ")";
        F = next;
    }
    return s;
}
