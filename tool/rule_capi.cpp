#include "core.h"
#include "throws.h"
// The C API: every function with C linkage that is defined in Src/libCZIAPI.
std::vector<Function*> capiRoots(Ctx& C) {
    std::vector<Function*> v;
    for (auto* F : repoFunctions(C)) {
        if (F->hasLocalLinkage()) continue;
        if (C.qname(F).find("libCZI_") != 0 || C.qname(F).find("::") != std::string::npos) continue;
        if (C.file(F).find("Src/libCZIAPI/") != 0) continue;
        v.push_back(F);
    }
    return v;
}
RULE(A01) {
    ThrowAnalysis T(C);
    auto roots = capiRoots(C);
    R.counts["entry points"] = roots.size();
    int calls = 0;
    for (auto* F : roots) {
        for (auto& I : instructions(*F)) if (isa<CallBase>(I)) ++calls;
        auto& inf = T.info[F];
        std::string key = "exception escape " + C.qname(F);
        if (inf.types.empty()) { R.ok(key, C.fnLoc(F), "no exception type can leave the function"); continue; }
        std::string d;
        auto& t = *inf.types.begin();
        R.bad(key, C.loc(t.second), "exception of type " + (t.first == "STD" ? std::string("std::exception (standard library)") : C.dem(t.first)) + " can leave the function:" + T.chain(F, t.first));
    }
    R.counts["call sites in entry points"] = calls;
    if (roots.size() < 40) R.error("fewer C entry points than confirmed by hand");
}
