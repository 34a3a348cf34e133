#include "core.h"
// debugging aid: --rule DUMP --opt fn=<substring of the demangled name> prints the deep clone
RULE(DUMP) {
    std::string want = C.opts["fn"];
    std::vector<Function*> fs;
    for (auto* F : repoFunctions(C)) if (C.name(F).find(want) != std::string::npos) fs.push_back(F);
    for (auto* F : fs) { errs() << C.name(F) << " " << C.fnLoc(F) << "\n"; }
    if (C.opts.count("shallow")) { for (auto* F : fs) { simplifyFunction(*F); outs() << *F; } return; }
    if (!C.opts.count("listonly")) for (auto* F : fs) { bool tr; InlineOpts o; o.instCombine = C.opts.count("ic"); auto* N = deepClone(C, F, o, &tr); errs() << "insts " << N->getInstructionCount() << " trunc " << tr << "\n"; outs() << *N; }
}
