#include "core.h"
#include "llvm/BinaryFormat/Dwarf.h"
// R04: a (pointer, size) pair handed out by a segment reader is backed by a buffer into which exactly 'size' bytes were read,
//      or size is zero, on every path to a normal return.
static const char* READ = "libCZI::IStream::Read";
struct PairField { std::string name, sizeName; uint64_t poff, soff, sbytes; };

static const DIType* strip(const DIType* T) {
    while (auto* D = dyn_cast_or_null<DIDerivedType>(T)) { if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type || D->getTag() == dwarf::DW_TAG_volatile_type) T = D->getBaseType(); else break; }
    return T;
}
static std::vector<PairField> pairsOf(const DICompositeType* S) {
    std::vector<PairField> v; const DIDerivedType* lastP = nullptr;
    for (auto* e : S->getElements()) if (auto* m = dyn_cast_or_null<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member) {
        auto* t = strip(m->getBaseType());
        auto* d = dyn_cast_or_null<DIDerivedType>(t); auto* b = dyn_cast_or_null<DIBasicType>(t);
        if (d && d->getTag() == dwarf::DW_TAG_pointer_type && !d->getBaseType()) lastP = m;
        else { if (lastP && b) v.push_back({lastP->getName().str(), m->getName().str(), lastP->getOffsetInBits() / 8, m->getOffsetInBits() / 8, b->getSizeInBits() / 8}); lastP = nullptr; }
    }
    return v;
}

RULE(R04) {
    int n = 0, fns = 0;
    const DataLayout& DL = C.M->getDataLayout();
    for (auto* F : readerFunctions(C)) {
        auto* SP = F->getSubprogram(); if (!SP || !SP->getType() || SP->getType()->getTypeArray().size() == 0) continue;
        auto* RT = dyn_cast_or_null<DICompositeType>(strip(SP->getType()->getTypeArray()[0]));
        if (!RT) continue; auto pairs = pairsOf(RT); if (pairs.empty()) continue;
        ++fns;
        InlineOpts o; Function* N = deepClone(C, F, o); DominatorTree DT(*N);
        Value* sret = nullptr; for (auto& a : N->args()) if (a.hasStructRetAttr()) sret = &a;
        EdgeSet noret; stopAtNoReturn(C, N, noret);
        std::vector<CallBase*> reads; for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) if (calleeName(C, CB) == READ) reads.push_back(CB);
        for (auto& p : pairs) {
            std::string key = p.name + "/" + p.sizeName + " returned by " + C.qname(F);
            std::vector<std::pair<Value*, Instruction*>> ptrs, sizes;
            if (sret) {
                for (auto& I : instructions(*N)) if (auto* S = dyn_cast<StoreInst>(&I)) {
                    APInt off(64, 0); Value* b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
                    if (b != sret) continue;
                    if (off == p.poff) ptrs.push_back({S->getValueOperand(), S}); else if (off == p.soff) sizes.push_back({S->getValueOperand(), S});
                }
            } else for (auto& I : instructions(*N)) if (auto* Rt = dyn_cast<ReturnInst>(&I)) if (Value* v = Rt->getReturnValue()) {
                std::function<void(Value*)> unpack = [&](Value* x) { while (auto* IV = dyn_cast<InsertValueInst>(x)) { if (IV->getNumIndices() == 1) { if (IV->getIndices()[0] == p.poff / 8) ptrs.push_back({IV->getInsertedValueOperand(), Rt}); else if (IV->getIndices()[0] == p.soff / 8) sizes.push_back({IV->getInsertedValueOperand(), Rt}); } x = IV->getAggregateOperand(); } };
                unpack(v);
            }
            ++n;
            if (sizes.empty() || ptrs.empty()) { R.undecided(key, C.fnLoc(F), "the stores of the pointer/size pair were not found"); continue; }
            bool bad = false, und = false; std::string why; std::string where = C.fnLoc(F);
            for (auto& sz : sizes) {
                Value* V = stripCasts(sz.first);
                if (auto* k = dyn_cast<ConstantInt>(V)) { if (k->isZero()) continue; }
                EdgeSet cut = noret; bool anyRead = false, wrongBuf = false; 
                for (auto& B : *N) for (auto* T : successors(&B)) {
                    std::vector<Fact> fs; factsAtEdge(&B, T, fs);
                    for (auto& f : fs) {
                        auto* CI = dyn_cast<ICmpInst>(f.cond); if (!CI) continue;
                        // V == 0
                        for (int s = 0; s < 2; ++s) { auto* z = dyn_cast<ConstantInt>(CI->getOperand(1 - s)); auto pred = s ? CI->getSwappedPredicate() : CI->getPredicate(); if (!f.truth) pred = CmpInst::getInversePredicate(pred);
                            if (z && z->isZero() && sameValue(CI->getOperand(s), V) && (pred == ICmpInst::ICMP_EQ || pred == ICmpInst::ICMP_ULE)) cut.insert({&B, T}); }
                    }
                    for (auto* CB : reads) if (sameValue(CB->getArgOperand(3), V)) {
                        anyRead = true;
                        bool same = false; for (auto& q : ptrs) if (stripPtr(q.first) == stripPtr(CB->getArgOperand(2))) same = true;
                        if (!same) { wrongBuf = true; continue; }
                        for (auto& f : fs) if (factMeansComplete(f, CB->getArgOperand(4)->stripPointerCasts(), V)) cut.insert({&B, T});
                    }
                }
                // restrict to returns that this store reaches
                auto before = reachableFrom(&N->getEntryBlock(), cut);
                bool reach = before.count(sz.second->getParent());
                if (reach) { auto after = reachableFrom(sz.second->getParent(), cut); if (retIn(C, after)) {
                    bad = true; where = C.loc(sz.second);
                    why = !anyRead ? "no stream read transfers the number of bytes reported" : wrongBuf ? "the buffer that was filled is not the one handed out" : "a path reaches the return with the size neither zero nor verified to have been read completely";
                } }
            }
            if (bad) R.bad(key, where, why); else if (und) R.undecided(key, where, why); else R.ok(key, where, "size is zero or exactly that many bytes were read into the buffer");
        }
        N->eraseFromParent();
    }
    R.counts["pairs"] = n; R.counts["functions"] = fns;
    if (n == 0) R.error("no segment reader found that hands out buffers");
}

// R06: the parts of a segment follow each other without gap or overlap where the format puts them: positions of the stream reads are
// linear expressions of segment position and part sizes.
RULE(DUMPPOS) {
    for (auto* F : readerFunctions(C)) {
        InlineOpts o; Function* N = deepClone(C, F, o);
        for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) if (calleeName(C, CB) == READ) {
            auto l = linOf(CB->getArgOperand(1)); std::string s = std::to_string(l.c);
            for (auto& p : l.t) s += " + " + std::to_string(p.second) + "*" + str(p.first).substr(0, 60);
            R.ok(C.qname(F), C.loc(CB), s + "  SIZE " + str(CB->getArgOperand(3)).substr(0, 60));
        }
        N->eraseFromParent();
    }
}
