#include "core.h"
#include "llvm/BinaryFormat/Dwarf.h"
std::vector<Function*> capiRoots(Ctx& C);

static const DIType* argType(Function* F, unsigned i) {
    auto* SP = F->getSubprogram(); if (!SP || !SP->getType()) return nullptr;
    auto ts = SP->getType()->getTypeArray();
    if (i + 1 >= ts.size()) return nullptr;
    return ts[i + 1];
}
static std::string tname(const DIType* t) { return t ? t->getName().str() : ""; }
static const DIType* stripCV(const DIType* t) {
    while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type) t = d->getBaseType(); else break; }
    return t;
}
static bool isHandle(const DIType* t) {
    t = stripCV(t);
    if (auto* d = dyn_cast_or_null<DIDerivedType>(t)) if (d->getTag() == dwarf::DW_TAG_typedef) {
        auto* b = dyn_cast_or_null<DIDerivedType>(d->getBaseType());
        if (b && b->getTag() == dwarf::DW_TAG_typedef && b->getName() == "ObjectHandle") return true;
    }
    return false;
}
static const DIType* pointee(const DIType* t) {
    t = stripCV(t);
    if (auto* d = dyn_cast_or_null<DIDerivedType>(t)) if (d->getTag() == dwarf::DW_TAG_pointer_type) return stripCV(d->getBaseType());
    return nullptr;
}
static const DIType* memberAt(const DIType* st, uint64_t off) {
    while (auto* d = dyn_cast_or_null<DIDerivedType>(st)) { if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type) st = d->getBaseType(); else break; }
    auto* ct = dyn_cast_or_null<DICompositeType>(st); if (!ct) return nullptr;
    for (auto* e : ct->getElements()) if (auto* m = dyn_cast_or_null<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member && m->getOffsetInBits() == off * 8) return m->getBaseType();
    return nullptr;
}

static bool nonNullFact(const Fact& f, Value* V) {
    auto* CI = dyn_cast<ICmpInst>(f.cond);
    if (!CI) return false;
    for (int s = 0; s < 2; ++s) {
        Value* X = CI->getOperand(s); auto* K = dyn_cast<Constant>(CI->getOperand(1 - s));
        if (!K || !K->isNullValue()) continue;
        Value* Y = X;
        if (auto* I2P = dyn_cast<IntToPtrInst>(Y)) Y = I2P->getOperand(0);
        if (auto* P2I = dyn_cast<PtrToIntInst>(Y)) Y = P2I->getOperand(0);
        Value* W = V; if (auto* I2P = dyn_cast<IntToPtrInst>(W)) W = I2P->getOperand(0);
        bool same = Y == W || (isa<LoadInst>(Y) && isa<LoadInst>(W) && sameValue(Y, W));
        if (!same) continue;
        auto pred = s ? CI->getSwappedPredicate() : CI->getPredicate();
        if (!f.truth) pred = CmpInst::getInversePredicate(pred);
        if (pred == ICmpInst::ICMP_NE || pred == ICmpInst::ICMP_UGT) return true;
    }
    return false;
}
static bool guardedNonNull(DominatorTree& DT, Instruction* At, Value* V) {
    for (auto& f : dominatingFacts(DT, At->getParent())) if (nonNullFact(f, V)) return true;
    return false;
}
// all pointers derived from V by address arithmetic
static void derived(Value* V, std::vector<Value*>& out, std::set<Value*>& seen) {
    if (!seen.insert(V).second) return;
    out.push_back(V);
    for (auto* U : V->users()) {
        if (isa<GetElementPtrInst>(U) && cast<GetElementPtrInst>(U)->getPointerOperand() == V) derived(U, out, seen);
        else if (isa<BitCastInst>(U)) derived(U, out, seen);
        else if (isa<PHINode>(U) || isa<SelectInst>(U)) derived(U, out, seen);
    }
}

static std::set<std::string> nullTolerant = {"free", "realloc", "operator delete", "operator delete[]"};

static void checkPointerArg(Ctx& C, Report& R, Function* F, Function* N, DominatorTree& DT, unsigned ai, int& derefs) {
    Argument* A = N->getArg(ai);
    std::string pname = A->getName().empty() ? std::to_string(ai) : A->getName().str();
    if (auto* SP = F->getSubprogram()) for (auto* v : SP->getRetainedNodes()) if (auto* lv = dyn_cast<DILocalVariable>(v)) if (lv->getArg() == ai + 1) pname = lv->getName().str();
    std::string key = C.qname(F) + " parameter " + pname;
    std::vector<Value*> ds; std::set<Value*> seen; derived(A, ds, seen);
    Instruction* firstBad = nullptr; std::string why; int n = 0; bool und = false;
    auto deref = [&](Instruction* I, const char* how) {
        ++n; ++derefs;
        if (!guardedNonNull(DT, I, A)) { if (!firstBad) { firstBad = I; why = how; } }
    };
    for (auto* D : ds) for (auto* U : D->users()) {
        if (auto* L = dyn_cast<LoadInst>(U)) deref(L, "read");
        else if (auto* S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == D) deref(S, "written"); }
        else if (auto* CB = dyn_cast<CallBase>(U)) {
            if (isa<DbgInfoIntrinsic>(CB) || CB->isLifetimeStartOrEnd() || isa<AssumeInst>(CB)) continue;
            if (auto* MI = dyn_cast<AnyMemIntrinsic>(CB)) { deref(CB, "accessed by memory intrinsic"); continue; }
            Function* T = calledFn(CB);
            std::string tn = calleeName(C, CB);
            if (nullTolerant.count(tn)) continue;
            if (callNeverReturns(C, CB)) continue;
            // passed to an external function or a virtual function: needs to be valid
            deref(CB, ("passed to " + (tn.empty() ? std::string("callback") : tn)).c_str());
        }
    }
    if (firstBad) R.bad("null deref " + key, C.loc(firstBad), "pointer argument '" + pname + "' of " + C.qname(F) + " is " + why + " on a path where it was not tested for null");
    else if (n) R.ok("null deref " + key, C.fnLoc(F), std::to_string(n) + " uses, all behind a non-null test");
}

struct HandleUse { std::string typedefName; uint64_t magic; std::string where, fn; bool creation; };

static void analyse(Ctx& C, Report& R, bool nullRule, bool handleRule) {
    auto roots = capiRoots(C);
    R.counts["entry points"] = roots.size();
    if (roots.size() < 40) R.error("fewer C entry points than confirmed by hand");
    std::vector<HandleUse> uses; int derefs = 0, handleDerefs = 0, handleParams = 0, ptrParams = 0;
    for (auto* F : roots) {
        InlineOpts o; o.maxTotal = 40000;
        o.allow = [&](Function* T, int d) { 
            const std::string& n = C.name(T);
            if (n.find("rapidjson::") != std::string::npos || n.find("regex") != std::string::npos || n.find("std::__detail::") != std::string::npos) return false;
            std::string f = C.file(T);
            if (f.find("pugixml") != std::string::npos) return false;
            if (f.find("Src/libCZIAPI/") != 0 && T->getInstructionCount() > 400) return false;
            return true; };
        Function* N = deepClone(C, F, o);
        DominatorTree DT(*N);
        if (C.opts.count("v")) errs() << C.qname(F) << " " << N->getInstructionCount() << "\n";
        if (nullRule) for (unsigned i = 0; i < N->arg_size(); ++i) if (N->getArg(i)->getType()->isPointerTy()) { ++ptrParams; checkPointerArg(C, R, F, N, DT, i, derefs); }
        // handles
        for (unsigned i = 0; i < N->arg_size(); ++i) if (isHandle(argType(F, i))) ++handleParams;
        std::map<Value*, std::vector<Instruction*>> byHandle;
        for (auto& I : instructions(*N)) if (auto* P = dyn_cast<IntToPtrInst>(&I)) byHandle[P->getOperand(0)].push_back(P);
        int ord = 0;
        for (auto& kv : byHandle) {
            Value* H = kv.first;
            // which typedef is it?
            std::string td = "?";
            if (auto* A = dyn_cast<Argument>(H)) { if (!isHandle(argType(F, A->getArgNo()))) continue; td = tname(stripCV(argType(F, A->getArgNo()))); }
            else if (auto* L = dyn_cast<LoadInst>(H)) {
                APInt off(64, 0); Value* base = L->getPointerOperand()->stripAndAccumulateConstantOffsets(C.M->getDataLayout(), off, true);
                bool variable = false;
                if (auto* G = dyn_cast<GetElementPtrInst>(base)) { variable = true; base = G->getPointerOperand(); }
                if (auto* A = dyn_cast<Argument>(base)) {
                    auto* pt = pointee(argType(F, A->getArgNo()));
                    const DIType* mt = isHandle(pt) ? pt : memberAt(pt, off.getZExtValue());
                    if (mt && isHandle(mt)) td = tname(stripCV(mt));
                }
            } else continue;
            if (td == "?") continue;
            ++ord;
            std::string key = C.qname(F) + " handle " + td + (isa<Argument>(H) ? "" : " (from memory)");
            // uses
            std::set<uint64_t> magics; Instruction* badNull = nullptr; Instruction* badMagic = nullptr; int n = 0;
            std::vector<LoadInst*> magicLoads; std::vector<Instruction*> other; Value* anyPtr = nullptr;
            for (auto* P : kv.second) {
                std::vector<Value*> ds; std::set<Value*> seen; derived(P, ds, seen);
                for (auto* D : ds) {
                    APInt off(64, 0); Value* b = D->stripAndAccumulateConstantOffsets(C.M->getDataLayout(), off, true);
                    bool atZero = b == P && off.isZero();
                    for (auto* U : D->users()) {
                        auto* UI = dyn_cast<Instruction>(U); if (!UI) continue;
                        if (auto* L = dyn_cast<LoadInst>(UI)) { ++n; if (atZero && L->getType()->isIntegerTy(32)) magicLoads.push_back(L); else other.push_back(L); }
                        else if (auto* S = dyn_cast<StoreInst>(UI)) { if (S->getPointerOperand() == D) { ++n; other.push_back(S); } }
                        else if (auto* CB = dyn_cast<CallBase>(UI)) { if (!isa<DbgInfoIntrinsic>(CB) && !CB->isLifetimeStartOrEnd() && !isa<AssumeInst>(CB)) { ++n; other.push_back(CB); } }
                        else if (auto* X = dyn_cast<AtomicRMWInst>(UI)) { ++n; other.push_back(X); }
                    }
                }
            }
            handleDerefs += n;
            auto magicFact = [&](Instruction* At, uint64_t& k) {
                for (auto& f : dominatingFacts(DT, At->getParent())) {
                    auto* CI = dyn_cast<ICmpInst>(f.cond); if (!CI) continue;
                    for (int s = 0; s < 2; ++s) {
                        auto* K = dyn_cast<ConstantInt>(CI->getOperand(1 - s)); if (!K) continue;
                        auto* L = dyn_cast<LoadInst>(CI->getOperand(s)); if (!L) continue;
                        bool isM = false; for (auto* m : magicLoads) if (m == L || sameValue(m, L)) isM = true;
                        if (!isM) continue;
                        auto pred = CI->getPredicate(); if (!f.truth) pred = CmpInst::getInversePredicate(pred);
                        if (pred == ICmpInst::ICMP_EQ) { k = K->getZExtValue(); return true; }
                    }
                }
                return false;
            };
            for (auto* L : magicLoads) if (!guardedNonNull(DT, L, H)) badNull = L;
            for (auto* I : other) {
                if (!guardedNonNull(DT, I, H)) badNull = badNull ? badNull : I;
                uint64_t k; if (magicFact(I, k)) { magics.insert(k); uses.push_back({td, k, C.loc(I), C.qname(F), false}); }
                else badMagic = badMagic ? badMagic : I;
            }
            if (handleRule) {
                if (badNull) R.bad("handle null " + key, C.loc(badNull), "handle dereferenced without being compared to the invalid handle value first");
                else if (badMagic) R.bad("handle magic " + key, C.loc(badMagic), "object behind the handle is used on a path where its type tag was not verified");
                else if (magics.size() > 1) R.bad("handle magic " + key, C.fnLoc(F), "one handle is accepted with several different type tags");
                else R.ok("handle " + key, C.fnLoc(F), std::to_string(n) + " accesses behind null test and tag test");
            }
        }
        // a handle parameter which is never turned into a pointer is not validated -> its use must at least not succeed silently; informational
        // creations: store of ptrtoint(new object) through an out parameter
        for (auto& I : instructions(*N)) if (auto* S = dyn_cast<StoreInst>(&I)) {
            auto* P2I = dyn_cast<PtrToIntInst>(S->getValueOperand()); if (!P2I) continue;
            APInt off(64, 0); Value* base = S->getPointerOperand()->stripAndAccumulateConstantOffsets(C.M->getDataLayout(), off, true);
            auto* A = dyn_cast<Argument>(base); if (!A) continue;
            auto* pt = pointee(argType(F, A->getArgNo()));
            const DIType* mt = isHandle(pt) ? pt : memberAt(pt, off.getZExtValue());
            if (!mt || !isHandle(mt)) continue;
            std::string td = tname(stripCV(mt));
            // tag stored into the new object
            Value* obj = P2I->getOperand(0)->stripPointerCasts();
            std::set<uint64_t> tags; std::vector<Value*> ds; std::set<Value*> seen; derived(obj, ds, seen);
            for (auto* D : ds) for (auto* U : D->users()) if (auto* S2 = dyn_cast<StoreInst>(U)) if (S2->getPointerOperand() == D) {
                APInt o2(64, 0); Value* b2 = D->stripAndAccumulateConstantOffsets(C.M->getDataLayout(), o2, true);
                if (b2 == obj && o2.isZero()) if (auto* K = dyn_cast<ConstantInt>(S2->getValueOperand())) tags.insert(K->getZExtValue());
            }
            if (tags.size() == 1) uses.push_back({td, *tags.begin(), C.loc(S), C.qname(F), true});
            else if (handleRule) R.undecided("handle creation " + C.qname(F) + " " + td, C.loc(S), "tag of the created object not resolved (" + std::to_string(tags.size()) + ")");
        }
        N->eraseFromParent();
    }
    R.counts["pointer parameters"] = ptrParams; R.counts["pointer accesses"] = derefs;
    R.counts["handle parameters"] = handleParams; R.counts["handle accesses"] = handleDerefs;
    if (nullRule && derefs < 100) R.error("too few pointer accesses seen");
    if (handleRule) {
        if (handleDerefs < 50) R.error("too few handle accesses seen");
        std::map<std::string, std::map<uint64_t, std::vector<HandleUse*>>> m; std::map<uint64_t, std::set<std::string>> inv;
        for (auto& u : uses) { if (u.typedefName == "?") continue; m[u.typedefName][u.magic].push_back(&u); inv[u.magic].insert(u.typedefName); }
        R.counts["handle kinds"] = m.size();
        for (auto& t : m) {
            if (t.second.size() == 1) {
                uint64_t k = t.second.begin()->first;
                if (k == 0) R.bad("tag of " + t.first, t.second.begin()->second[0]->where, "type tag is zero, the value which marks invalidated objects");
                else R.ok("tag of " + t.first, t.second.begin()->second[0]->where, "one tag used by " + std::to_string(t.second.begin()->second.size()) + " uses");
            } else {
                std::string d; for (auto& x : t.second) { d += " tag " + std::to_string(x.first) + " in"; std::set<std::string> fns; for (auto* u : x.second) fns.insert(u->fn); for (auto& f : fns) d += " " + f; d += ";"; }
                // the minority is the culprit
                auto* mn = &*t.second.begin(); for (auto& x : t.second) if (x.second.size() < mn->second.size()) mn = &x;
                R.bad("tag of " + t.first, mn->second[0]->where, "functions disagree about the type tag of this handle kind:" + d);
            }
        }
        for (auto& x : inv) if (x.second.size() > 1) {
            std::string d; for (auto& s : x.second) d += " " + s;
            R.bad("shared tag" + d, "Src/libCZIAPI/src/sharedptrwrapper.h", "handle kinds cannot be told apart (same type tag):" + d);
        }
    }
}
RULE(A02) { analyse(C, R, true, false); }
RULE(A03) { analyse(C, R, false, true); }
