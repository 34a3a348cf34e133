#include "core.h"
#include <cstring>
#include "llvm/BinaryFormat/Dwarf.h"
// R02 segment signature, R03 bounded accesses, R04 reported sizes

static const char* READ = "libCZI::IStream::Read";

std::vector<Function*> readerFunctions(Ctx& C) {
    // functions which read from a stream (directly), defined in the library and not themselves stream implementations
    std::set<Function*> impls;
    for (auto& kv : C.stubTargets) if (C.stubName[kv.first] == READ) for (auto* t : kv.second) impls.insert(t);
    std::vector<Function*> v; std::set<Function*> direct;
    for (auto* F : repoFunctions(C)) {
        if (impls.count(F)) continue;
        for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (calleeName(C, CB) == READ) { direct.insert(F); break; }
    }
    // a helper that only forwards to Read (buffer is its own parameter) is analysed in its callers
    std::set<Function*> done; std::vector<Function*> work(direct.begin(), direct.end());
    while (!work.empty()) {
        Function* F = work.back(); work.pop_back();
        if (!done.insert(F).second) continue;
        bool helper = false;
        for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) {
            bool isR = calleeName(C, CB) == READ; Function* T = calledFn(CB);
            if (!isR) continue;
            Value* b = CB->getArgOperand(2)->stripPointerCasts();
            // at -O0 style IR the parameter is spilled: load from an alloca which is stored from an argument
            if (auto* L = dyn_cast<LoadInst>(b)) if (auto* A = dyn_cast<AllocaInst>(L->getPointerOperand())) for (auto* U : A->users()) if (auto* S = dyn_cast<StoreInst>(U)) if (isa<Argument>(S->getValueOperand())) helper = true;
            if (isa<Argument>(b)) helper = true;
        }
        if (helper) { for (auto* U : F->users()) if (auto* CB = dyn_cast<CallBase>(U)) if (calledFn(CB) == F && !impls.count(CB->getFunction())) work.push_back(CB->getFunction()); }
        else v.push_back(F);
    }
    return v;
}

static std::string constBytes(Value* V, uint64_t n) {
    APInt off(64, 0);
    auto* G = dyn_cast<GlobalVariable>(V->stripPointerCasts());
    if (!G || !G->hasInitializer() || !G->isConstant()) return "";
    auto* D = dyn_cast<ConstantDataSequential>(G->getInitializer());
    if (!D) return "";
    std::string s = D->getRawDataValues().str();
    if (s.size() < n) return "";
    return s.substr(0, n);
}
static void derivedPtrs(Value* V, std::vector<Value*>& out, std::set<Value*>& seen) {
    if (!seen.insert(V).second) return; out.push_back(V);
    for (auto* U : V->users()) if ((isa<GetElementPtrInst>(U) && cast<GetElementPtrInst>(U)->getPointerOperand() == V) || isa<BitCastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) derivedPtrs(U, out, seen);
}

static std::string structShort(Type* T) {
    if (auto* S = dyn_cast<StructType>(T)) { if (!S->hasName()) return ""; StringRef n = S->getName(); size_t p = n.rfind("::"); std::string r = p == StringRef::npos ? n.str() : n.substr(p + 2).str(); size_t d = r.find('.'); if (d != std::string::npos) r = r.substr(0, d); return r; }
    return "";
}

static void signatureRule(Ctx& C, Report& R, Function* F, Function* N, const std::string& label, const std::string& expectOverride, int& inst) {
    static const std::map<std::string, std::string> expect = {
        {"FileHeaderSegment", "ZISRAWFILE"}, {"SubBlockDirectorySegment", "ZISRAWDIRECTORY"}, {"SubBlockSegment", "ZISRAWSUBBLOCK"},
        {"MetadataSegment", "ZISRAWMETADATA"}, {"AttachmentSegment", "ZISRAWATTACH"}, {"AttachmentDirectorySegment", "ZISRAWATTDIR"}};
    DominatorTree DT(*N);
    std::set<AllocaInst*> bufs;
    for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) if (calleeName(C, CB) == READ) {
        if (auto* A = dyn_cast<AllocaInst>(stripPtr(CB->getArgOperand(2)))) if (auto* k = dyn_cast<ConstantInt>(CB->getArgOperand(3))) if (k->getZExtValue() >= 32) bufs.insert(A);
    }
    for (auto* A : bufs) {
        std::string st = structShort(A->getAllocatedType());
        std::string want = expectOverride;
        if (want.empty()) { auto it = expect.find(st); if (it != expect.end()) want = it->second; }
        if (want.empty()) continue;   // generic header (kind chosen by the caller: handled through specialisation)
        ++inst;
        std::string key = "signature of " + st + " in " + label;
        std::vector<Value*> ds; std::set<Value*> seen; derivedPtrs(A, ds, seen);
        std::vector<CallBase*> cmps; std::vector<Instruction*> uses; bool otherIdAccess = false;
        for (auto* D : ds) {
            APInt off(64, 0); Value* b = D->stripAndAccumulateConstantOffsets(C.M->getDataLayout(), off, true);
            bool inId = b == A && off.ult(16);
            for (auto* U : D->users()) {
                auto* I = dyn_cast<Instruction>(U); if (!I) continue;
                if (auto* CB = dyn_cast<CallBase>(I)) {
                    if (isa<DbgInfoIntrinsic>(CB) || CB->isLifetimeStartOrEnd()) continue;
                    std::string n = calleeName(C, CB);
                    if (n == READ) continue;
                    if ((n == "memcmp" || n == "bcmp") && inId && off.isZero()) { cmps.push_back(CB); continue; }
                    if (inId && b == A && off.isZero() && !isa<MemIntrinsic>(CB)) { otherIdAccess = true; continue; }
                    uses.push_back(CB);
                } else if (isa<LoadInst>(I)) { if (inId) otherIdAccess = true; else uses.push_back(I); }
            }
        }
        std::string why; bool good = false; 
        for (auto* CB : cmps) {
            auto* len = dyn_cast<ConstantInt>(CB->getArgOperand(2));
            Value* other = stripPtr(CB->getArgOperand(0)) == A ? CB->getArgOperand(1) : CB->getArgOperand(0);
            if (!len || len->getZExtValue() < 16) { why = "only " + std::to_string(len ? len->getZExtValue() : 0) + " of the 16 signature bytes are compared"; continue; }
            std::string b = constBytes(other, 16); std::string w = want; w.resize(16, '\0');
            if (b.empty()) { why = "signature is not compared with a constant"; continue; }
            if (b != w) { why = "signature is compared with '" + std::string(b.c_str()) + "', the format requires '" + want + "'"; continue; }
            // every use behind result == 0
            Instruction* bad = nullptr;
            auto behind = [&](BasicBlock* BB) {
                for (auto& f : dominatingFacts(DT, BB)) if (auto* CI = dyn_cast<ICmpInst>(f.cond)) if (CI->isEquality()) {
                    auto* z = dyn_cast<ConstantInt>(CI->getOperand(1)); if (!z || !z->isZero() || stripCasts(CI->getOperand(0)) != CB) continue;
                    if ((CI->getPredicate() == ICmpInst::ICMP_EQ) == f.truth) return true;
                }
                return false;
            };
            for (auto* I : uses) if (!behind(I->getParent())) { bad = I; break; }
            if (!bad) for (auto& BB : *N) if (isa<ReturnInst>(BB.getTerminator()) && DT.isReachableFromEntry(&BB)) { bool stop = false; for (auto& I : BB) if (auto* CI = dyn_cast<CallInst>(&I)) if (callNeverReturns(C, CI)) stop = true; if (!stop && !behind(&BB)) bad = BB.getTerminator(); }
            if (bad) { why = "contents are used at " + C.loc(bad) + " on a path where the signature was not found to match"; continue; }
            good = true;
        }
        if (good) R.ok(key, C.fnLoc(F), "'" + want + "' verified before " + std::to_string(uses.size()) + " uses");
        else if (cmps.empty() && otherIdAccess) R.undecided(key, C.fnLoc(F), "signature bytes are examined by a construct the analysis does not recognise");
        else R.bad(key, C.fnLoc(F), why.empty() ? "the 16-byte segment signature is not verified" : why);
    }
}

RULE(R02) {
    int inst = 0;
    auto fs = readerFunctions(C);
    R.counts["reader functions"] = fs.size();
    for (auto* F : fs) {
        InlineOpts o; Function* N = deepClone(C, F, o);
        signatureRule(C, R, F, N, C.qname(F), "", inst);
        N->eraseFromParent();
    }
    // functions which read a bare header and choose the signature by an enumeration argument: specialise per enumerator
    static const std::map<std::string, std::string> byEnum = {{"SbBlkDirectory", "ZISRAWDIRECTORY"}, {"SbBlk", "ZISRAWSUBBLOCK"}, {"AttachmentsDirectory", "ZISRAWATTDIR"}, {"AttachmentDirectory", "ZISRAWATTDIR"}, {"Attachment", "ZISRAWATTACH"}, {"Metadata", "ZISRAWMETADATA"}};
    int spec = 0;
    for (auto* F : fs) {
        auto* SP = F->getSubprogram(); if (!SP) continue; auto ts = SP->getType()->getTypeArray();
        for (unsigned i = 1; i < ts.size(); ++i) {
            auto* E = dyn_cast_or_null<DICompositeType>(ts[i]); if (!E || E->getTag() != dwarf::DW_TAG_enumeration_type || E->getName() != "SegmentType") continue;
            unsigned ai = i - 1; if (ai >= F->arg_size() || !F->getArg(ai)->getType()->isIntegerTy()) continue;
            for (auto* el : E->getElements()) if (auto* en = dyn_cast<DIEnumerator>(el)) {
                auto it = byEnum.find(en->getName().str()); if (it == byEnum.end()) continue;
                // wrapper: call F with a constant
                std::vector<Type*> pt; for (auto& a : F->args()) pt.push_back(a.getType());
                Function* W = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, "spec." + F->getName(), C.M.get());
                W->addFnAttr("czi-clone"); W->setSubprogram(nullptr); W->setPersonalityFn(F->getPersonalityFn());
                IRBuilder<> B(BasicBlock::Create(C.llctx, "entry", W));
                std::vector<Value*> av; for (auto& a : W->args()) av.push_back(&a);
                av[ai] = ConstantInt::get(F->getArg(ai)->getType(), en->getValue().getSExtValue());
                auto* call = B.CreateCall(F->getFunctionType(), F, av); if (F->getReturnType()->isVoidTy()) B.CreateRetVoid(); else B.CreateRet(call);
                InlineOpts o; Function* N = deepClone(C, W, o);
                // the bare header: expected by enumerator
                int before = inst;
                signatureRule(C, R, F, N, C.qname(F) + "(" + en->getName().str() + ")", it->second, inst);
                spec += inst - before;
                N->eraseFromParent(); W->eraseFromParent();
            }
        }
    }
    R.counts["signature checks"] = inst; R.counts["specialised by segment type"] = spec;
    if (inst < 6) R.error("fewer segment kinds found than the file format has");
}

// ------------------------------------------------------------------ R03
struct Obj { Value* base = nullptr; bool known = false; uint64_t constSize = 0; Value* sizeVal = nullptr; bool isAlloca = false; APInt off = APInt(64, 0); Value* varIdx = nullptr; uint64_t scale = 0; bool cplx = false; };

static Value* storedValueFor(AllocaInst* A, Instruction* at, DominatorTree& DT) {
    // the unique store that dominates 'at' (last one wins within dominating stores)
    StoreInst* best = nullptr;
    for (auto* U : A->users()) if (auto* S = dyn_cast<StoreInst>(U)) if (S->getPointerOperand() == A && DT.dominates(S, at)) if (!best || DT.dominates(best, S)) best = S;
    return best ? best->getValueOperand() : nullptr;
}
static void resolveAlloc(Ctx& C, Value* base, Obj& o, DominatorTree& DT) {
    if (auto* A = dyn_cast<AllocaInst>(base)) {
        o.known = true; o.isAlloca = true; auto sz = A->getAllocationSize(C.M->getDataLayout()); if (sz) o.constSize = sz->getFixedValue(); else o.known = false; return;
    }
    if (auto* CB = dyn_cast<CallBase>(base)) {
        std::string n = calleeName(C, CB);
        if (n == "malloc" || n == "operator new" || n == "operator new[]") { o.known = true; o.sizeVal = CB->getArgOperand(0); }
        else if (n == "calloc") { o.known = true; o.sizeVal = CB->getArgOperand(1); }
        else if (n.find("std::function<void* (unsigned long)>") == 0) {
            Value* a = CB->getArgOperand(CB->arg_size() - 1);
            if (a->getType()->isIntegerTy()) { o.known = true; o.sizeVal = a; }
            else if (auto* A = dyn_cast<AllocaInst>(a->stripPointerCasts())) { if (Value* v = storedValueFor(A, CB, DT)) { o.known = true; o.sizeVal = v; } }
        }
        if (o.sizeVal) if (auto* k = dyn_cast<ConstantInt>(o.sizeVal)) { o.constSize = k->getZExtValue(); o.sizeVal = nullptr; }
    }
}
static std::vector<Obj> resolve(Ctx& C, Value* P, DominatorTree& DT, int depth = 0) {
    std::vector<Obj> out; Obj o; Value* V = P;
    const DataLayout& DL = C.M->getDataLayout();
    while (true) {
        if (auto* G = dyn_cast<GetElementPtrInst>(V)) {
            APInt k(64, 0); MapVector<Value*, APInt> vars;
            if (!G->collectOffset(DL, 64, vars, k)) { o.cplx = true; V = G->getPointerOperand(); continue; }
            o.off += k;
            for (auto& p : vars) { if (o.varIdx) o.cplx = true; o.varIdx = p.first; o.scale = p.second.getZExtValue(); }
            V = G->getPointerOperand();
        } else if (auto* B = dyn_cast<BitCastInst>(V)) V = B->getOperand(0);
        else break;
    }
    if (auto* Ph = dyn_cast<PHINode>(V)) {
        if (depth < 3) for (auto& in : Ph->incoming_values()) { if (isa<ConstantPointerNull>(in)) continue; if (in == Ph) continue; for (auto& x : resolve(C, in, DT, depth + 1)) { Obj y = x; y.off += o.off; if (o.varIdx) { if (y.varIdx) y.cplx = true; y.varIdx = o.varIdx; y.scale = o.scale; } out.push_back(y); } }
        return out;
    }
    o.base = V; resolveAlloc(C, V, o, DT); out.push_back(o); return out;
}
// E == X * c ?
static bool isMul(Value* E, Value*& X, uint64_t& c) {
    E = stripCasts(E);
    if (auto* B = dyn_cast<BinaryOperator>(E)) if (auto* k = dyn_cast<ConstantInt>(B->getOperand(1))) {
        if (B->getOpcode() == Instruction::Mul) { X = stripCasts(B->getOperand(0)); c = k->getZExtValue(); return true; }
        if (B->getOpcode() == Instruction::Shl) { X = stripCasts(B->getOperand(0)); c = 1ull << k->getZExtValue(); return true; }
    }
    return false;
}
// is [off+var*scale, +len) inside o ?  len given as Value (may be null -> constant clen)
static int inBounds(Ctx& C, const Obj& o, Value* len, uint64_t clen, Instruction* At, DominatorTree& DT, std::string& why) {
    // returns 1 ok, 0 violation, -1 unknown
    if (!o.known || o.cplx) return -1;
    BasicBlock* BB = At->getParent();
    auto maxOf = [&](Value* v, bool& neg) { auto r = rangeAt(v, BB, DT); if (r.isEmptySet()) { neg = false; return APInt(64, 0); } neg = false; return r.getUnsignedMax().zextOrTrunc(64); };
    if (o.constSize) {
        APInt end = o.off; bool neg = false;
        if (end.isNegative()) { why = "negative offset"; return 0; }
        __uint128_t tot = end.getZExtValue();
        if (o.varIdx) { APInt m = maxOf(o.varIdx, neg); tot += (__uint128_t)m.getZExtValue() * o.scale; }
        if (len) { APInt m = maxOf(len, neg); tot += m.getZExtValue(); } else tot += clen;
        if (tot <= o.constSize) return 1;
        why = "up to " + (tot > (__uint128_t)1 << 62 ? std::string("2^62 or more") : std::to_string((uint64_t)tot)) + " bytes of an object of " + std::to_string(o.constSize) + " bytes";
        return 0;
    }
    // dynamic object of o.sizeVal bytes
    if (!o.varIdx) {
        if (o.off.isZero() && len && sameValue(len, o.sizeVal)) return 1;
        if (o.off.isZero() && !len) { // const access into a dynamic object: need size >= clen
            auto r = rangeAt(o.sizeVal, BB, DT); if (r.getUnsignedMin().uge(clen)) return 1;
            return -1;
        }
        if (len) { why = "length is not the size the buffer was allocated with"; return 0; }
        return -1;
    }
    // element i of an array of X elements of c bytes
    Value* X; uint64_t c;
    if (isMul(o.sizeVal, X, c) && o.scale == c) {
        uint64_t fieldEnd = o.off.getZExtValue() + clen;
        if (len) return -1;
        if (fieldEnd > c) { why = "field beyond the element"; return 0; }
        Value* i = stripCasts(o.varIdx);
        for (auto& f : dominatingFacts(DT, BB)) if (auto* CI = dyn_cast<ICmpInst>(f.cond)) for (int s = 0; s < 2; ++s) {
            auto pred = s ? CI->getSwappedPredicate() : CI->getPredicate(); if (!f.truth) pred = CmpInst::getInversePredicate(pred);
            if (stripCasts(CI->getOperand(s)) == i && sameValue(CI->getOperand(1 - s), X) && (pred == ICmpInst::ICMP_SLT || pred == ICmpInst::ICMP_ULT)) {
                auto r = rangeAt(i, BB, DT); if (pred == ICmpInst::ICMP_ULT || r.getSignedMin().isNonNegative()) return 1;
            }
        }
        why = "element index not bounded by the number of elements allocated"; return 0;
    }
    // byte offset: need (var + len) <= size on this path
    if (o.scale == 1 && o.off.isZero()) {
        for (auto& f : dominatingFacts(DT, BB)) if (auto* CI = dyn_cast<ICmpInst>(f.cond)) for (int s = 0; s < 2; ++s) {
            auto pred = s ? CI->getSwappedPredicate() : CI->getPredicate(); if (!f.truth) pred = CmpInst::getInversePredicate(pred);
            if (pred != ICmpInst::ICMP_ULE && pred != ICmpInst::ICMP_ULT) continue;
            if (!sameValue(CI->getOperand(1 - s), o.sizeVal)) continue;
            auto* B = dyn_cast<BinaryOperator>(stripCasts(CI->getOperand(s))); if (!B || B->getOpcode() != Instruction::Add) continue;
            for (int t = 0; t < 2; ++t) if (sameValue(B->getOperand(t), o.varIdx)) {
                Value* n = B->getOperand(1 - t);
                if (len ? sameValue(n, len) : (isa<ConstantInt>(n) && cast<ConstantInt>(n)->getZExtValue() >= clen)) {
                    if (len) { bool neg; auto r = rangeAt(len, BB, DT); if (r.getUnsignedMax().ugt(APInt(r.getBitWidth(), 1).shl(r.getBitWidth() / 2))) { why = "the length may be negative or wrap around, so the bound test does not protect the copy"; return 0; } }
                    return 1;
                }
            }
        }
        why = "no test that offset + length stays within the buffer"; return 0;
    }
    return -1;
}

RULE(R03) {
    auto fs = readerFunctions(C);
    int nobl = 0, nunk = 0;
    for (auto* F : fs) {
        InlineOpts o; o.instCombine = false; Function* N = deepClone(C, F, o);
        DominatorTree DT(*N);
        std::set<Value*> readDst;   // objects which receive data of the file
        for (auto& I : instructions(*N)) if (auto* CB = dyn_cast<CallBase>(&I)) if (calleeName(C, CB) == READ) for (auto& ob : resolve(C, CB->getArgOperand(2), DT)) readDst.insert(ob.base);
        for (auto& I : instructions(*N)) if (auto* MT = dyn_cast<MemTransferInst>(&I)) for (auto& ob : resolve(C, MT->getRawSource(), DT)) if (!ob.known || readDst.count(ob.base)) for (auto& od : resolve(C, MT->getRawDest(), DT)) readDst.insert(od.base);
        auto judge = [&](Instruction* I, Value* ptr, Value* len, uint64_t clen, const char* what, bool report) {
            if (!DT.isReachableFromEntry(I->getParent())) return;
            for (auto& ob : resolve(C, ptr, DT)) {
                if (!ob.known) {
                    // a copy out of a buffer at a running offset: the end of the piece must have been compared with a limit
                    if (report && !strcmp(what, "copy source") && ob.varIdx && ob.scale == 1 && !ob.cplx && !isa<Argument>(ob.base)) {
                        bool okk = false;
                        for (auto& f : dominatingFacts(DT, I->getParent())) if (auto* CI = dyn_cast<ICmpInst>(f.cond)) for (int sd = 0; sd < 2; ++sd) {
                            auto pred = sd ? CI->getSwappedPredicate() : CI->getPredicate(); if (!f.truth) pred = CmpInst::getInversePredicate(pred);
                            if (pred != ICmpInst::ICMP_ULE && pred != ICmpInst::ICMP_ULT && pred != ICmpInst::ICMP_SLE && pred != ICmpInst::ICMP_SLT) continue;
                            // linear forms: limit >= off + n + off0
                            Value* e = CI->getOperand(sd); Value* lim = CI->getOperand(1 - sd); int64_t k = 0; Value* base = nullptr; Value* n = nullptr;
                            auto* B = dyn_cast<BinaryOperator>(stripCasts(e));
                            auto tryAdd = [&](Value* a, Value* b) { if (sameValue(a, ob.varIdx)) { base = a; n = b; } };
                            if (B && B->getOpcode() == Instruction::Add) { tryAdd(B->getOperand(0), B->getOperand(1)); if (!base) tryAdd(B->getOperand(1), B->getOperand(0)); }
                            // n <= limit - off
                            auto* S = dyn_cast<BinaryOperator>(stripCasts(lim));
                            if (!base && S && S->getOpcode() == Instruction::Sub && sameValue(S->getOperand(1), ob.varIdx)) { base = ob.varIdx; n = e; }
                            if (!base) continue;
                            if (auto* ck = dyn_cast<ConstantInt>(stripCasts(n))) { if (auto* cl = dyn_cast<ConstantInt>(len)) okk |= ck->getZExtValue() >= cl->getZExtValue(); }
                            else if (sameValue(n, len)) okk = true;
                        }
                        std::string key = std::string(what) + " in " + C.qname(F) + " [buffer at running offset]";
                        if (okk) { R.ok(key, C.loc(I), "offset + length was compared with the end of the buffer"); nobl++; }
                        else { R.bad(key, C.loc(I), "a piece is copied at a running offset without a test that offset + length stays within the buffer"); nobl++; }
                    }
                    continue;
                }
                Value* L = len; uint64_t cl = clen;
                if (L) if (auto* k = dyn_cast<ConstantInt>(L)) { cl = k->getZExtValue(); L = nullptr; }
                if (!report && !ob.varIdx) continue;   // plain scalar accesses with constant offsets
                if (!report && !readDst.count(ob.base)) continue;
                std::string why; int r = inBounds(C, ob, L, cl, I, DT, why);
                std::string key = std::string(what) + " in " + C.qname(F) + " [" + (ob.isAlloca ? structShort(cast<AllocaInst>(ob.base)->getAllocatedType()) : "heap") + "]";
                if (r == 1) { R.ok(key, C.loc(I), "within the object"); nobl++; }
                else if (r == 0) { R.bad(key, C.loc(I), why); nobl++; }
                else nunk++;
            }
        };
        for (auto& I : instructions(*N)) {
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                if (calleeName(C, CB) == READ) judge(CB, CB->getArgOperand(2), CB->getArgOperand(3), 0, "stream read destination", true);
                else if (auto* MT = dyn_cast<MemTransferInst>(CB)) { judge(CB, MT->getRawDest(), MT->getLength(), 0, "copy destination", true); judge(CB, MT->getRawSource(), MT->getLength(), 0, "copy source", true); }
                else if (auto* MS = dyn_cast<MemSetInst>(CB)) judge(CB, MS->getRawDest(), MS->getLength(), 0, "fill", true);
            } else if (auto* L = dyn_cast<LoadInst>(&I)) judge(L, L->getPointerOperand(), nullptr, C.M->getDataLayout().getTypeStoreSize(L->getType()), "indexed load", false);
            else if (auto* S = dyn_cast<StoreInst>(&I)) judge(S, S->getPointerOperand(), nullptr, C.M->getDataLayout().getTypeStoreSize(S->getValueOperand()->getType()), "indexed store", false);
        }
        if (C.opts.count("dump") && C.qname(F).find(C.opts["dump"]) != std::string::npos) errs() << *N;
        N->eraseFromParent();
    }
    R.counts["reader functions"] = fs.size(); R.counts["bounded accesses"] = nobl; R.counts["accesses to objects of unknown size"] = nunk;
    if (nobl < 10) R.error("too few accesses analysed");
}
