#include "core.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Analysis/CFG.h"
// S02: state which a class protects by a mutex is only touched while this mutex is held; critical sections are not interrupted
// between positioning and reading; a shared object that another thread may release is used through an own reference only.
struct LField { std::string name, type; uint64_t off, size; bool isMutex, isAtomic, isPtr, isClass, isShared; };
static DIType* peelTD(DIType* T) { while (T) { auto* D = dyn_cast<DIDerivedType>(T); if (!D || (D->getTag() != dwarf::DW_TAG_typedef && D->getTag() != dwarf::DW_TAG_const_type && D->getTag() != dwarf::DW_TAG_volatile_type)) break; T = D->getBaseType(); } return T; }
static std::string typeName(DIType* T) { return T ? T->getName().str() : ""; }
struct LClass { DICompositeType* T; std::string name; std::vector<LField> f; const LField* at(uint64_t o) const { for (auto& x : f) if (o >= x.off && o < x.off + (x.size ? x.size : 1)) return &x; return nullptr; } };
static std::map<std::string, LClass> lockClasses(Ctx& C) {
    std::map<std::string, LClass> out; DebugInfoFinder DF; DF.processModule(*C.M);
    for (auto* T : DF.types()) {
        auto* K = dyn_cast<DICompositeType>(T); if (!K || K->isForwardDecl() || (K->getTag() != dwarf::DW_TAG_class_type && K->getTag() != dwarf::DW_TAG_structure_type)) continue;
        std::string file = K->getFilename().str(); if (file.find("/Src/libCZI") == std::string::npos) continue;
        LClass c; c.T = K; c.name = K->getName().str(); bool any = false;
        for (auto* E : K->getElements()) {
            auto* D = dyn_cast<DIDerivedType>(E); if (!D || D->getTag() != dwarf::DW_TAG_member || D->isStaticMember()) continue;
            DIType* B = peelTD(D->getBaseType()); LField f; f.name = D->getName().str(); f.type = typeName(B); f.off = D->getOffsetInBits() / 8; f.size = B ? B->getSizeInBits() / 8 : 0;
            f.isMutex = f.type == "mutex" || f.type == "recursive_mutex" || f.type == "shared_mutex" || f.type == "timed_mutex" || f.type == "shared_timed_mutex"; f.isAtomic = f.type.rfind("atomic", 0) == 0 || f.type.rfind("__atomic", 0) == 0;
            f.isPtr = B && isa<DIDerivedType>(B) && cast<DIDerivedType>(B)->getTag() == dwarf::DW_TAG_pointer_type; f.isClass = B && isa<DICompositeType>(B) && (B->getTag() == dwarf::DW_TAG_class_type || B->getTag() == dwarf::DW_TAG_structure_type); f.isShared = f.type.rfind("shared_ptr<", 0) == 0;
            any |= f.isMutex; c.f.push_back(f);
        }
        if (any) out.emplace(c.name, c);
    }
    return out;
}
static bool offsetOf(Value* V, Value*& base, int64_t& off, const DataLayout& DL) { off = 0; for (int i = 0; i < 10; ++i) { V = V->stripPointerCasts(); auto* G = dyn_cast<GEPOperator>(V); if (!G) break; APInt a(64, 0); if (!G->accumulateConstantOffset(DL, a)) return false; off += a.getSExtValue(); V = G->getPointerOperand(); } base = V; return true; }
static bool has(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }
enum LockOp { None, Acquire, Release, Maybe };
struct AtAcc { Instruction* I; const LField* f; bool locked, mod; };
struct Method { Function *F, *N; bool ctor, init; std::vector<AtAcc> at; std::vector<std::pair<std::pair<Instruction*, const LField*>, bool>> acc; std::vector<std::pair<Instruction*, Function*>> callsUnlocked, callsLocked; bool acquires = false, definite = false; };
RULE(S02) {
    auto ks = lockClasses(C); auto& DL = C.M->getDataLayout(); bool tr = C.opts.count("trace");
    for (auto& kp : ks) {
        LClass& K = kp.second; std::map<Function*, Method> ms; const LField* mx = nullptr; int nmx = 0; for (auto& f : K.f) if (f.isMutex) { mx = &f; ++nmx; }
        if (nmx != 1) { R.undecided(K.name, K.name, "a class with several mutexes: which data each of them protects is not known"); continue; }
        R.counts["classes with a mutex"]++;
        auto lockOp = [&](CallBase* CB, Value* self, Value*& obj) -> LockOp {
            std::string n = calleeName(C, CB); obj = nullptr; auto isMx = [&](Value* V) { Value* b; int64_t o; return offsetOf(V, b, o, DL) && b == self && o == (int64_t)mx->off; };
            unsigned na = CB->arg_size();
            bool guard = has(n, "lock_guard") || has(n, "unique_lock") || has(n, "scoped_lock") || has(n, "shared_lock");
            if (guard) {
                obj = na ? CB->getArgOperand(0)->stripPointerCasts() : nullptr; if (has(n, "::~") || has(n, "::unlock")) return Release;
                if (has(n, "::lock_guard") || has(n, "::unique_lock") || has(n, "::scoped_lock") || has(n, "::shared_lock")) { std::string dn = C.dem(CB->getCalledOperand()->stripPointerCasts()->getName()); if (na >= 2 && isMx(CB->getArgOperand(1))) { if (has(dn, "defer_lock_t")) return None; if (has(dn, "adopt_lock_t") || has(dn, "try_to_lock_t") || has(dn, "chrono")) return Maybe; if (na == 2) return Acquire; } if (na >= 2) { for (unsigned i = 1; i < na; ++i) if (isMx(CB->getArgOperand(i))) return Maybe; Value* b; int64_t o; if (offsetOf(CB->getArgOperand(1), b, o, DL) && isa<AllocaInst>(b) && has(C.dem(CB->getCalledOperand()->stripPointerCasts()->getName()), "std::mutex&)")) return None; return Maybe; } return None; }
                if (n.size() > 6 && n.rfind("::lock") == n.size() - 6 && obj) for (auto* U : obj->users()) if (auto* X = dyn_cast<CallBase>(U)) if (X->arg_size() >= 2 && X->getArgOperand(0) == obj && isMx(X->getArgOperand(1))) return Acquire;
                if (has(n, "::lock") || has(n, "try_lock") || has(n, "::swap") || has(n, "::operator=")) return Maybe;
                return None;
            }
            if (na && isMx(CB->getArgOperand(0))) { if (has(n, "unlock")) return Release; if (has(n, "lock")) return has(n, "try") ? Maybe : Acquire; }
            for (unsigned i = 0; i < na; ++i) if (isMx(CB->getArgOperand(i)) && !has(n, "~")) return Maybe;   // handed out: whoever gets it may lock it
            if (Function* T = calledFn(CB)) if (T->arg_size() && T->hasStructRetAttr()) if (auto* ST = dyn_cast<StructType>(T->getParamStructRetType(0))) if (ST->hasName() && (ST->getName().contains("unique_lock") || ST->getName().contains("lock_guard") || ST->getName().contains("scoped_lock"))) return Maybe;
            return None;
        };
        // the methods of the class
        std::set<Function*> own;
        for (auto& F : *C.M) { if (F.isDeclaration() || !F.getSubprogram() || F.hasFnAttribute("czi-clone")) continue; auto* S = dyn_cast_or_null<DICompositeType>(F.getSubprogram()->getScope()); if (F.getSubprogram()->getDeclaration()) S = dyn_cast_or_null<DICompositeType>(F.getSubprogram()->getDeclaration()->getScope()); if (!S || S->getName() != K.name) continue; auto ty = F.getSubprogram()->getType() ? F.getSubprogram()->getType()->getTypeArray() : DITypeRefArray(nullptr); if (ty.size() < 2 || !ty[1] || !(ty[1]->isObjectPointer() || ty[1]->isArtificial())) continue; own.insert(&F); }
        for (auto* F : own) {
            Method m; m.F = F; std::string q = C.qname(F); size_t p = q.rfind("::"); std::string nm = p == std::string::npos ? q : q.substr(p + 2); m.ctor = nm == K.name || nm == "~" + K.name; m.init = nm == "Open";
            ValueToValueMapTy vm; m.N = CloneFunction(F, vm); m.N->addFnAttr("czi-clone"); simplifyFunction(*m.N); ms[F] = m;
        }
        for (auto& p : ms) {
            Method& m = p.second; Function& N = *m.N; unsigned ti = N.hasStructRetAttr() ? 1 : 0; if (N.arg_size() <= ti) continue; Value* self = N.getArg(ti); if (!self->getType()->isPointerTy()) continue;
            std::map<BasicBlock*, int> in, seek; in[&N.getEntryBlock()] = 1; std::vector<BasicBlock*> w{&N.getEntryBlock()}; std::set<BasicBlock*> seen;   // 1: possibly not held, 2: possibly held
            std::map<Instruction*, int>* cur = nullptr;
            auto walk = [&](BasicBlock* B, int s, bool record) {
                for (auto& I : *B) {
                    if (cur) (*cur)[&I] = s;
                    if (auto* CB = dyn_cast<CallBase>(&I)) {
                        Value* o; LockOp op = lockOp(CB, self, o); if (tr && record && op) errs() << C.name(m.F) << ": " << op << " " << calleeName(C, CB) << "\n";
                        if (op == Acquire) { if (record && s == 2 && !(mx->type == "recursive_mutex")) R.bad(K.name + "|" + C.qname(m.F) + "|twice", C.loc(&I), "the mutex is acquired while it is already held (deadlock)"); s = 2; m.acquires = m.definite = true; continue; }
                        if (op == Maybe) { s = 2; m.acquires = true; continue; }
                        if (op == Release) { s = 1; continue; }
                        if (record) { Function* T = calledFn(CB); if (!T || !own.count(T)) { bool unk = false; T = nullptr; for (auto* X : possibleTargets(C, CB, unk)) if (own.count(X)) T = X; } if (T && CB->arg_size() > (T->hasStructRetAttr() ? 1u : 0u)) { Value* b; int64_t off; if (offsetOf(CB->getArgOperand(T->hasStructRetAttr() ? 1 : 0), b, off, DL) && b == self) { if (s & 1) m.callsUnlocked.push_back({&I, T}); else m.callsLocked.push_back({&I, T}); } } }
                    }
                    if (!record || isa<DbgInfoIntrinsic>(&I)) continue;
                    std::vector<Value*> ptrs; if (auto* L = dyn_cast<LoadInst>(&I)) ptrs.push_back(L->getPointerOperand()); if (auto* S = dyn_cast<StoreInst>(&I)) { ptrs.push_back(S->getPointerOperand()); }
                    if (auto* CB = dyn_cast<CallBase>(&I)) for (auto& a : CB->args()) if (a->getType()->isPointerTy()) ptrs.push_back(a.get());
                    for (auto* V : ptrs) { Value* b; int64_t off; if (!offsetOf(V, b, off, DL) || b != self || off < 0) continue; if (isa<CallBase>(&I) && off == 0 && V->stripPointerCasts() == self) continue; const LField* f = K.at(off); if (!f || f->isMutex) continue;
                        if (f->isAtomic) { bool mod = !isa<LoadInst>(&I); if (auto* CB = dyn_cast<CallBase>(&I)) { std::string n = calleeName(C, CB); mod = !(has(n, "::load") || has(n, "::operator ") || has(n, "is_lock_free")); } m.at.push_back({&I, f, !(s & 1), mod}); continue; } m.acc.push_back({{&I, f}, !(s & 1)}); }
                }
                return s;
            };
            while (!w.empty()) { BasicBlock* B = w.back(); w.pop_back(); int s = walk(B, in[B], false); for (auto* X : successors(B)) if ((in[X] | s) != in[X]) { in[X] |= s; w.push_back(X); } }
            std::map<Instruction*, int> at; cur = &at; for (auto& B : N) if (in.count(&B)) walk(&B, in[&B], true); cur = nullptr;
            // iterators and references into a protected container are not used after the lock was released
            for (auto& I : instructions(N)) if (auto* CB = dyn_cast<CallBase>(&I)) if (at.count(CB) && at[CB] == 2) {
                std::string n = calleeName(C, CB); size_t q = n.rfind("::"); std::string mth = q == std::string::npos ? n : n.substr(q + 2); static const std::set<std::string> iter{"find", "insert", "emplace", "lower_bound", "upper_bound", "begin", "at", "operator[]", "try_emplace", "insert_or_assign"}; if (!iter.count(mth)) continue;
                unsigned ri = CB->hasStructRetAttr() ? 1 : 0; Value* b; int64_t off; if (CB->arg_size() <= ri || !offsetOf(CB->getArgOperand(ri), b, off, DL) || b != self) continue; const LField* f = K.at(off); if (!f || !f->isClass || f->isMutex || f->isAtomic) continue;
                std::set<Value*> vals{CB}; std::vector<Value*> w2{CB}; std::set<AllocaInst*> slots; if (ri) if (auto* A = dyn_cast<AllocaInst>(CB->getArgOperand(0)->stripPointerCasts())) slots.insert(A);
                while (!w2.empty()) { Value* v = w2.back(); w2.pop_back(); for (auto* U : v->users()) { if (auto* S = dyn_cast<StoreInst>(U)) { if (S->getValueOperand() == v) { Value* sb; int64_t so; if (offsetOf(S->getPointerOperand(), sb, so, DL) && so == 0) if (auto* A = dyn_cast<AllocaInst>(sb)) slots.insert(A); } } else if (auto* X = dyn_cast<ExtractValueInst>(U)) { if (X->getIndices()[0] == 0 && vals.insert(X).second) w2.push_back(X); } else if (isa<GetElementPtrInst>(U) || isa<BitCastInst>(U)) { if (vals.insert(U).second) w2.push_back(U); } } }
                Instruction* bad = nullptr; auto use = [&](Instruction* J) { if (at.count(J) && at[J] == 1 && (isa<LoadInst>(J) || isa<StoreInst>(J) || (isa<CallBase>(J) && !isa<IntrinsicInst>(J))) && isPotentiallyReachable(CB, J)) bad = J; };
                for (auto* v : vals) for (auto* U : v->users()) if (auto* J = dyn_cast<Instruction>(U)) if (!isa<StoreInst>(J) || cast<StoreInst>(J)->getPointerOperand() == v) use(J);
                for (auto* A : slots) for (auto& J : instructions(N)) { bool hit = false; if (auto* L = dyn_cast<LoadInst>(&J)) { Value* sb; int64_t so; hit = offsetOf(L->getPointerOperand(), sb, so, DL) && sb == A && so < 8; } if (auto* X = dyn_cast<CallBase>(&J)) if (!isa<IntrinsicInst>(X) && X != CB) { std::string xn = calleeName(C, X); for (auto& a : X->args()) if (a->getType()->isPointerTy()) { Value* sb; int64_t so; hit |= offsetOf(a.get(), sb, so, DL) && sb == A && so < 8 && !has(xn, "::~"); } } if (hit) use(&J); }
                if (bad) R.bad(K.name + "." + f->name + "|" + C.qname(m.F) + "|iterator", C.loc(bad), "a position in '" + f->name + "' obtained under '" + mx->name + "' is used after it was released");
            }
        }
        bool ever = false; for (auto& p : ms) ever |= p.second.acquires && !p.second.ctor;
        // which members does the mutex protect?
        std::map<const LField*, std::pair<bool, bool>> prot;   // accessed under the lock / changed after construction
        for (auto& p : ms) { Method& m = p.second; for (auto& a : m.acc) {
            const LField* f = a.first.second; Instruction* I = a.first.first; if (a.second && !m.ctor) prot[f].first = true;
            if (m.ctor || m.init) continue;
            bool ch = isa<StoreInst>(I); if (f->isPtr && isa<LoadInst>(I)) { bool used = false; for (auto* U : I->users()) used |= isa<CallBase>(U); ch |= used; }
            if (f->isClass) if (auto* CB = dyn_cast<CallBase>(I)) { std::string n; if (Function* T = calledFn(CB)) n = C.name(T); Value* b; int64_t o; bool self0 = CB->arg_size() && offsetOf(CB->getArgOperand(CB->hasStructRetAttr() ? 1 : 0), b, o, DL) && K.at(o) == f && b == m.N->getArg(m.N->hasStructRetAttr() ? 1 : 0); if (self0 && n.rfind(" const") != n.size() - 6) ch = true; }
            if (ch) prot[f].second = true; } }
        if (!ever) for (auto& p : ms) for (auto& a : p.second.acc) if (!p.second.ctor) prot[a.first.second].first = true;
        // a group of atomic members whose common value is meaningful: counters that are only ever changed under the lock, or that are read together under it
        auto unguarded = [&](Function* F0, Instruction* I0, const std::string& key, const std::string& what) {
            std::set<Function*> open{F0}; std::vector<Function*> w{F0};
            while (!w.empty()) {
                Function* F = w.back(); w.pop_back(); bool caller = false, outside = false;
                for (auto& p : ms) { for (auto& c : p.second.callsLocked) if (c.second == F) caller = true; for (auto& c : p.second.callsUnlocked) if (c.second == F) { caller = true; if (!p.second.ctor && !p.second.init && open.insert(p.first).second) w.push_back(p.first); } }
                for (auto* U : F->users()) { auto* CB = dyn_cast<CallBase>(U); if (!CB || CB->getCalledOperand() != F) { outside = true; continue; } Function* G = CB->getFunction(); if (!own.count(G) && !G->hasFnAttribute("czi-clone")) outside = true; }
                if (!caller || outside) { std::string nm = C.qname(F); if (has(nm, "lambda") || has(nm, "$_")) R.undecided(key + "|" + nm, C.loc(I0), "in a lambda expression"); else R.bad(key + "|" + nm, C.loc(I0), what); }
            }
        };
        { std::set<const LField*> modLocked, modOpen, together;
          for (auto& p : ms) { Method& m = p.second; if (m.ctor || m.init) continue; std::set<const LField*> rd; bool other = false; for (auto& a : m.at) { if (a.mod) (a.locked ? modLocked : modOpen).insert(a.f); if (a.locked && !a.mod) rd.insert(a.f); } for (auto& a : m.acc) if (a.second) other = true; if (!other && rd.size() > 1) together.insert(rd.begin(), rd.end()); }
          // changes in a helper that is only called with the lock held count as locked
          for (auto& p : ms) { Method& m = p.second; if (m.ctor || m.init) continue; std::set<const LField*> done; for (auto& a : m.at) if (a.mod && !a.locked && together.count(a.f) && done.insert(a.f).second) unguarded(p.first, a.I, K.name + "." + a.f->name + "|changed", "'" + a.f->name + "', which is read under '" + mx->name + "' together with other counters, is changed without holding it"); else if (a.mod && a.locked && together.count(a.f)) R.ok(K.name + "." + a.f->name + "|" + C.qname(p.first), C.loc(a.I), "changed while " + mx->name + " is held"); }
          std::set<const LField*> full; for (auto* f : modLocked) { bool openMod = false; for (auto& p : ms) if (!p.second.ctor && !p.second.init) for (auto& a : p.second.at) if (a.f == f && a.mod && !a.locked) { bool helper = false; for (auto& q : ms) for (auto& c : q.second.callsLocked) helper |= c.second == p.first; openMod |= !helper; } if (!openMod) full.insert(f); }
          for (auto& p : ms) { Method& m = p.second; if (m.ctor || m.init) continue; bool said = false; for (auto& a : m.at) for (auto& b : m.at) if (!said && !a.mod && !b.mod && !a.locked && !b.locked && a.f != b.f && full.count(a.f) && full.count(b.f) && a.I != b.I && isPotentiallyReachable(a.I, b.I)) { said = true; unguarded(p.first, b.I, K.name + "." + a.f->name + "+" + b.f->name, "'" + a.f->name + "' and '" + b.f->name + "', which are changed together under '" + mx->name + "', are read without holding it"); } } }
        // accesses without the lock, propagated to the callers
        for (auto& pf : prot) {
            const LField* f = pf.first; if (!pf.second.first || !pf.second.second) continue; R.counts["protected members"]++;
            std::map<Function*, Instruction*> open; std::vector<Function*> w; unsigned good = 0;
            for (auto& p : ms) { if (p.second.ctor || p.second.init) continue; for (auto& a : p.second.acc) if (a.first.second == f) { if (a.second) { ++good; R.ok(K.name + "." + f->name + "|" + C.qname(p.first) + "|" + std::to_string(good), C.loc(a.first.first), "accessed while " + mx->name + " is held"); } else if (open.emplace(p.first, a.first.first).second) w.push_back(p.first); } }
            while (!w.empty()) {
                Function* F = w.back(); w.pop_back(); bool caller = false, outside = false;
                for (auto& p : ms) { for (auto& c : p.second.callsLocked) if (c.second == F) caller = true; for (auto& c : p.second.callsUnlocked) if (c.second == F) { caller = true; if (!p.second.ctor && !p.second.init && open.emplace(p.first, open[F]).second) w.push_back(p.first); } }
                for (auto* U : F->users()) { auto* CB = dyn_cast<CallBase>(U); if (!CB || CB->getCalledOperand() != F) { outside = true; continue; } Function* G = CB->getFunction(); if (!own.count(G) && !G->hasFnAttribute("czi-clone")) outside = true; }
                if (!caller || outside) { std::string nm = C.qname(F); if (has(nm, "lambda") || has(nm, "$_")) { R.undecided(K.name + "." + f->name + "|" + nm, C.loc(open[F]), "accessed from a lambda expression"); continue; } R.bad(K.name + "." + f->name + "|" + nm, C.loc(open[F]), "member '" + f->name + "' of " + K.name + " is accessed without holding '" + mx->name + "'" + (ever ? ", which protects it elsewhere" : ", which is never acquired")); }
                else R.ok(K.name + "." + f->name + "|" + C.qname(F), C.loc(open[F]), "only called while " + mx->name + " is held");
            }
        }
        // calls of methods that acquire the mutex while it is held
        for (auto& p : ms) for (auto& c : p.second.callsLocked) { auto it = ms.find(c.second); if (it != ms.end() && it->second.definite && p.second.definite && mx->type != "recursive_mutex") R.bad(K.name + "|" + C.qname(p.first) + "|" + C.qname(c.second), C.loc(c.first), "a method which acquires the mutex is called while it is held (deadlock)"); }
        // shared objects are used through an own reference
        for (auto& pf : prot) if (pf.first->isShared && pf.second.first && pf.second.second) for (auto& p : ms) { if (p.second.ctor || p.second.init) continue; for (auto& a : p.second.acc) if (a.first.second == pf.first) if (auto* CB = dyn_cast<CallBase>(a.first.first)) { std::string n = calleeName(C, CB); if (n.size() > 5 && (n.rfind("::get") == n.size() - 5 || has(n, "::operator->") || has(n, "::operator*"))) { bool escapes = false; for (auto* U : CB->users()) if (!isa<ICmpInst>(U)) escapes = true; if (escapes) R.bad(K.name + "." + pf.first->name + "|" + C.qname(p.first) + "|raw", C.loc(CB), "the shared object is used without holding a reference to it: another thread may release it meanwhile"); } } }
        // no release between positioning and transfer
        for (auto& p : ms) {
            std::vector<CallBase*> seeks, xfers; Function& N = *p.second.N; for (auto& I : instructions(N)) if (auto* CB = dyn_cast<CallBase>(&I)) { std::string n = calleeName(C, CB); if (n == "fseeko" || n == "fseek" || n == "fseeko64" || n == "lseek" || n == "lseek64") seeks.push_back(CB); if (n == "fread" || n == "fwrite" || n == "read" || n == "write") xfers.push_back(CB); }
            for (auto* S : seeks) for (auto* X : xfers) {   // is there a path from S to X through a release?
                Value* self = N.getArg(N.hasStructRetAttr() ? 1 : 0); bool bad = false; std::set<std::pair<BasicBlock*, bool>> seen; std::vector<std::pair<Instruction*, bool>> w{{S->isTerminator() ? &cast<InvokeInst>(S)->getNormalDest()->front() : S->getNextNode(), false}};
                while (!w.empty() && !bad) { auto [I, rel] = w.back(); w.pop_back(); BasicBlock* B = I->getParent(); for (; I; I = I->getNextNode()) { if (I == X) { bad |= rel; break; } if (I == S) break; Value* o; if (auto* CB = dyn_cast<CallBase>(I)) if (lockOp(CB, self, o) == Release) rel = true; if (I->isTerminator()) for (auto* T : successors(B)) if (seen.insert({T, rel}).second) w.push_back({&T->front(), rel}); } }
                if (bad) R.bad(K.name + "|" + C.qname(p.first) + "|interrupted", C.loc(X), "the mutex is released between positioning and transfer, so another thread may move the position"); else R.ok(K.name + "|" + C.qname(p.first) + "|position and transfer", C.loc(X), "positioning and transfer in one critical section");
            }
        }
        for (auto& p : ms) { p.second.N->eraseFromParent(); }
    }
}
