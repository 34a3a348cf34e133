// Core of the analyser: loads the linked IR of libCZI/libCZIAPI/JxrDecode, names virtual calls, offers
// deep inlining, dominating-condition facts, call graph and diagnostics helpers used by the rules.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

struct Finding {
    std::string status;  // "ok" | "violation" | "undecided"
    std::string key;     // stable identification (no line numbers)
    std::string where;   // file:line
    std::string detail;
};

struct Report {
    std::vector<Finding> items;
    std::map<std::string, int64_t> counts;
    std::vector<std::string> errors;  // anchors that vanished etc. -> analysis broken
    std::vector<std::string> notes;
    void ok(const std::string& key, const std::string& where, const std::string& d = "") { items.push_back({"ok", key, where, d}); }
    void bad(const std::string& key, const std::string& where, const std::string& d) { items.push_back({"violation", key, where, d}); }
    void undecided(const std::string& key, const std::string& where, const std::string& d) { items.push_back({"undecided", key, where, d}); }
    void error(const std::string& e) { errors.push_back(e); }
};

struct VTarget { Function* F; std::string cls; };

struct Ctx {
    LLVMContext llctx;
    std::unique_ptr<Module> M;
    std::map<std::string, std::string> opts;
    std::string repo = "/repo";
    // virtual-call stubs
    DenseMap<Function*, std::string> stubName;                 // stub -> "libCZI::IStream::Read"
    DenseMap<Function*, unsigned> stubSlot;
    DenseMap<Function*, std::vector<Function*>> stubTargets;   // stub -> CHA targets
    // all _Function_handler invokers by signature text
    std::map<std::string, std::vector<Function*>> fnInvokers;
    StringMap<std::string> demangleCache;
    DenseMap<Function*, bool> noReturnCache;

    const std::string& dem(StringRef mangled);
    std::string name(const Function* F) { return dem(F->getName()); }
    std::string qname(const Function* F);   // demangled without arguments
    std::string file(const Function* F);    // source file relative to repo, or ""
    bool inRepo(const Function* F);         // defined in /repo/Src
    std::string loc(const Instruction* I);  // innermost repo location
    std::string fnLoc(const Function* F);
};

void loadAndPrepare(Ctx& C, const std::string& bc);

// "Class::method" part of a demangled name, without template args of std and without parameters
std::string stripArgs(const std::string& dem);

// event naming: returns the demangled qualified name (no params) of the called function; for virtual calls the stub's name;
// for std::function calls "std::function<sig>::operator()"
std::string calleeName(Ctx& C, const CallBase* CB);
Function* calledFn(const CallBase* CB);

// possible targets of a call (direct, CHA, std::function by signature); 'unknown' is set if unresolved
std::vector<Function*> possibleTargets(Ctx& C, const CallBase* CB, bool& unknown);

bool neverReturns(Ctx& C, Function* F);
bool callNeverReturns(Ctx& C, const CallBase* CB);

// ---- transformation helpers
void dropDeadStores(Function& F);
void simplifyFunction(Function& F, bool withInstCombine = false, bool gvn = true);
bool forwardMem(Function& F);
void prepareClone(Ctx& C, Function& F);   // virtual-call stubs back into vtable loads, plain memory
struct InlineOpts {
    std::function<bool(Function*, int depth)> allow;  // extra policy
    unsigned maxCallee = 4000;
    unsigned maxTotal = 60000;
    int maxDepth = 25;
    bool instCombine = false;
    bool devirt = false;   // turn virtual-call stubs back into vtable loads, so that calls on known objects are resolved
};
// clone F and inline everything reachable (policy permitting); result lives in the module
Function* deepClone(Ctx& C, Function* F, const InlineOpts& o, bool* truncated = nullptr);

// ---- facts
struct Fact { Value* cond; bool truth; Instruction* at; };          // cond is an i1 value known to be 'truth'
void factsAtEdge(BasicBlock* From, BasicBlock* To, std::vector<Fact>& out);
void decompose(Value* cond, bool truth, Instruction* at, std::vector<Fact>& out);
std::vector<Fact> dominatingFacts(DominatorTree& DT, BasicBlock* BB);
void setFactCache(std::map<BasicBlock*, std::vector<Fact>>* c);   // while a function is not being changed
Value* stripCasts(Value* V);           // integer casts
Value* stripPtr(Value* V);             // pointer GEPs/casts to base
bool sameValue(Value* A, Value* B, int depth = 0); // structural equality modulo integer casts
// value range of V at BB by facts + structural evaluation
ConstantRange rangeAt(Value* V, BasicBlock* BB, DominatorTree& DT, int depth = 0);
// set of blocks reachable from Start, not crossing 'cut' edges
typedef std::set<std::pair<BasicBlock*, BasicBlock*>> EdgeSet;
std::set<BasicBlock*> reachableFrom(BasicBlock* Start, const EdgeSet& cut);

// linear form  c + sum coeff*leaf  of an integer value (casts are ignored; leaves are compared with sameValue)
struct Lin {
    int64_t c = 0; std::vector<std::pair<Value*, int64_t>> t;
    void add(Value* v, int64_t k) { for (auto& p : t) if (sameValue(p.first, v)) { p.second += k; return; } t.push_back({v, k}); }
    void add(const Lin& o, int64_t k) { c += k * o.c; for (auto& p : o.t) add(p.first, k * p.second); }
    bool isConst() const { for (auto& p : t) if (p.second) return false; return true; }
};
Lin linOf(Value* V, int depth = 0);
std::string str(Value* V);
// edges behind calls that never return
void stopAtNoReturn(Ctx& C, Function* N, EdgeSet& cut);
BasicBlock* retIn(Ctx& C, const std::set<BasicBlock*>& s);
bool factMeansComplete(const Fact& f, Value* countPtr, Value* requested);
std::vector<Function*> readerFunctions(Ctx& C);

// iterate functions defined in repo sources
std::vector<Function*> repoFunctions(Ctx& C);

typedef void (*RuleFn)(Ctx&, Report&);
struct RuleReg { RuleReg(const char* id, RuleFn f); };
std::map<std::string, RuleFn>& ruleRegistry();
#define RULE(ID) static void rule_##ID(Ctx& C, Report& R); static RuleReg reg_##ID(#ID, rule_##ID); static void rule_##ID(Ctx& C, Report& R)
