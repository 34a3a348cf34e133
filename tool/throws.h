#pragma once
#include "core.h"
// whole-program escape analysis of exception types
struct ThrowInfo { std::map<std::string, const Instruction*> types; };  // typeinfo name -> call site responsible
struct ThrowAnalysis {
    Ctx& C;
    std::map<Function*, ThrowInfo> info;
    std::map<std::string, std::set<std::string>> basesOf; // typeinfo -> all bases
    explicit ThrowAnalysis(Ctx& c);
    bool derives(const std::string& t, const std::string& base);
    std::string chain(Function* F, const std::string& type, int maxDepth = 8);
    std::set<std::string> calleeTypes(const CallBase* CB);
};
