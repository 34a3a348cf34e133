#include "core.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/CommandLine.h"
#include <chrono>
int main(int argc, char** argv) {
    std::string bc, out; std::vector<std::string> rules; Ctx C;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--bc") bc = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--rule") rules.push_back(argv[++i]);
        else if (a == "--repo") C.repo = argv[++i];
        else if (a == "--opt") { std::string o = argv[++i]; auto e = o.find('='); C.opts[o.substr(0, e)] = e == std::string::npos ? "1" : o.substr(e + 1); }
        else if (a == "--list") { for (auto& r : ruleRegistry()) outs() << r.first << "\n"; return 0; }
        else { errs() << "bad arg " << a << "\n"; return 3; }
    }
    const char* tune[] = {"czilint", "--memdep-block-scan-limit=4000", "--memdep-block-number-limit=4000", "--gvn-max-num-deps=1000", "--gvn-max-num-insns=2000",
                          "--capture-tracking-max-uses-to-explore=4000", "--earlycse-mssa-optimization-cap=20000", "--memssa-check-limit=2000", "--available-load-scan-limit=200"};
    cl::ParseCommandLineOptions(sizeof(tune) / sizeof(*tune), tune);
    loadAndPrepare(C, bc);
    json::Object top;
    for (auto& id : rules) {
        auto it = ruleRegistry().find(id);
        if (it == ruleRegistry().end()) { errs() << "no rule " << id << "\n"; return 3; }
        auto t0 = std::chrono::steady_clock::now();
        Report R; it->second(C, R);
        double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        json::Array items; int64_t nok = 0, nbad = 0, nund = 0;
        for (auto& f : R.items) {
            (f.status == "ok" ? nok : f.status == "violation" ? nbad : nund)++;
            items.push_back(json::Object{{"status", f.status}, {"key", f.key}, {"where", f.where}, {"detail", f.detail}});
        }
        json::Object cnt; for (auto& c : R.counts) cnt[c.first] = c.second;
        cnt["ok"] = nok; cnt["violation"] = nbad; cnt["undecided"] = nund;
        json::Array er; for (auto& e : R.errors) er.push_back(e);
        json::Array nt; for (auto& e : R.notes) nt.push_back(e);
        top[id] = json::Object{{"items", std::move(items)}, {"counts", std::move(cnt)}, {"errors", std::move(er)}, {"notes", std::move(nt)}, {"seconds", s}};
    }
    std::error_code ec; raw_fd_ostream os(out.empty() ? "-" : out, ec);
    os << formatv("{0:2}", json::Value(std::move(top))) << "\n";
    return 0;
}
