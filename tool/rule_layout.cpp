#include "core.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
// F01: byte layout of the on-disk structures, from the type-checked program (debug info types)
struct Mem { const char* name; unsigned off, size; };
struct Lay { const char* type; unsigned size; std::vector<Mem> m; };
static const std::vector<Lay>& layouts() {
    static const std::vector<Lay> t = {
        {"SegmentHeader", 32, {{"Id", 0, 16}, {"AllocatedSize", 16, 8}, {"UsedSize", 24, 8}}},
        {"FileHeaderSegmentData", 512, {{"Major", 0, 4}, {"Minor", 4, 4}, {"PrimaryFileGuid", 16, 16}, {"FileGuid", 32, 16}, {"FilePart", 48, 4}, {"SubBlockDirectoryPosition", 52, 8}, {"MetadataPosition", 60, 8}, {"updatePending", 68, 4}, {"AttachmentDirectoryPosition", 72, 8}}},
        {"DimensionEntry", 20, {{"Dimension", 0, 4}, {"Start", 4, 4}, {"Size", 8, 4}, {"StartCoordinate", 12, 4}, {"StoredSize", 16, 4}}},
        {"DimensionEntryDV", 20, {}},
        {"SubBlockDirectoryEntryDV", 832, {{"SchemaType", 0, 2}, {"PixelType", 2, 4}, {"FilePosition", 6, 8}, {"FilePart", 14, 4}, {"Compression", 18, 4}, {"_spare", 22, 6}, {"DimensionCount", 28, 4}, {"DimensionEntries", 32, 800}}},
        {"SubBlockDirectoryEntryDE", 128, {{"SchemaType", 0, 2}, {"PixelType", 2, 4}, {"FilePosition", 80, 8}}},
        {"SubBlockDirectorySegmentData", 128, {{"EntryCount", 0, 4}}},
        {"AttachmentEntryA1", 128, {{"SchemaType", 0, 2}, {"FilePosition", 12, 8}, {"FilePart", 20, 4}, {"ContentGuid", 24, 16}, {"ContentFileType", 40, 8}, {"Name", 48, 80}}},
        {"AttachmentSegmentData", 256, {{"DataSize", 0, 8}}},
        {"AttachmentDirectorySegmentData", 256, {{"EntryCount", 0, 4}}},
        {"SubBlockSegmentData", 848, {{"MetadataSize", 0, 4}, {"AttachmentSize", 4, 4}, {"DataSize", 8, 8}}},
        {"MetadataSegmentData", 256, {{"XmlSize", 0, 4}, {"AttachmentSize", 4, 4}}},
        {"SubBlockDirectorySegment", 160, {{"header", 0, 32}, {"data", 32, 128}}},
        {"SubBlockSegment", 880, {{"header", 0, 32}, {"data", 32, 848}}},
        {"MetadataSegment", 288, {{"header", 0, 32}, {"data", 32, 256}}},
        {"AttachmentDirectorySegment", 288, {{"header", 0, 32}, {"data", 32, 256}}},
        {"AttachmentSegment", 288, {{"header", 0, 32}, {"data", 32, 256}}},
        {"FileHeaderSegment", 544, {{"header", 0, 32}, {"data", 32, 512}}},
        {"GUID", 16, {{"Data1", 0, 4}, {"Data2", 4, 2}, {"Data3", 6, 2}, {"Data4", 8, 8}}},
    };
    return t;
}
static void sig(const Function*, int) {}
extern int witnessRule(Ctx&, Report&, const std::string&);

static std::string gbytes(Value* V, uint64_t n) {
    auto* G = dyn_cast<GlobalVariable>(V->stripPointerCasts());
    if (!G || !G->hasInitializer() || !G->isConstant()) return "";
    auto* D = dyn_cast<ConstantDataSequential>(G->getInitializer()); if (!D) return "";
    std::string s = D->getRawDataValues().str(); if (s.size() < n) s.resize(n, '\0'); return s.substr(0, n);
}

RULE(F01) {
    DebugInfoFinder D; D.processModule(*C.M);
    std::map<std::string, const DICompositeType*> types;
    for (auto* T : D.types()) if (auto* S = dyn_cast<DICompositeType>(T)) if (!S->getName().empty() && S->getSizeInBits() && !S->isForwardDecl()) {
        std::string f = S->getFile() ? S->getFile()->getFilename().str() : "";
        auto* sc = dyn_cast_or_null<DINamespace>(S->getScope());
        // on-disk structures live in a namespace (not nested in a class)
        if (!sc) continue;
        types[S->getName().str()] = S;
    }
    int nm = 0, missing = 0;
    for (auto& l : layouts()) {
        auto it = types.find(l.type);
        if (it == types.end()) { R.undecided(std::string("layout of ") + l.type, "types", "no such type"); missing++; continue; }
        auto* S = it->second; std::string where = S->getFile() ? S->getFile()->getFilename().str() + ":" + std::to_string(S->getLine()) : "?";
        if (where.compare(0, C.repo.size(), C.repo) == 0) where = where.substr(C.repo.size() + 1);
        uint64_t sz = S->getSizeInBits() / 8;
        if (sz != l.size) R.bad(std::string("size of ") + l.type, where, "is " + std::to_string(sz) + " bytes, the file format (or its in-memory maximum) requires " + std::to_string(l.size)); else R.ok(std::string("size of ") + l.type, where, std::to_string(sz));
        for (auto& m : l.m) {
            const DIDerivedType* f = nullptr;
            std::function<void(const DICompositeType*, uint64_t)> find = [&](const DICompositeType* T, uint64_t base) {
                for (auto* e : T->getElements()) if (auto* d = dyn_cast_or_null<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member && d->getName() == m.name) f = d;
            };
            find(S, 0);
            std::string key = std::string(l.type) + "." + m.name;
            if (!f) { R.undecided(key, where, "no such member"); missing++; continue; }
            nm++;
            uint64_t off = f->getOffsetInBits() / 8, s = f->getSizeInBits() / 8;
            if (off != m.off || s != m.size) R.bad(key, where, "lies at offset " + std::to_string(off) + " with " + std::to_string(s) + " bytes; the file format requires offset " + std::to_string(m.off) + ", " + std::to_string(m.size) + " bytes");
            else R.ok(key, where, "offset " + std::to_string(off) + ", " + std::to_string(s) + " bytes");
        }
    }
    R.counts["members"] = nm;
    if (nm < 20) R.error("on-disk structures not found");
}
