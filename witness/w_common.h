// common part of the witness units that look into the library's internals
#pragma once
#include "witness.h"
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <istream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <queue>
#include <regex>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <list>
#include <atomic>
#include <locale>
#include <codecvt>
#include "libCZI.h"
#define private public
#define protected public
#include "CziParse.h"
#include "CziWriter.h"
#undef private
#undef protected
using namespace libCZI; using namespace libCZI::detail;
typedef CCziSubBlockDirectoryBase::SubBlkEntry Entry;
static inline Entry mkEntry(int x, int y, int w, int h, int sw, int sh, int m, int px, std::uint64_t pos, int comp, unsigned char pyr) {
    Entry e; e.Invalidate(); e.x = x; e.y = y; e.width = w; e.height = h; e.storedWidth = sw; e.storedHeight = sh; e.mIndex = m; e.PixelType = px; e.FilePosition = pos; e.Compression = comp; e.pyramid_type_from_spare = pyr;
    return e;
}
static inline const DimensionEntryDV* findDim(const SubBlockDirectoryEntryDV& d, char c, int max = 12) { for (int i = 0; i < max && i < d.DimensionCount; ++i) if (d.DimensionEntries[i].Dimension[0] == c) return &d.DimensionEntries[i]; return nullptr; }
static inline bool isId(const unsigned char* id, const char* s) { bool end = false; for (int i = 0; i < 16; ++i) { char c = end ? 0 : s[i]; if (!c) end = true; if (id[i] != (unsigned char)c) return false; } return true; }
struct Rec { std::uint64_t off, size; const void* ptr; };
template <class H> struct Recorder {   // stands for the output stream: remembers position, size and source of each write, and the content of the first
    Rec r[8]; unsigned n = 0; H first;
    void put(std::uint64_t off, const void* pv, std::uint64_t size, std::uint64_t* done) {
        if (n < 8) { if (n == 0) std::memcpy(&first, pv, sizeof(H)); r[n].off = off; r[n].size = size; r[n].ptr = pv; ++n; }
        if (done) *done = size;
    }
};
