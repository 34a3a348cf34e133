#include "witness.h"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <mutex>
#include <sstream>
#include <iostream>
#include <set>
#include <tuple>
#include <limits>
#include "libCZI.h"
#define private public
#include "CziParse.h"
#undef private
using namespace libCZI; using namespace libCZI::detail;
// ---- F03: letters of the dimension entries in a file
#define DIM(L, l) \
    extern "C" void W_F03_parse_##L() { REQUIRE(CCZIParse::DimensionCharToDimensionIndex(#L, 4) == DimensionIndex::L, "dimension entry '" #L "' of a file is not parsed as dimension " #L); } \
    extern "C" void W_F03_parse_lower_##L() { REQUIRE(CCZIParse::DimensionCharToDimensionIndex(#l, 4) == DimensionIndex::L, "dimension entry '" #l "' of a file is not parsed as dimension " #L); } \
    extern "C" void W_F03_parse_notxym_##L() { REQUIRE(!CCZIParse::IsXDimension(#L, 4) && !CCZIParse::IsYDimension(#L, 4) && !CCZIParse::IsMDimension(#L, 4), "dimension entry '" #L "' is taken for X, Y or M"); }
DIM(Z, z) DIM(C, c) DIM(T, t) DIM(R, r) DIM(S, s) DIM(I, i) DIM(H, h) DIM(V, v) DIM(B, b)
extern "C" void W_F03_parse_X() { REQUIRE(CCZIParse::IsXDimension("X", 4) && !CCZIParse::IsYDimension("X", 4) && !CCZIParse::IsMDimension("X", 4), "dimension entry 'X' not recognised"); }
extern "C" void W_F03_parse_Y() { REQUIRE(!CCZIParse::IsXDimension("Y", 4) && CCZIParse::IsYDimension("Y", 4) && !CCZIParse::IsMDimension("Y", 4), "dimension entry 'Y' not recognised"); }
extern "C" void W_F03_parse_M() { REQUIRE(!CCZIParse::IsXDimension("M", 4) && !CCZIParse::IsYDimension("M", 4) && CCZIParse::IsMDimension("M", 4), "dimension entry 'M' not recognised"); }
extern "C" void W_F03_parse_unknown() { CCZIParse::DimensionCharToDimensionIndex("Q", 4); czi_violation("unknown dimension letter is accepted"); }
