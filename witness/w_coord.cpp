#include "w_common.h"
#define private public
#include "IndexSet.h"
#include "utilities.h"
#undef private
// ---- U01: coordinates and bounds
typedef DimensionIndex D;
static inline int at(const IDimCoordinate& c, D d) { int v = 0x12345678; c.TryGetPosition(d, &v); return v; }
static inline bool only(const CDimCoordinate& c, unsigned mask) { bool ok = true; for (int i = 1; i <= 9; ++i) ok = ok && c.IsValid((D)i) == ((mask >> i & 1) != 0) && c.TryGetPosition((D)i, nullptr) == ((mask >> i & 1) != 0); return ok; }
static inline bool onlyB(const CDimBounds& c, unsigned mask) { bool ok = true; for (int i = 1; i <= 9; ++i) ok = ok && c.IsValid((D)i) == ((mask >> i & 1) != 0); return ok; }
#define BIT(d) (1u << (int)D::d)
#define ONE(A, B) extern "C" void W_U01_set_##A##B(int v, int w, int z) { CDimCoordinate c; REQUIRE(only(c, 0) && c.GetValidDimensionsCount() == 0 && c.GetNumberOfValidDimensions() == 0, "a new coordinate is not empty"); c.Set(D::A, v); REQUIRE(only(c, BIT(A)) && at(c, D::A) == v, "a coordinate does not hold the value set for " #A); c.Set(D::B, w); \
    REQUIRE(only(c, BIT(A) | BIT(B)) && at(c, D::A) == v && at(c, D::B) == w, "setting a dimension changes another one"); REQUIRE(c.GetValidDimensionsCount() == 2 && c.GetNumberOfValidDimensions() == 2, "the number of dimensions is wrong"); \
    CDimCoordinate k(&c); REQUIRE(only(k, BIT(A) | BIT(B)) && at(k, D::A) == v && at(k, D::B) == w, "the copy of a coordinate differs"); c.Set(D::A, z); REQUIRE(at(c, D::A) == z && at(c, D::B) == w && at(k, D::A) == v, "a value of a coordinate is not replaced"); \
    c.Clear(D::A); REQUIRE(only(c, BIT(B)) && at(c, D::B) == w, "clearing a dimension changes another one"); c.Clear(); REQUIRE(only(c, 0) && !only(k, 0), "a coordinate is not cleared"); \
    CDimCoordinate l{{D::A, v}, {D::B, w}, {D::A, z}}; REQUIRE(only(l, BIT(A) | BIT(B)) && at(l, D::A) == z && at(l, D::B) == w, "a coordinate does not hold what it was initialised with"); czi_done(); } \
    extern "C" void W_U01_bounds_##A##B(int s, int n, int t, int m) { CDimBounds c; REQUIRE(onlyB(c, 0) && c.IsEmpty(), "new bounds are not empty"); c.Set(D::A, s, n); c.Set(D::B, t, m); int x = 0, y = 0; REQUIRE(!c.IsEmpty() && onlyB(c, BIT(A) | BIT(B)) && c.TryGetInterval(D::A, &x, &y) && x == s && y == n, "bounds do not hold the interval set for " #A); REQUIRE(c.TryGetInterval(D::B, &x, &y) && x == t && y == m, "setting an interval changes another one"); \
    CDimBounds k(&c); REQUIRE(onlyB(k, BIT(A) | BIT(B)) && k.TryGetInterval(D::A, &x, nullptr) && x == s && k.TryGetInterval(D::B, nullptr, &y) && y == m, "a copy of bounds differs"); c.Clear(D::A); REQUIRE(onlyB(c, BIT(B)) && c.TryGetInterval(D::B, &x, &y) && x == t && y == m, "clearing an interval changes another one"); c.Clear(); REQUIRE(c.IsEmpty() && onlyB(c, 0), "bounds are not cleared"); \
    CDimBounds l{{D::A, s, n}, {D::B, t, m}}; REQUIRE(onlyB(l, BIT(A) | BIT(B)) && l.TryGetInterval(D::A, &x, &y) && x == s && y == n, "bounds do not hold what they were initialised with"); czi_done(); }
ONE(Z, C) ONE(C, T) ONE(T, R) ONE(R, S) ONE(S, I) ONE(I, H) ONE(H, V) ONE(V, B) ONE(B, Z) ONE(C, Z)
extern "C" void W_U01_copy_null() { CDimCoordinate c((const IDimCoordinate*)nullptr); REQUIRE(only(c, 0), "a copy of nothing is not empty"); czi_done(); }
extern "C" void W_U01_all(int v) { CDimCoordinate c; for (int i = 1; i <= 9; ++i) c.Set((D)i, v + i); for (int i = 1; i <= 9; ++i) REQUIRE(at(c, (D)i) == v + i, "a coordinate does not hold all dimensions"); REQUIRE(c.GetValidDimensionsCount() == 9, "the number of dimensions is wrong"); int n = 0; bool ok = true; c.EnumValidDimensions([&](D d, int x) { ++n; ok = ok && (int)d == n && x == v + n; return n != 5; }); REQUIRE(ok && n == 5, "the dimensions of a coordinate are not enumerated in order"); czi_done(); }
extern "C" void W_U01_enum(int v, int w) { CDimCoordinate c{{D::V, v}, {D::C, w}}; int n = 0; bool ok = true; c.EnumValidDimensions([&](D d, int x) { ok = ok && (n == 0 ? d == D::C && x == w : d == D::V && x == v); ++n; return true; }); REQUIRE(ok && n == 2, "the dimensions of a coordinate are not enumerated exactly"); CDimBounds b{{D::V, v, 3}, {D::C, w, 7}}; n = 0; b.EnumValidDimensions([&](D d, int x, int s) { ok = ok && (n == 0 ? d == D::C && x == w && s == 7 : d == D::V && x == v && s == 3); ++n; return true; }); REQUIRE(ok && n == 2, "the intervals of bounds are not enumerated exactly"); czi_done(); }
// comparison of coordinates
static inline int cmp(const CDimCoordinate& a, const CDimCoordinate& b) { return Utils::Compare(&a, &b); }
#define CMP(A, B) extern "C" void W_U01_compare_##A##B(int v, int w, int x) { ASSUME(v < w); CDimCoordinate a{{D::A, v}, {D::B, w}}, b{{D::A, v}, {D::B, w}}, c{{D::A, w}, {D::B, v}}, d{{D::A, v}, {D::B, v}}, e{{D::A, x}}, f{{D::B, x}}, n; \
    REQUIRE(cmp(a, b) == 0 && cmp(b, a) == 0, "equal coordinates compare as different"); REQUIRE(cmp(a, c) < 0 && cmp(c, a) > 0, "coordinates are not ordered by their first dimension"); REQUIRE(cmp(a, d) > 0 && cmp(d, a) < 0, "coordinates are not ordered by their second dimension"); \
    REQUIRE(cmp(n, e) < 0 && cmp(e, n) > 0 && cmp(n, n) == 0, "a coordinate without a dimension does not come first"); REQUIRE(cmp(e, f) > 0 && cmp(f, e) < 0, "coordinates with different dimensions are not ordered"); \
    REQUIRE(Utils::HasSameDimensions(&a, &c) && Utils::HasSameDimensions(&n, &n), "coordinates with the same dimensions are not recognised"); REQUIRE(!Utils::HasSameDimensions(&a, &e) && !Utils::HasSameDimensions(&e, &a) && !Utils::HasSameDimensions(&e, &f) && !Utils::HasSameDimensions(&n, &f), "coordinates with different dimensions are taken for the same"); czi_done(); }
CMP(Z, C) CMP(C, T) CMP(T, R) CMP(R, S) CMP(S, I) CMP(I, H) CMP(H, V) CMP(V, B) CMP(Z, B)
// enumeration of all coordinates in bounds
#define SMALL(v) ((v) > -0x10000000 && (v) < 0x10000000)
#define WALK(NAME, A, NA, B, NB, C, NC) extern "C" void W_U01_walk_##NAME() { const int a = -1, b = 4, c = 0; CDimBounds s{{D::A, a, NA}, {D::B, b, NB}, {D::C, c, NC}}; int n = 0; bool ok = true; \
    bool r = Utils::EnumAllCoordinates(s, [&](std::uint64_t no, const CDimCoordinate& k) { ok = ok && no == (std::uint64_t)n && at(k, D::A) == a + n % NA && at(k, D::B) == b + n / NA % NB && at(k, D::C) == c + n / NA / NB && k.GetValidDimensionsCount() == 3; ++n; return true; }); \
    REQUIRE(r && n == NA * NB * NC, "not every coordinate in the bounds is enumerated once"); REQUIRE(ok, "an enumerated coordinate is wrong"); czi_done(); }
WALK(zct, Z, 2, C, 3, T, 2) WALK(ctv, C, 1, T, 2, V, 3) WALK(rsb, R, 3, S, 1, B, 2) WALK(ihv, I, 1, H, 1, V, 4) WALK(one, Z, 1, C, 1, T, 1) WALK(big, Z, 5, R, 1, B, 2)
extern "C" void W_U01_walk_stop() { const int a = 7, b = -3; CDimBounds s{{D::Z, a, 3}, {D::C, b, 2}}; int n = 0; bool r = Utils::EnumAllCoordinates(s, [&](std::uint64_t, const CDimCoordinate&) { ++n; return n < 4; }); REQUIRE(!r && n == 4, "an enumeration is not stopped"); CDimBounds e; n = 0; r = Utils::EnumAllCoordinates(e, [&](std::uint64_t, const CDimCoordinate&) { ++n; return true; }); REQUIRE(r && n == 0, "coordinates are enumerated in empty bounds"); czi_done(); }
// ---- U02: textual index sets, coordinates and colours
#define SET(NAME, TEXT, COND) extern "C" void W_U02_set_##NAME(int i) { CIndexSet s(L##TEXT); bool e = (COND); if (e) REQUIRE(s.IsContained(i), "the index set '" TEXT "' does not contain an index it names"); else REQUIRE(!s.IsContained(i), "the index set '" TEXT "' does not contain exactly the indexes it names"); czi_done(); }
SET(one, "5", i == 5) SET(zero, "0", i == 0) SET(range, "3-7", i >= 3 && i <= 7) SET(list, "1,4-6,9", i == 1 || (i >= 4 && i <= 6) || i == 9) SET(spaces, " 2 , 10-12 ", i == 2 || (i >= 10 && i <= 12)) SET(neg, "-5", i == -5) SET(negs, "-5--2", i >= -5 && i <= -2) SET(plus, "+4-+6", i >= 4 && i <= 6) SET(low, "-inf-3", i <= 3) SET(high, "7-inf", i >= 7) SET(highp, "7-+inf", i >= 7) SET(all, "-inf-inf", true) SET(both, "-inf-2,8-inf", i <= 2 || i >= 8) SET(large, "2147483646-2147483647", i >= 2147483646) SET(same, "3-3", i == 3) SET(overlap, "1-5,3-8", i >= 1 && i <= 8)
#define NOSET(NAME, TEXT) extern "C" void W_U02_noset_##NAME(int i) { czi_exceptions(); REJECTS(CIndexSet s(L##TEXT), "the text '" TEXT "' is accepted as an index set"); czi_done(); }
NOSET(order, "7-3") NOSET(letter, "a") NOSET(letter2, "3-x") NOSET(two, "3 4") NOSET(tail, "3-4x") NOSET(open, "3-") NOSET(huge, "2147483648") NOSET(huge2, "0-99999999999") NOSET(low, "-2147483649") NOSET(second, "1,b") NOSET(three, "1-2-3") NOSET(sign, "-") NOSET(plus, "+") NOSET(sign2, "1--") NOSET(sign3, "-,4")
static inline bool dims(const CDimCoordinate& c, unsigned mask) { return only(c, mask); }
#define CO(NAME, TEXT, COND) extern "C" void W_U02_coord_##NAME() { CDimCoordinate c = CDimCoordinate::Parse(TEXT); REQUIRE(COND, "the coordinate '" TEXT "' is not understood"); czi_done(); }
#define ALLD(X) X(Z) X(C) X(T) X(R) X(S) X(I) X(H) X(V) X(B)
#define CO1(d) CO(one_##d, #d "17", only(c, BIT(d)) && at(c, D::d) == 17)
ALLD(CO1)
CO(two, "C1T22", only(c, BIT(C) | BIT(T)) && at(c, D::C) == 1 && at(c, D::T) == 22) CO(neg, "Z-5S+3", only(c, BIT(Z) | BIT(S)) && at(c, D::Z) == -5 && at(c, D::S) == 3) CO(sep, " c 4, t5 ; R0", only(c, BIT(C) | BIT(T) | BIT(R)) && at(c, D::C) == 4 && at(c, D::T) == 5 && at(c, D::R) == 0) CO(max, "H2147483647", at(c, D::H) == 2147483647) CO(min, "V-2147483648", at(c, D::V) == -2147483647 - 1) CO(lead, "B0007", at(c, D::B) == 7) CO(none, "", only(c, 0))
#define NOCO(NAME, TEXT) extern "C" void W_U02_nocoord_##NAME() { czi_exceptions(); CDimCoordinate k{{D::Z, 9}}; bool b = Utils::StringToDimCoordinate(TEXT, &k); REQUIRE(!b, "the text '" TEXT "' is accepted as a coordinate"); REQUIRE(at(k, D::Z) == 9, "a rejected text changes the coordinate"); czi_done(); }
NOCO(letter, "Q1") NOCO(dup, "C1T2C3") NOCO(nonum, "C") NOCO(huge, "C2147483648") NOCO(low, "Z-2147483649") NOCO(long_, "T99999999999999") NOCO(text, "Z1x") NOCO(sign, "Z-") NOCO(twosign, "Z--1")
#define COL(NAME, TEXT, R, G, B) extern "C" void W_U02_colour_##NAME() { Rgb8Color c{1, 2, 3}; bool b = Utilities::TryGetRgb8ColorFromString(std::wstring(L##TEXT), c); REQUIRE(b && c.r == R && c.g == G && c.b == B, "the colour '" TEXT "' is not understood"); czi_done(); }
COL(a, "#FF01A2f3", 0x01, 0xA2, 0xF3) COL(b, " #ff9B7C8d", 0x9b, 0x7c, 0x8d) COL(c, "#00456EDF", 0x45, 0x6e, 0xdf)
#define NOCOL(NAME, TEXT) extern "C" void W_U02_nocolour_##NAME() { Rgb8Color c{1, 2, 3}; bool b = Utilities::TryGetRgb8ColorFromString(std::wstring(TEXT), c); REQUIRE(!b && c.r == 1 && c.g == 2 && c.b == 3, "a text which is no colour is accepted as one"); czi_done(); }
NOCOL(empty, L"") NOCOL(hash, L"#") NOCOL(nohash, L"FF01A2F3F") NOCOL(letter, L"#FF01A2G3") NOCOL(short_, L"#FF01A2F") NOCOL(wide, L"#FF01A2F\x1F600") NOCOL(space, L"#FF 1A2F3")
extern "C" void W_U02_colour_text(unsigned char r) { Rgb8Color c{0x1f, 0xa0, 0xc7}; std::string s = Utilities::Rgb8ColorToString(c); REQUIRE(s == "#FF1FA0C7", "a colour is not written as its text"); czi_done(); }
