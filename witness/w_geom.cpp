#include "w_common.h"
#define private public
#include "utilities.h"
#undef private
// ---- G01: intersection and coverage of rectangles
#define SMALL(v) ((v) > -0x10000000 && (v) < 0x10000000)
// relation of two intervals [a, a+v) and [b, b+w): 0 before, 1 overlapping, 2 second inside, 3 first inside, 4 overlapping from the right, 5 behind
#define RELATED(R, a, v, b, w) ASSUME(SMALL(a) && SMALL(b) && v > 0 && w > 0 && SMALL(v) && SMALL(w)); ASSUME(MEET(R) || (R == 0 ? a + v <= b && a < b && a + v < b + w : b + w <= a && b < a && b + w < a + v)); ASSUME(!MEET(R) || a + v > b); ASSUME(!MEET(R) || b + w > a); \
    if (R == 1) { ASSUME(a < b); ASSUME(a + v < b + w); } if (R == 2) { ASSUME(a < b); ASSUME(b + w < a + v); } if (R == 3) { ASSUME(b < a); ASSUME(a + v < b + w); } if (R == 4) { ASSUME(b < a); ASSUME(b + w < a + v); }
#define LO(R, a, b) ((R) == 3 || (R) == 4 ? (a) : (b))
#define HI(R, a, v, b, w) ((R) == 1 || (R) == 3 ? (a) + (v) : (b) + (w))
#define MEET(R) ((R) != 0 && (R) != 5)
static inline bool is(const IntRect& r, int x, int y, int w, int h) { return r.x == x && r.y == y && r.w == w && r.h == h; }
#define PAIR(R, Q) extern "C" void W_G01_pair_##R##Q(int ax, int ay, int aw, int ah, int bx, int by, int bw, int bh) { \
    RELATED(R, ax, aw, bx, bw); RELATED(Q, ay, ah, by, bh); IntRect a{ax, ay, aw, ah}, b{bx, by, bw, bh}; bool meet = MEET(R) && MEET(Q); \
    REQUIRE(a.IntersectsWith(b) == meet, "whether two rectangles intersect is not determined correctly"); REQUIRE(Utilities::DoIntersect(a, b) == meet, "whether two rectangles intersect is not determined correctly"); \
    IntRect i = a.Intersect(b), j = IntRect::Intersect(a, b), k = Utilities::Intersect(a, b); \
    if (meet) { int x = LO(R, ax, bx), y = LO(Q, ay, by), w = HI(R, ax, aw, bx, bw) - x, h = HI(Q, ay, ah, by, bh) - y; REQUIRE(is(i, x, y, w, h) && is(j, x, y, w, h) && is(k, x, y, w, h), "the intersection of two rectangles is not the common part"); } \
    else { REQUIRE(!i.IsNonEmpty() && !j.IsNonEmpty() && !k.IsNonEmpty(), "the intersection of disjoint rectangles is not empty"); } \
    czi_done(); }
#define ROW(R) PAIR(R, 0) PAIR(R, 1) PAIR(R, 2) PAIR(R, 3) PAIR(R, 4) PAIR(R, 5)
ROW(0) ROW(1) ROW(2) ROW(3) ROW(4) ROW(5)
extern "C" void W_G01_same(int ax, int ay, int aw, int ah) { ASSUME(SMALL(ax) && SMALL(ay) && aw > 0 && ah > 0 && SMALL(aw) && SMALL(ah)); IntRect a{ax, ay, aw, ah}; REQUIRE(a.IntersectsWith(a) && Utilities::DoIntersect(a, a), "a rectangle does not intersect with itself"); REQUIRE(is(a.Intersect(a), ax, ay, aw, ah) && is(Utilities::Intersect(a, a), ax, ay, aw, ah), "the intersection of a rectangle with itself is not the rectangle"); czi_done(); }
extern "C" void W_G01_invalid(int ax, int ay, int aw, int ah, int bx, int by, int bw, int bh) { IntRect a{ax, ay, aw, ah}, b{bx, by, bw, bh}; ASSUME(SMALL(ax) && SMALL(ay) && SMALL(bx) && SMALL(by) && SMALL(aw) && SMALL(ah) && SMALL(bw) && SMALL(bh)); REQUIRE(a.IsValid() == (aw >= 0 && ah >= 0), "validity of a rectangle is wrong"); REQUIRE(a.IsNonEmpty() == (aw > 0 && ah > 0), "a rectangle is not recognised as empty"); a.Invalidate(); REQUIRE(!a.IsValid() && !a.IsNonEmpty() && !a.IntersectsWith(b) && !b.IntersectsWith(a), "an invalidated rectangle is used"); czi_done(); }
extern "C" void W_G01_empty(int ax, int ay, int bx, int by, int bw, int bh) { IntRect a{ax, ay, 0, 5}, c{ax, ay, 5, 0}, b{bx, by, bw, bh}; ASSUME(SMALL(ax) && SMALL(ay) && SMALL(bx) && SMALL(by) && SMALL(bw) && SMALL(bh) && bw >= 0 && bh >= 0); REQUIRE(!a.IsNonEmpty() && a.IsValid() && !a.Intersect(b).IsNonEmpty() && !b.Intersect(c).IsNonEmpty() && !Utilities::DoIntersect(a, b) && !Utilities::DoIntersect(b, c), "an empty rectangle has a non-empty intersection"); czi_done(); }
// the area of a rectangle covered by others; the first is (10,10,10,10) from (x,y)
typedef std::int64_t i64;
struct I { int s, n; };
static inline I iv(int r) { return r == 0 ? I{0, 10} : r == 1 ? I{14, 10} : r == 2 ? I{13, 4} : r == 3 ? I{7, 20} : r == 4 ? I{3, 12} : r == 5 ? I{20, 6} : r == 6 ? I{10, 10} : r == 7 ? I{10, 4} : r == 8 ? I{16, 4} : r == 9 ? I{10, 15} : I{5, 15}; }
static inline int ov(int s, int n, int t, int m) { int l = s > t ? s : t, h = s + n < t + m ? s + n : t + m; return h > l ? h - l : 0; }
#define COVER(R, Q) extern "C" void W_G01_cover_##R##_##Q(int x, int y) { ASSUME(SMALL(x) && SMALL(y)); I u = iv(R), v = iv(Q); RectangleCoverageCalculator c; IntRect all{x, y, 40, 40}, b{x + u.s, y + v.s, u.n, v.n}, a{x + 10, y + 10, 10, 10}; \
    REQUIRE(c.CalcAreaOfIntersectionWithRectangle(all) == 0 && !c.IsCompletelyCovered(a), "something is covered without any rectangle"); c.AddRectangle(a); REQUIRE(c.CalcAreaOfIntersectionWithRectangle(all) == 100 && c.IsCompletelyCovered(a) && !c.IsCompletelyCovered(all), "the area covered by one rectangle is wrong"); c.AddRectangle(b); \
    i64 both = (i64)ov(10, 10, u.s, u.n) * ov(10, 10, v.s, v.n), sum = 100 + (i64)u.n * v.n - both; \
    REQUIRE(c.CalcAreaOfIntersectionWithRectangle(all) == sum, "the area covered by two rectangles is not that of their union"); REQUIRE(c.CalcAreaOfIntersectionWithRectangle(a) == 100 && c.CalcAreaOfIntersectionWithRectangle(b) == (i64)u.n * v.n, "a rectangle which was added is not fully covered"); \
    REQUIRE(c.IsCompletelyCovered(a) && c.IsCompletelyCovered(b) && !c.IsCompletelyCovered(all), "whether a rectangle is completely covered is wrong"); \
    for (int q = 0; q < 3; ++q) { int s = q == 0 ? 9 : q == 1 ? 12 : 17, n = q == 1 ? 5 : 7; IntRect r{x + s, y + s, n, n}; i64 p = (i64)ov(10, 10, s, n) * ov(10, 10, s, n) + (i64)ov(u.s, u.n, s, n) * ov(v.s, v.n, s, n) - (i64)ov(ov(10, 10, u.s, u.n) ? (u.s > 10 ? u.s : 10) : 0, ov(10, 10, u.s, u.n), s, n) * ov(ov(10, 10, v.s, v.n) ? (v.s > 10 ? v.s : 10) : 0, ov(10, 10, v.s, v.n), s, n); REQUIRE(c.CalcAreaOfIntersectionWithRectangle(r) == p, "the covered area of a rectangle is wrong"); REQUIRE(c.IsCompletelyCovered(r) == (p == (i64)n * n), "whether a rectangle is completely covered is wrong"); } \
    czi_done(); }
#define COVERS(R) COVER(R, 0) COVER(R, 1) COVER(R, 2) COVER(R, 3) COVER(R, 4) COVER(R, 5) COVER(R, 6) COVER(R, 7) COVER(R, 8) COVER(R, 9) COVER(R, 10)
COVERS(0) COVERS(1) COVERS(2) COVERS(3) COVERS(4) COVERS(5) COVERS(6) COVERS(7) COVERS(8) COVERS(9) COVERS(10)
extern "C" void W_G01_cover_three(int x, int y) { ASSUME(SMALL(x) && SMALL(y)); RectangleCoverageCalculator c; IntRect r[3] = {{x, y, 10, 10}, {x + 20, y, 10, 10}, {x + 5, y + 2, 20, 6}}; c.AddRectangles(r, r + 3); IntRect all{x - 5, y - 5, 50, 50}; REQUIRE(c.CalcAreaOfIntersectionWithRectangle(all) == 260, "the area covered by three rectangles is not that of their union"); IntRect q{x + 2, y + 2, 24, 6}; REQUIRE(c.IsCompletelyCovered(q), "a rectangle covered by three others is not recognised"); q.h = 7; REQUIRE(!c.IsCompletelyCovered(q) && c.CalcAreaOfIntersectionWithRectangle(q) == 24 * 6 + 8 + 6, "the covered area of a rectangle is wrong"); czi_done(); }
extern "C" void W_G01_cover_large(int x, int y) { ASSUME(SMALL(x) && SMALL(y)); RectangleCoverageCalculator c; IntRect r{x, y, 100000, 100000}; c.AddRectangle(r); REQUIRE(c.CalcAreaOfIntersectionWithRectangle(r) == 10000000000LL && c.IsCompletelyCovered(r), "the covered area of a large rectangle is truncated"); czi_done(); }
extern "C" void W_G01_cover_invalid(int x, int y, int w, int h) { ASSUME(w < 0 || h < 0); ASSUME(SMALL(x) && SMALL(y) && SMALL(w) && SMALL(h)); RectangleCoverageCalculator c; IntRect r{x, y, w, h}; c.AddRectangle(r); REQUIRE(c.CalcAreaOfIntersectionWithRectangle(r) == 0 && c.IsCompletelyCovered(r), "an invalid rectangle is counted"); czi_done(); }
