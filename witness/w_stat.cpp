#include "w_flow.h"
// ---- T01: statistics describe exactly the sub-blocks which are present
#define SMALL(v) ((v) > -0x10000000 && (v) < 0x10000000)
static inline AddSubBlockInfoMemPtr blk(int m, int x, int y, int w, int h, const void* p) { AddSubBlockInfoMemPtr a = sbInfo(0, x, y, m, w, h, p, 1); return a; }
// the relative position of two sub-blocks: 0 second further right, 1 second starts left and reaches further, 2 second is left of the end of the first
#define REL(R, a, b) ASSUME(SMALL(a) && SMALL(b) && (R == 0 ? b >= a : R == 1 ? (b < a && b + 5 > a + 3) : b + 5 <= a + 3))
#define LO(R, a, b) (R == 0 ? a : b)
#define HI(R, a, b) (R == 2 ? a + 3 : b + 5)
#define BOXES(R) \
extern "C" void W_T01_box_x##R(int x0, int x1, unsigned char p) { \
    REL(R, x0, x1); Bytes<4096> mem; auto wr = mkWriter(mem); wr->SyncAddSubBlock(blk(0, x0, 7, 3, 4, &p)); wr->SyncAddSubBlock(blk(1, x1, 8, 5, 6, &p)); auto s = wr->GetStatistics(); \
    REQUIRE(s.subBlockCount == 2, "number of sub-blocks is wrong"); REQUIRE(s.boundingBox.x == LO(R, x0, x1), "left edge of the bounding box is wrong"); \
    REQUIRE(s.boundingBox.x + s.boundingBox.w == HI(R, x0, x1), "right edge of the bounding box is wrong"); \
    REQUIRE(s.boundingBox.y == 7 && s.boundingBox.h == 7, "vertical extent of the bounding box is wrong"); \
    REQUIRE(s.boundingBoxLayer0Only.x == s.boundingBox.x && s.boundingBoxLayer0Only.w == s.boundingBox.w && s.boundingBoxLayer0Only.y == 7 && s.boundingBoxLayer0Only.h == 7, "bounding box of layer 0 is wrong"); \
    czi_done(); } \
extern "C" void W_T01_box_y##R(int y0, int y1, unsigned char p) { \
    REL(R, y0, y1); Bytes<4096> mem; auto wr = mkWriter(mem); wr->SyncAddSubBlock(blk(0, 8, y0, 4, 3, &p)); wr->SyncAddSubBlock(blk(1, 7, y1, 6, 5, &p)); auto s = wr->GetStatistics(); \
    REQUIRE(s.boundingBox.y == LO(R, y0, y1), "top edge of the bounding box is wrong"); REQUIRE(s.boundingBox.y + s.boundingBox.h == HI(R, y0, y1), "bottom edge of the bounding box is wrong"); \
    REQUIRE(s.boundingBox.x == 7 && s.boundingBox.w == 6, "horizontal extent of the bounding box is wrong"); \
    REQUIRE(s.boundingBoxLayer0Only.y == s.boundingBox.y && s.boundingBoxLayer0Only.h == s.boundingBox.h && s.boundingBoxLayer0Only.x == 7 && s.boundingBoxLayer0Only.w == 6, "bounding box of layer 0 is wrong"); \
    czi_done(); } \
extern "C" void W_T01_scenes##R(int x0, int x1, int x2, unsigned char p) { \
    REL(R, x1, x2); ASSUME(SMALL(x0) && x0 + 9 < x1 && x0 + 9 < x2); Bytes<8192> mem; auto wr = mkWriter(mem); auto a = blk(0, x0, 1, 4, 4, &p); a.coordinate.Set(DimensionIndex::S, 0); wr->SyncAddSubBlock(a); a = blk(1, x1, 1, 3, 4, &p); a.coordinate.Set(DimensionIndex::S, 1); wr->SyncAddSubBlock(a); a = blk(2, x2, 1, 5, 4, &p); a.coordinate.Set(DimensionIndex::S, 1); wr->SyncAddSubBlock(a); auto s = wr->GetStatistics(); \
    REQUIRE(s.sceneBoundingBoxes.size() == 2, "number of scenes is wrong"); auto i = s.sceneBoundingBoxes.find(0), j = s.sceneBoundingBoxes.find(1); REQUIRE(i != s.sceneBoundingBoxes.end() && j != s.sceneBoundingBoxes.end(), "a scene is missing"); \
    REQUIRE(i->second.boundingBox.x == x0 && i->second.boundingBox.w == 4 && i->second.boundingBoxLayer0.x == x0, "bounding box of a scene is wrong"); \
    auto b = j->second.boundingBox; REQUIRE(b.x == LO(R, x1, x2) && b.x + b.w == HI(R, x1, x2), "bounding box of a scene with two sub-blocks is wrong"); \
    auto c = j->second.boundingBoxLayer0; REQUIRE(c.x == LO(R, x1, x2) && c.x + c.w == HI(R, x1, x2), "layer-0 bounding box of a scene with two sub-blocks is wrong"); czi_done(); }
BOXES(0) BOXES(1) BOXES(2)
extern "C" void W_T01_box_inside(int x0, int y0, int dx, int dy, unsigned char p) {
    ASSUME(SMALL(x0) && SMALL(y0) && dx >= 0 && dy >= 0 && dx <= 4 && dy <= 4); Bytes<4096> mem; auto wr = mkWriter(mem); wr->SyncAddSubBlock(blk(0, x0, y0, 9, 9, &p)); wr->SyncAddSubBlock(blk(1, x0 + dx, y0 + dy, 5, 5, &p)); auto s = wr->GetStatistics();
    REQUIRE(s.boundingBox.x == x0 && s.boundingBox.y == y0 && s.boundingBox.w == 9 && s.boundingBox.h == 9, "a sub-block inside another one changes the bounding box"); czi_done(); }
extern "C" void W_T01_layer0(int x0, int y0, int w0, int h0, unsigned char p) {
    ASSUME(SMALL(x0) && SMALL(y0) && w0 > 2 && h0 > 2 && SMALL(w0) && SMALL(h0)); Bytes<4096> mem; auto wr = mkWriter(mem); auto a = blk(0, x0, y0, w0, h0, &p); a.physicalWidth = 1; a.physicalHeight = 1; wr->SyncAddSubBlock(a); auto s = wr->GetStatistics();
    REQUIRE(s.subBlockCount == 1 && s.boundingBox.x == x0 && s.boundingBox.y == y0 && s.boundingBox.w == w0 && s.boundingBox.h == h0, "bounding box of a pyramid sub-block is wrong");
    REQUIRE(!s.boundingBoxLayer0Only.IsValid(), "a pyramid sub-block is counted for layer 0"); czi_done();
}
extern "C" void W_T01_layer0_two(int x0, int x1, unsigned char p) {
    ASSUME(SMALL(x0) && SMALL(x1)); Bytes<4096> mem; auto wr = mkWriter(mem); auto a = blk(0, x1, 8, 8, 8, &p); a.physicalWidth = 2; a.physicalHeight = 2; wr->SyncAddSubBlock(a); wr->SyncAddSubBlock(blk(0, x0, 7, 3, 4, &p)); auto s = wr->GetStatistics();
    REQUIRE(s.subBlockCount == 2 && s.boundingBoxLayer0Only.x == x0 && s.boundingBoxLayer0Only.y == 7 && s.boundingBoxLayer0Only.w == 3 && s.boundingBoxLayer0Only.h == 4, "bounding box of layer 0 includes other layers"); czi_done();
}
template <bool UP> static inline void mindex(int m0, int m1, unsigned char p) {
    ASSUME(m0 >= 0 && m1 >= 0 && m0 < 0x7fffffff && m1 < 0x7fffffff && (UP ? m0 < m1 : m0 > m1)); Bytes<4096> mem; auto wr = mkWriter(mem); auto a = blk(0, 1, 1, 1, 1, &p); a.mIndex = m0; wr->SyncAddSubBlock(a); a = blk(0, 1, 1, 1, 1, &p); a.coordinate.Set(DimensionIndex::C, 1); a.mIndex = m1; wr->SyncAddSubBlock(a); auto s = wr->GetStatistics();
    REQUIRE(s.minMindex == (UP ? m0 : m1), "smallest M-index is wrong"); REQUIRE(s.maxMindex == (UP ? m1 : m0), "largest M-index is wrong"); REQUIRE(s.IsMIndexValid(), "M-indices are not recognised"); czi_done();
}
extern "C" void W_T01_mindex_up(int m0, int m1, unsigned char p) { mindex<true>(m0, m1, p); }
extern "C" void W_T01_mindex_down(int m0, int m1, unsigned char p) { mindex<false>(m0, m1, p); }
extern "C" void W_T01_no_mindex(unsigned char p) {
    Bytes<4096> mem; auto wr = mkWriter(mem); auto a = blk(0, 1, 1, 1, 1, &p); a.mIndexValid = false; wr->SyncAddSubBlock(a); auto s = wr->GetStatistics(); REQUIRE(!s.IsMIndexValid() && s.subBlockCount == 1, "an M-index is reported although there is none"); czi_done();
}
template <bool UP> static inline void dims(int c0, int c1, unsigned char p) {
    ASSUME(SMALL(c0) && SMALL(c1) && (UP ? c0 < c1 : c1 < c0)); Bytes<4096> mem; auto wr = mkWriter(mem); auto a = blk(0, 1, 1, 1, 1, &p); a.coordinate.Set(DimensionIndex::C, c0); a.coordinate.Set(DimensionIndex::Z, 5); wr->SyncAddSubBlock(a); a.coordinate.Set(DimensionIndex::C, c1); a.mIndex = 1; wr->SyncAddSubBlock(a); auto s = wr->GetStatistics();
    int b = 0, n = 0; REQUIRE(s.dimBounds.TryGetInterval(DimensionIndex::C, &b, &n), "bounds of a dimension are missing"); REQUIRE(b == (UP ? c0 : c1), "start of a dimension is wrong"); REQUIRE(b + n == (UP ? c1 : c0) + 1, "extent of a dimension is wrong");
    REQUIRE(s.dimBounds.TryGetInterval(DimensionIndex::Z, &b, &n) && b == 5 && n == 1, "bounds of a dimension with one value are wrong"); REQUIRE(!s.dimBounds.IsValid(DimensionIndex::T) && !s.dimBounds.IsValid(DimensionIndex::S), "bounds of a dimension appear which no sub-block has"); czi_done();
}
extern "C" void W_T01_dims_up(int c0, int c1, unsigned char p) { dims<true>(c0, c1, p); }
extern "C" void W_T01_dims_down(int c0, int c1, unsigned char p) { dims<false>(c0, c1, p); }
template <int D, class R> static inline void statIs(R& r, int x0, int x1) {
    auto s = r->GetStatistics(); REQUIRE(s.subBlockCount == 2, "number of sub-blocks of a document is wrong");
    REQUIRE(s.boundingBox.x == LO(D, x0, x1), "left edge of the bounding box of a document is wrong"); REQUIRE(s.boundingBox.x + s.boundingBox.w == HI(D, x0, x1), "right edge of the bounding box of a document is wrong");
    REQUIRE(s.boundingBox.y == 7 && s.boundingBox.h == 7 && s.minMindex == 0 && s.maxMindex == 1, "extent or M-indices of a document are wrong");
}
#define DOCS(D) \
extern "C" void W_T01_reader##D(int x0, int x1, unsigned char p) { REL(D, x0, x1); Bytes<8192> mem; { auto wr = mkWriter(mem); wr->SyncAddSubBlock(blk(0, x0, 7, 3, 4, &p)); wr->SyncAddSubBlock(blk(1, x1, 8, 5, 6, &p)); wr->Close(); } auto r = mkReader(mem); statIs<D>(r, x0, x1); czi_done(); } \
extern "C" void W_T01_editor##D(int x0, int x1, unsigned char p) { REL(D, x0, x1); Bytes<8192> mem; { auto wr = mkWriter(mem); wr->SyncAddSubBlock(blk(0, x0, 7, 3, 4, &p)); wr->SyncAddSubBlock(blk(1, x1, 8, 5, 6, &p)); wr->Close(); } auto r = mkRw(mem); statIs<D>(r, x0, x1); czi_done(); } \
extern "C" void W_T01_editor_add##D(int x0, int x1, unsigned char p) { REL(D, x0, x1); Bytes<8192> mem; auto r = mkRw(mem); r->SyncAddSubBlock(blk(0, x0, 7, 3, 4, &p)); r->GetStatistics(); r->SyncAddSubBlock(blk(1, x1, 8, 5, 6, &p)); statIs<D>(r, x0, x1); czi_done(); }
DOCS(0) DOCS(1) DOCS(2)
extern "C" void W_T01_editor_remove(int x0, int x1, int x2, unsigned char p) {
    REL(0, x0, x1); ASSUME(SMALL(x2) && x2 < x0 - 100); Bytes<8192> mem; auto r = mkRw(mem); auto a = blk(2, x2, 1, 90, 90, &p); a.coordinate.Set(DimensionIndex::C, 9); r->SyncAddSubBlock(a); r->SyncAddSubBlock(blk(0, x0, 7, 3, 4, &p)); r->SyncAddSubBlock(blk(1, x1, 8, 5, 6, &p)); int n; r->GetStatistics(); r->RemoveSubBlock(findC(r, 9, n)); statIs<0>(r, x0, x1);
    auto s = r->GetStatistics(); int b = -1, l = -1; REQUIRE(s.dimBounds.TryGetInterval(DimensionIndex::C, &b, &l) && b == 0 && l == 1, "bounds of a dimension still contain a removed sub-block"); czi_done(); }
extern "C" void W_T01_editor_replace(int x0, int x1, int x2, unsigned char p) {
    REL(0, x0, x1); ASSUME(SMALL(x2) && x2 < x0 - 100); Bytes<8192> mem; auto r = mkRw(mem); auto a = blk(0, x2, 1, 90, 90, &p); a.coordinate.Set(DimensionIndex::C, 9); r->SyncAddSubBlock(a); r->SyncAddSubBlock(blk(1, x1, 8, 5, 6, &p)); int n; r->GetStatistics(); r->ReplaceSubBlock(findC(r, 9, n), blk(0, x0, 7, 3, 4, &p)); statIs<0>(r, x0, x1); czi_done(); }
extern "C" void W_T01_empty() { Bytes<8192> mem; { auto wr = mkWriter(mem); auto s = wr->GetStatistics(); REQUIRE(s.subBlockCount == 0 && !s.boundingBox.IsValid() && !s.IsMIndexValid() && s.sceneBoundingBoxes.empty() && s.dimBounds.IsEmpty(), "statistics of an empty document being written are not empty"); wr->Close(); } auto r = mkReader(mem); auto s = r->GetStatistics(); REQUIRE(s.subBlockCount == 0 && !s.boundingBox.IsValid() && !s.IsMIndexValid() && s.sceneBoundingBoxes.empty() && s.dimBounds.IsEmpty(), "statistics of an empty document are not empty"); czi_done(); }
static inline int cntOf(const PyramidStatistics& s, int scene, int f, int l) { auto i = s.scenePyramidStatistics.find(scene); if (i == s.scenePyramidStatistics.end()) return -1; int n = 0; for (const auto& e : i->second) if (e.layerInfo.minificationFactor == f && e.layerInfo.pyramidLayerNo == l) n += e.count; return n; }
extern "C" void W_T01_pyramid(unsigned char p) {
    Bytes<8192> mem; { auto wr = mkWriter(mem); wr->SyncAddSubBlock(blk(0, 0, 0, 4, 4, &p)); auto a = blk(0, 0, 0, 4, 4, &p); a.physicalWidth = a.physicalHeight = 2; wr->SyncAddSubBlock(a); a = blk(0, 0, 0, 9, 9, &p); a.physicalWidth = a.physicalHeight = 3; wr->SyncAddSubBlock(a); wr->Close(); }
    auto r = mkReader(mem); auto s = r->GetPyramidStatistics(); const int no = (std::numeric_limits<int>::max)();
    REQUIRE(s.scenePyramidStatistics.size() == 1 && cntOf(s, no, 0, 0) == 1 && cntOf(s, no, 2, 1) == 1 && cntOf(s, no, 3, 1) == 1, "pyramid statistics are wrong"); czi_done();
}
extern "C" void W_T01_pyramid_scenes(unsigned char p) {
    Bytes<8192> mem; { auto wr = mkWriter(mem); auto a = blk(0, 0, 0, 4, 4, &p); a.coordinate.Set(DimensionIndex::S, 0); wr->SyncAddSubBlock(a); a.mIndex = 1; wr->SyncAddSubBlock(a); a.coordinate.Set(DimensionIndex::S, 3); wr->SyncAddSubBlock(a); wr->Close(); }
    auto r = mkReader(mem); auto s = r->GetPyramidStatistics(); REQUIRE(s.scenePyramidStatistics.size() == 2 && cntOf(s, 0, 0, 0) == 2 && cntOf(s, 3, 0, 0) == 1, "pyramid statistics of several scenes are wrong"); czi_done();
}
extern "C" void W_T01_editor_pyramid(unsigned char p) {
    Bytes<8192> mem; auto r = mkRw(mem); r->SyncAddSubBlock(blk(0, 0, 0, 4, 4, &p)); auto a = blk(0, 0, 0, 4, 4, &p); a.coordinate.Set(DimensionIndex::C, 9); r->SyncAddSubBlock(a); const int no = (std::numeric_limits<int>::max)(); REQUIRE(cntOf(r->GetPyramidStatistics(), no, 0, 0) == 2, "pyramid statistics of an edited document are wrong"); int n; r->RemoveSubBlock(findC(r, 9, n)); REQUIRE(cntOf(r->GetPyramidStatistics(), no, 0, 0) == 1, "pyramid statistics still contain a removed sub-block"); czi_done();
}
