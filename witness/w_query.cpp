#include "w_flow.h"
// ---- E01: queries return exactly the matching items
#define SMALL(v) ((v) > -0x10000000 && (v) < 0x10000000)
struct Hit { int n = 0; int idx = -1; SubBlockInfo o; };
template <class R> static inline Hit query(R& r, const IDimCoordinate* c, const IntRect* roi, bool l0) { Hit h; r->EnumSubset(c, roi, l0, [&](int i, const SubBlockInfo& inf)->bool { ++h.n; h.idx = i; h.o = inf; return true; }); return h; }
static inline AddSubBlockInfoMemPtr blkD(DimensionIndex d, int v, const void* p) { AddSubBlockInfoMemPtr a = sbInfo(0, 10, 20, 0, 3, 4, p, 1); a.coordinate = CDimCoordinate(); a.coordinate.Set(d, v); return a; }
#define DIMQ(D) \
extern "C" void W_E01_equal_##D(int v, unsigned char p) { Bytes<4096> mem; auto r = mkRw(mem); r->SyncAddSubBlock(blkD(DimensionIndex::D, v, &p)); CDimCoordinate q; q.Set(DimensionIndex::D, v); auto h = query(r, &q, nullptr, false); \
    REQUIRE(h.n == 1, "a sub-block with the requested coordinate in dimension " #D " is not returned"); REQUIRE(h.o.logicalRect.x == 10 && h.o.logicalRect.y == 20 && h.o.logicalRect.w == 3 && h.o.logicalRect.h == 4, "the sub-block returned by a query is described wrongly"); czi_done(); } \
extern "C" void W_E01_less_##D(int v, int w, unsigned char p) { ASSUME(w < v); Bytes<4096> mem; auto r = mkRw(mem); r->SyncAddSubBlock(blkD(DimensionIndex::D, v, &p)); CDimCoordinate q; q.Set(DimensionIndex::D, w); REQUIRE(query(r, &q, nullptr, false).n == 0, "a sub-block with a greater coordinate in dimension " #D " is returned"); czi_done(); } \
extern "C" void W_E01_greater_##D(int v, int w, unsigned char p) { ASSUME(w > v); Bytes<4096> mem; auto r = mkRw(mem); r->SyncAddSubBlock(blkD(DimensionIndex::D, v, &p)); CDimCoordinate q; q.Set(DimensionIndex::D, w); REQUIRE(query(r, &q, nullptr, false).n == 0, "a sub-block with a smaller coordinate in dimension " #D " is returned"); czi_done(); } \
extern "C" void W_E01_unspecified_##D(int v, unsigned char p) { Bytes<4096> mem; auto r = mkRw(mem); r->SyncAddSubBlock(blkD(DimensionIndex::D, v, &p)); CDimCoordinate q; REQUIRE(query(r, &q, nullptr, false).n == 1, "a sub-block is not returned although the query does not mention dimension " #D); REQUIRE(query(r, nullptr, nullptr, false).n == 1, "a sub-block is not returned by a query without coordinates"); czi_done(); }
DIMQ(Z) DIMQ(C) DIMQ(T) DIMQ(R) DIMQ(S) DIMQ(I) DIMQ(H) DIMQ(V) DIMQ(B)
extern "C" void W_E01_absent(int v, int w, unsigned char p) { Bytes<4096> mem; auto r = mkRw(mem); r->SyncAddSubBlock(blkD(DimensionIndex::C, v, &p)); CDimCoordinate q; q.Set(DimensionIndex::T, w); REQUIRE(query(r, &q, nullptr, false).n == 0, "a sub-block which does not have the requested dimension is returned"); q.Set(DimensionIndex::C, v); REQUIRE(query(r, &q, nullptr, false).n == 0, "a sub-block is returned which has only one of the two requested dimensions"); czi_done(); }
extern "C" void W_E01_two_dims(int v, int w, int u, unsigned char p) { ASSUME(u != w); Bytes<4096> mem; auto r = mkRw(mem); auto a = blkD(DimensionIndex::C, v, &p); a.coordinate.Set(DimensionIndex::Z, w); r->SyncAddSubBlock(a); CDimCoordinate q; q.Set(DimensionIndex::C, v); REQUIRE(query(r, &q, nullptr, false).n == 1, "a sub-block is not returned although it matches"); q.Set(DimensionIndex::Z, w); REQUIRE(query(r, &q, nullptr, false).n == 1, "a sub-block is not returned although both coordinates match"); q.Set(DimensionIndex::Z, u); REQUIRE(query(r, &q, nullptr, false).n == 0, "a sub-block is returned although its second coordinate differs"); czi_done(); }
// region of interest: position of the query relative to a sub-block [x,x+3) x [y,y+4)
template <bool X> static inline Hit roiQ(int at, int from, int len, unsigned char& p) { Bytes<4096> mem; auto r = mkRw(mem); auto a = sbInfo(0, X ? at : 50, X ? 50 : at, 0, 3, 3, &p, 1); r->SyncAddSubBlock(a); IntRect q = X ? IntRect{from, 49, len, 2} : IntRect{49, from, 2, len}; return query(r, nullptr, &q, false); }
#define ROIQ(N, B, COND, CNT, WHAT) extern "C" void W_E01_##N(int at, int from, int len, unsigned char p) { ASSUME(SMALL(at) && SMALL(from) && len > 0 && SMALL(len)); ASSUME(COND); REQUIRE(roiQ<B>(at, from, len, p).n == CNT, WHAT); czi_done(); }
#define ROIS(N, B) \
    ROIQ(roi_before_##N, B, from + len < at, 0, "a sub-block behind the region is returned") ROIQ(roi_touch_before_##N, B, from + len == at, 0, "a sub-block that only touches the region is returned") \
    ROIQ(roi_over_start_##N, B, from < at && from + len > at && from + len < at + 3, 1, "a sub-block partly inside the region is not returned") ROIQ(roi_covers_##N, B, from < at && from + len > at + 3, 1, "a sub-block inside the region is not returned") \
    ROIQ(roi_inside_##N, B, from > at && from + len < at + 3, 1, "a sub-block containing the region is not returned") ROIQ(roi_over_end_##N, B, from > at && from < at + 3 && from + len > at + 3, 1, "a sub-block partly inside the region is not returned") \
    ROIQ(roi_same_##N, B, from == at && len == 3, 1, "a sub-block equal to the region is not returned") ROIQ(roi_touch_after_##N, B, from == at + 3, 0, "a sub-block that only touches the region is returned") ROIQ(roi_after_##N, B, from > at + 3, 0, "a sub-block before the region is returned")
ROIS(x, true) ROIS(y, false)
// the two axes have to be combined
extern "C" void W_E01_roi_diagonal(int x, int y, unsigned char p) { ASSUME(SMALL(x) && SMALL(y)); Bytes<4096> mem; auto r = mkRw(mem); r->SyncAddSubBlock(sbInfo(0, x, y, 0, 3, 3, &p, 1)); IntRect q{x + 10, y, 5, 5}; REQUIRE(query(r, nullptr, &q, false).n == 0, "a sub-block is returned although only the rows of the region match"); q = IntRect{x, y + 10, 5, 5}; REQUIRE(query(r, nullptr, &q, false).n == 0, "a sub-block is returned although only the columns of the region match"); q = IntRect{x + 2, y + 2, 1, 1}; REQUIRE(query(r, nullptr, &q, false).n == 1, "a sub-block is not returned for its last pixel"); q = IntRect{x, y, 1, 1}; REQUIRE(query(r, nullptr, &q, false).n == 1, "a sub-block is not returned for its first pixel"); czi_done(); }
template <class R> static inline void layers(R& r) { REQUIRE(query(r, nullptr, nullptr, true).n == 1, "a query for layer 0 does not return exactly the sub-blocks of layer 0"); REQUIRE(query(r, nullptr, nullptr, true).o.mIndex == 1, "a query for layer 0 returns a sub-block of another layer"); REQUIRE(query(r, nullptr, nullptr, false).n == 3, "a query for all layers does not return all sub-blocks"); }
static inline AddSubBlockInfoMemPtr blkS(int m, std::uint32_t pw, std::uint32_t ph, const void* p) { auto a = sbInfo(0, 10, 20, m, 6, 6, p, 1); a.physicalWidth = pw; a.physicalHeight = ph; return a; }
extern "C" void W_E01_layer0(unsigned char p) { Bytes<8192> mem; auto r = mkRw(mem); r->SyncAddSubBlock(blkS(0, 3, 6, &p)); r->SyncAddSubBlock(blkS(1, 6, 6, &p)); r->SyncAddSubBlock(blkS(2, 6, 3, &p)); layers(r); czi_done(); }
extern "C" void W_E01_layer0_reader(unsigned char p) { Bytes<8192> mem; { auto w = mkWriter(mem); w->SyncAddSubBlock(blkS(0, 3, 6, &p)); w->SyncAddSubBlock(blkS(1, 6, 6, &p)); w->SyncAddSubBlock(blkS(2, 6, 3, &p)); w->Close(); } auto r = mkReader(mem); layers(r); czi_done(); }
extern "C" void W_E01_layer0_size(int w, int h, int pw, int ph, unsigned char p) { ASSUME(w > 0 && h > 0 && pw > 0 && ph > 0 && SMALL(w) && SMALL(h) && SMALL(pw) && SMALL(ph) && pw < w && ph < h); Bytes<4096> mem; auto r = mkRw(mem); auto a = sbInfo(0, 1, 2, 0, w, h, &p, 1); a.physicalWidth = pw; a.physicalHeight = ph; r->SyncAddSubBlock(a); REQUIRE(query(r, nullptr, nullptr, true).n == 0, "a minified sub-block is returned for layer 0"); REQUIRE(query(r, nullptr, nullptr, false).n == 1, "a minified sub-block is not returned for all layers"); czi_done(); }
// all conditions together, several sub-blocks, and the index can be used
template <class R> static inline void both(R& r, int c1, unsigned char& p1) {
    CDimCoordinate q; q.Set(DimensionIndex::C, c1); IntRect roi{100, 100, 5, 5}; auto h = query(r, &q, &roi, true); REQUIRE(h.n == 1 && h.o.logicalRect.x == 101, "a query with coordinate and region does not return exactly the matching sub-block");
    SubBlockInfo i; REQUIRE(r->TryGetSubBlockInfo(h.idx, &i) && i.logicalRect.x == 101, "the index delivered by a query denotes another sub-block"); auto s = r->ReadSubBlock(h.idx); REQUIRE(bytesAre(s, ISubBlock::Data, 1, &p1), "the index delivered by a query reads another sub-block");
}
extern "C" void W_E01_combined(int c0, int c1, unsigned char p0, unsigned char p1, unsigned char p2) { ASSUME(c0 < c1); Bytes<8192> mem; auto r = mkRw(mem); r->SyncAddSubBlock(sbInfo(c0, 100, 100, 0, 3, 3, &p0, 1)); r->SyncAddSubBlock(sbInfo(c1, 101, 100, 0, 3, 3, &p1, 1)); r->SyncAddSubBlock(sbInfo(c1, 200, 100, 1, 3, 3, &p2, 1)); both(r, c1, p1); czi_done(); }
extern "C" void W_E01_combined_reader(int c0, int c1, unsigned char p0, unsigned char p1, unsigned char p2) { ASSUME(c0 < c1); Bytes<8192> mem; { auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(c0, 100, 100, 0, 3, 3, &p0, 1)); w->SyncAddSubBlock(sbInfo(c1, 101, 100, 0, 3, 3, &p1, 1)); w->SyncAddSubBlock(sbInfo(c1, 200, 100, 1, 3, 3, &p2, 1)); w->Close(); } auto r = mkReader(mem); both(r, c1, p1); czi_done(); }
template <class R> static inline void stops(R& r) { int n = 0; r->EnumSubset(nullptr, nullptr, false, [&](int, const SubBlockInfo&)->bool { ++n; return false; }); REQUIRE(n == 1, "a query goes on after the caller ended it"); n = 0; r->EnumerateSubBlocks([&](int, const SubBlockInfo&)->bool { ++n; return n < 2; }); REQUIRE(n == 2, "an enumeration does not end when the caller asks for it"); }
extern "C" void W_E01_stop(unsigned char p) { Bytes<8192> mem; auto r = mkRw(mem); r->SyncAddSubBlock(sbInfo(0, 100, 100, 0, 3, 3, &p, 1)); r->SyncAddSubBlock(sbInfo(0, 100, 100, 1, 3, 3, &p, 1)); r->SyncAddSubBlock(sbInfo(0, 200, 100, 2, 3, 3, &p, 1)); stops(r); czi_done(); }
extern "C" void W_E01_stop_reader(unsigned char p) { Bytes<8192> mem; { auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(0, 100, 100, 0, 3, 3, &p, 1)); w->SyncAddSubBlock(sbInfo(0, 100, 100, 1, 3, 3, &p, 1)); w->SyncAddSubBlock(sbInfo(0, 200, 100, 2, 3, 3, &p, 1)); w->Close(); } auto r = mkReader(mem); stops(r); czi_done(); }
// some sub-block of a channel
template <class R> static inline void chan(R& r, int c0, int c1, int c2) { SubBlockInfo o; int g = 0; REQUIRE(r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c1, o) && o.coordinate.TryGetPosition(DimensionIndex::C, &g) && g == c1, "the sub-block found for a channel is of another channel"); REQUIRE(r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c0, o) && o.coordinate.TryGetPosition(DimensionIndex::C, &g) && g == c0, "the sub-block found for a channel is of another channel"); REQUIRE(!r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c2, o), "a sub-block is found for a channel which does not exist"); }
extern "C" void W_E01_channel(int c0, int c1, int c2, unsigned char p) { ASSUME(SMALL(c0) && SMALL(c1) && SMALL(c2) && c0 < c1 && c1 < c2); Bytes<8192> mem; auto r = mkRw(mem); r->SyncAddSubBlock(sbInfo(c0, 100, 100, 0, 3, 3, &p, 1)); r->SyncAddSubBlock(sbInfo(c1, 100, 100, 0, 3, 3, &p, 1)); chan(r, c0, c1, c2); czi_done(); }
extern "C" void W_E01_channel_reader(int c0, int c1, int c2, unsigned char p) { ASSUME(SMALL(c0) && SMALL(c1) && SMALL(c2) && c0 < c1 && c1 < c2); Bytes<8192> mem; { auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(c0, 100, 100, 0, 3, 3, &p, 1)); w->SyncAddSubBlock(sbInfo(c1, 100, 100, 0, 3, 3, &p, 1)); w->Close(); } auto r = mkReader(mem); chan(r, c0, c1, c2); czi_done(); }
extern "C" void W_E01_channel_none(int c, unsigned char p) { Bytes<8192> mem; auto r = mkRw(mem); r->SyncAddSubBlock(blkD(DimensionIndex::Z, 4, &p)); SubBlockInfo o; int g = 0; REQUIRE(r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, o) && o.coordinate.TryGetPosition(DimensionIndex::Z, &g) && g == 4, "no sub-block is found for a channel in a document without channels"); czi_done(); }
// attachments by name and type
template <class R> static inline int atts(R& r, const char* t, const char* n, int& first) { int k = 0; first = -1; r->EnumerateSubset(t, n, [&](int, const AttachmentInfo& i)->bool { if (!k) first = i.contentGuid.Data4[7]; ++k; return true; }); return k; }
static inline AddAttachmentInfo att2(const char* type, const char* name, unsigned char g, const unsigned char* p) { auto a = attInfo(name, p, 1); a.SetContentFileType(type); a.contentGuid.Data4[7] = g; return a; }
template <class R> static inline void attq(R& r) { int f; REQUIRE(atts(r, nullptr, nullptr, f) == 3, "not all attachments are returned by a query without conditions"); REQUIRE(atts(r, "ABC", nullptr, f) == 2, "a query for a type of attachments does not return exactly these"); REQUIRE(atts(r, nullptr, "Two", f) == 2, "a query for a name of attachments does not return exactly these"); REQUIRE(atts(r, "ABC", "Two", f) == 1 && f == 2, "a query for type and name of attachments does not return exactly the right one"); REQUIRE(atts(r, "ABCD", nullptr, f) == 0 && atts(r, "AB", nullptr, f) == 0 && atts(r, nullptr, "Tw", f) == 0 && atts(r, nullptr, "Two2", f) == 0, "a query returns attachments whose name or type only begins alike"); REQUIRE(r->GetAttachmentCount() == 3, "the number of attachments is wrong"); }
extern "C" void W_E01_attachments(unsigned char p) { Bytes<8192> mem; auto r = mkRw(mem); r->SyncAddAttachment(att2("ABC", "One", 1, &p)); r->SyncAddAttachment(att2("ABC", "Two", 2, &p)); r->SyncAddAttachment(att2("XYZ", "Two", 3, &p)); attq(r); czi_done(); }
extern "C" void W_E01_attachments_reader(unsigned char p) { Bytes<8192> mem; { auto w = mkWriter(mem); w->SyncAddAttachment(att2("ABC", "One", 1, &p)); w->SyncAddAttachment(att2("ABC", "Two", 2, &p)); w->SyncAddAttachment(att2("XYZ", "Two", 3, &p)); w->Close(); } auto r = mkReader(mem); attq(r); czi_done(); }
