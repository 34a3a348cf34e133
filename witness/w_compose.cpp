#include "w_pix.h"
#define private public
#define protected public
#include "SingleChannelAccessorBase.h"
#include "SingleChannelTileAccessor.h"
#include "SingleChannelPyramidLevelTileAccessor.h"
#include "SingleChannelScalingTileAccessor.h"
#undef private
#undef protected
using namespace libCZI::detail;
// ---- C01: the image of a region is the composition of the tiles of its plane
typedef const unsigned char* In8; typedef Bm<PixelType::Gray8, 2, 2, 2> T22; typedef Bm<PixelType::Gray8, 3, 2, 4> D32;
template <class T> static inline std::shared_ptr<T> alias(T* p) { return std::shared_ptr<T>(std::shared_ptr<void>(), p); }
struct Tile : ISubBlock {
    SubBlockInfo info; T22 bm; int reads = 0;
    const SubBlockInfo& GetSubBlockInfo() const override { return info; }
    void DangerousGetRawData(MemBlkType, const void*& p, size_t& n) const override { p = nullptr; n = 0; }
    std::shared_ptr<const void> GetRawData(MemBlkType, size_t* n) const override { if (n) *n = 0; return std::shared_ptr<const void>(); }
    std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions*) override { ++reads; return alias<IBitmapData>(&bm); }
};
template <int N> struct Repo : ISubBlockRepository {   // a document with N tiles; answers queries as documented
    Tile t[N > 0 ? N : 1]; SubBlockStatistics st; bool layer0Only = true;
    Repo() { st.Invalidate(); st.subBlockCount = N; }
    void add(int i, int x, int y, int m, In8 in) { SubBlockInfo& f = t[i].info; f.compressionModeRaw = 0; f.pixelType = PixelType::Gray8; f.logicalRect = IntRect{x, y, 2, 2}; f.physicalSize = IntSize{2, 2}; f.mIndex = m; f.pyramidType = SubBlockPyramidType::None; t[i].bm.fill(in); }
    void EnumerateSubBlocks(const std::function<bool(int, const SubBlockInfo&)>& f) override { for (int i = 0; i < N; ++i) if (!f(i, t[i].info)) break; }
    void EnumSubset(const IDimCoordinate* c, const IntRect* roi, bool onlyLayer0, const std::function<bool(int, const SubBlockInfo&)>& f) override {
        for (int i = 0; i < N; ++i) {
            auto& s = t[i].info; if (roi && !(s.logicalRect.x < roi->x + roi->w && roi->x < s.logicalRect.x + s.logicalRect.w && s.logicalRect.y < roi->y + roi->h && roi->y < s.logicalRect.y + s.logicalRect.h)) continue;
            if (onlyLayer0 && (s.logicalRect.w != (int)s.physicalSize.w || s.logicalRect.h != (int)s.physicalSize.h)) continue;
            if (c) { int a, b; bool no = false; for (DimensionIndex d : {DimensionIndex::C, DimensionIndex::T, DimensionIndex::S}) if (c->TryGetPosition(d, &a) && (!s.coordinate.TryGetPosition(d, &b) || a != b)) no = true; if (no) continue; }
            if (!f(i, s)) break;
        }
    }
    std::shared_ptr<ISubBlock> ReadSubBlock(int i) override { return alias<ISubBlock>(&t[i]); }
    bool TryGetSubBlockInfoOfArbitrarySubBlockInChannel(int, SubBlockInfo& i) override { i = t[0].info; return true; }
    bool TryGetSubBlockInfo(int i, SubBlockInfo* p) const override { if (i < 0 || i >= N) return false; if (p) *p = t[i].info; return true; }
    SubBlockStatistics GetStatistics() override { return st; }
    PyramidStatistics GetPyramidStatistics() override { return PyramidStatistics(); }
    IntPointAndFrameOfReference TransformPoint(const IntPointAndFrameOfReference& p, CZIFrameOfReference f) override { IntPointAndFrameOfReference r = p; r.frame_of_reference = f; return r; }
};
// the pixel which must be at (x,y) of the document: that of the last tile of order, or the background
template <int N> static inline unsigned char expect(Repo<N>& r, const int* order, int n, int x, int y, unsigned char bg) { unsigned char v = bg; for (int k = 0; k < n; ++k) { auto& R = r.t[order[k]].info.logicalRect; int dx = x - R.x, dy = y - R.y; if (dx >= 0 && dx < 2 && dy >= 0 && dy < 2) v = *r.t[order[k]].bm.at(dx, dy, 0); } return v; }
template <int N> static inline void check(Repo<N>& r, const int* order, int n, D32& d, D32& o, int px, int py, int bg) {
    for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) REQUIRE(*d.at(x, y, 0) == expect(r, order, n, px + x, py + y, bg < 0 ? *o.at(x, y, 0) : (unsigned char)bg), "a pixel of a region is not that of the topmost tile at this place (or the background)");
    REQUIRE(d.sameOutside(o), "bytes outside of the destination are changed"); REQUIRE(d.locks == 0, "the destination stays locked"); for (int i = 0; i < N; ++i) REQUIRE(r.t[i].bm.locks == 0, "the bitmap of a tile stays locked");
}
static inline IntPointAndFrameOfReference at(int x, int y) { return IntPointAndFrameOfReference{CZIFrameOfReference::RawSubBlockCoordinateSystem, {x, y}}; }
struct Acc { template <int N> static inline void tile(Repo<N>& r, D32& d, int x, int y, const IDimCoordinate& c, const ISingleChannelTileAccessor::Options* o) { CSingleChannelTileAccessor a(alias<ISubBlockRepository>(&r)); static_cast<ISingleChannelTileAccessor&>(a).Get(&d, at(x, y), &c, o); } };
static inline ISingleChannelTileAccessor::Options opts(bool vis, bool sort = true) { ISingleChannelTileAccessor::Options o; o.Clear(); o.useVisibilityCheckOptimization = vis; o.sortByM = sort; return o; }
#define mid(M) ASSUME((M) >= 0 && (M) < 0x7fffffff)
#define TWO(NAME, PX, PY, X0, Y0, X1, Y1) \
    extern "C" void W_C01_two_##NAME(In8 in, int m0, int m1) { mid(m0); mid(m1); ASSUME(m0 < m1); Repo<2> r; r.add(0, X0, Y0, m0, in); r.add(1, X1, Y1, m1, in + 16); D32 d, o; d.fill(in + 32); o.fill(in + 32); Acc::tile(r, d, PX, PY, CDimCoordinate(), nullptr); int q[] = {0, 1}; check(r, q, 2, d, o, PX, PY, -1); czi_done(); } \
    extern "C" void W_C01_two_swapped_##NAME(In8 in, int m0, int m1) { mid(m0); mid(m1); ASSUME(m1 < m0); Repo<2> r; r.add(0, X0, Y0, m0, in); r.add(1, X1, Y1, m1, in + 16); D32 d, o; d.fill(in + 32); o.fill(in + 32); Acc::tile(r, d, PX, PY, CDimCoordinate(), nullptr); int q[] = {1, 0}; check(r, q, 2, d, o, PX, PY, -1); czi_done(); } \
    extern "C" void W_C01_two_visible_##NAME(In8 in, int m0, int m1) { mid(m0); mid(m1); ASSUME(m1 < m0); Repo<2> r; r.add(0, X0, Y0, m0, in); r.add(1, X1, Y1, m1, in + 16); D32 d, o; d.fill(in + 32); o.fill(in + 32); auto p = opts(true); p.backGroundColor = RgbFloatColor{0, 0, 0}; Acc::tile(r, d, PX, PY, CDimCoordinate(), &p); int q[] = {1, 0}; check(r, q, 2, d, o, PX, PY, 0); czi_done(); }
TWO(apart, 0, 0, 0, 0, 2, 0)
TWO(same, 0, 0, 1, 0, 1, 0)
TWO(shifted, 10, -20, 10, -20, 11, -20)
TWO(clip, 5, 5, 4, 4, 6, 6)
TWO(outside, 5, 5, 2, 5, 7, 5)
// tiles without M-index lie below those with one
#define NOM(NAME, M) extern "C" void W_C01_no_m_##NAME(In8 in, int m1) { mid(m1); Repo<2> r; r.add(0, 0, 0, m1, in); r.add(1, 1, 0, M, in + 16); D32 d, o; d.fill(in + 32); o.fill(in + 32); Acc::tile(r, d, 0, 0, CDimCoordinate(), nullptr); int q[] = {1, 0}; check(r, q, 2, d, o, 0, 0, -1); czi_done(); } \
    extern "C" void W_C01_no_m_first_##NAME(In8 in, int m1) { mid(m1); Repo<2> r; r.add(0, 0, 0, M, in); r.add(1, 1, 0, m1, in + 16); D32 d, o; d.fill(in + 32); o.fill(in + 32); Acc::tile(r, d, 0, 0, CDimCoordinate(), nullptr); int q[] = {0, 1}; check(r, q, 2, d, o, 0, 0, -1); czi_done(); }
NOM(max, 0x7fffffff) NOM(min, (-0x7fffffff - 1))
// three tiles, with and without the check of visibility: the lowest is hidden by the two others
#define THREE(NAME, A, B, C, X0, X1, X2) \
    extern "C" void W_C01_three_##NAME(In8 in) { Repo<3> r; r.add(0, X0, 0, A, in); r.add(1, X1, 0, B, in + 16); r.add(2, X2, 0, C, in + 32); D32 d, o; d.fill(in + 48); o.fill(in + 48); Acc::tile(r, d, 0, 0, CDimCoordinate(), nullptr); int q[3]; q[A] = 0; q[B] = 1; q[C] = 2; check(r, q, 3, d, o, 0, 0, -1); czi_done(); } \
    extern "C" void W_C01_three_visible_##NAME(In8 in) { Repo<3> r; r.add(0, X0, 0, A, in); r.add(1, X1, 0, B, in + 16); r.add(2, X2, 0, C, in + 32); D32 d, o; d.fill(in + 48); o.fill(in + 48); auto p = opts(true); Acc::tile(r, d, 0, 0, CDimCoordinate(), &p); int q[3]; q[A] = 0; q[B] = 1; q[C] = 2; check(r, q, 3, d, o, 0, 0, -1); czi_done(); }
THREE(012, 0, 1, 2, 0, 1, 2) THREE(021, 0, 2, 1, 0, 1, 2) THREE(102, 1, 0, 2, 0, 1, 2) THREE(120, 1, 2, 0, 0, 1, 2) THREE(201, 2, 0, 1, 0, 1, 2) THREE(210, 2, 1, 0, 0, 1, 2) THREE(hidden, 0, 1, 2, 1, 0, 2) THREE(hidden2, 1, 2, 0, 0, 2, 1) THREE(same, 2, 1, 0, 1, 1, 1)
// only the tiles of the plane are used
extern "C" void W_C01_plane(In8 in, int c0, int c1, int m0, int m1) { mid(m0); mid(m1); ASSUME(c0 >= 0 && c0 < 4); ASSUME(c1 != c0); Repo<2> r; r.add(0, 0, 0, m0, in); r.add(1, 1, 0, m1, in + 16); r.t[0].info.coordinate.Set(DimensionIndex::C, c0); r.t[1].info.coordinate.Set(DimensionIndex::C, c1); r.st.dimBounds.Set(DimensionIndex::C, 0, 4);
    D32 d, o; d.fill(in + 32); o.fill(in + 32); CDimCoordinate c; c.Set(DimensionIndex::C, c0); Acc::tile(r, d, 0, 0, c, nullptr); int q[] = {0}; check(r, q, 1, d, o, 0, 0, -1); REQUIRE(r.t[1].reads == 0, "a tile of another plane is read"); czi_done(); }
// tiles of pyramid layers do not appear in the image at full resolution
extern "C" void W_C01_layer0(In8 in, int m0, int m1) { mid(m0); mid(m1); Repo<2> r; r.add(0, 0, 0, m0, in); r.add(1, 0, 0, m1, in + 16); r.t[1].info.logicalRect = IntRect{0, 0, 4, 4}; D32 d, o; d.fill(in + 32); o.fill(in + 32); Acc::tile(r, d, 0, 0, CDimCoordinate(), nullptr); int q[] = {0}; check(r, q, 1, d, o, 0, 0, -1); czi_done(); }
// a plane must be given by exactly the dimensions of the document, with coordinates inside of their bounds
#define PLANE(D) \
    extern "C" void W_C01_reject_below_##D(In8 in, int s, int n, int c) { ASSUME(s > -0x10000000 && s < 0x10000000 && n > 0 && n < 0x10000000); ASSUME(c < s); czi_exceptions(); Repo<1> r; r.add(0, 0, 0, 0, in); r.st.dimBounds.Set(DimensionIndex::D, s, n); D32 d; d.fill(in + 32); CDimCoordinate p; p.Set(DimensionIndex::D, c); REJECTS(Acc::tile(r, d, 0, 0, p, nullptr), "a coordinate outside of the document's bounds is accepted for a plane"); } \
    extern "C" void W_C01_reject_above_##D(In8 in, int s, int n, int c) { ASSUME(s > -0x10000000 && s < 0x10000000 && n > 0 && n < 0x10000000); ASSUME(c >= s + n); czi_exceptions(); Repo<1> r; r.add(0, 0, 0, 0, in); r.st.dimBounds.Set(DimensionIndex::D, s, n); D32 d; d.fill(in + 32); CDimCoordinate p; p.Set(DimensionIndex::D, c); REJECTS(Acc::tile(r, d, 0, 0, p, nullptr), "a coordinate outside of the document's bounds is accepted for a plane"); } \
    extern "C" void W_C01_reject_missing_##D(In8 in, int s, int n) { ASSUME(s > -0x10000000 && s < 0x10000000 && n > 1 && n < 0x10000000); czi_exceptions(); Repo<1> r; r.add(0, 0, 0, 0, in); r.st.dimBounds.Set(DimensionIndex::D, s, n); D32 d; d.fill(in + 32); CDimCoordinate p; REJECTS(Acc::tile(r, d, 0, 0, p, nullptr), "a plane without the coordinate of a dimension is accepted"); } \
    extern "C" void W_C01_reject_surplus_##D(In8 in, int c) { czi_exceptions(); Repo<1> r; r.add(0, 0, 0, 0, in); D32 d; d.fill(in + 32); CDimCoordinate p; p.Set(DimensionIndex::D, c); REJECTS(Acc::tile(r, d, 0, 0, p, nullptr), "a plane with a coordinate of a dimension the document does not have is accepted"); }
PLANE(C) PLANE(T) PLANE(Z) PLANE(R) PLANE(I) PLANE(H) PLANE(V) PLANE(B)
extern "C" void W_C01_reject_scene(In8 in, int c) { czi_exceptions(); Repo<1> r; r.add(0, 0, 0, 0, in); r.st.dimBounds.Set(DimensionIndex::S, 0, 4); D32 d; d.fill(in + 32); CDimCoordinate p; p.Set(DimensionIndex::S, c); REJECTS(Acc::tile(r, d, 0, 0, p, nullptr), "a plane with a scene is accepted"); }
// the coordinate of a dimension with one value may be left out
extern "C" void W_C01_plane_single(In8 in, int s) { ASSUME(s > -0x10000000 && s < 0x10000000); Repo<1> r; r.add(0, 0, 0, 0, in); r.st.dimBounds.Set(DimensionIndex::Z, s, 1); D32 d, o; d.fill(in + 32); o.fill(in + 32); Acc::tile(r, d, 0, 0, CDimCoordinate(), nullptr); int q[] = {0}; check(r, q, 1, d, o, 0, 0, -1); czi_done(); }
// scenes that are filtered out do not appear
struct OneScene : IIndexSet { int s; bool IsContained(int i) const override { return i == s; } };
extern "C" void W_C01_scene(In8 in, int s0, int s1) { ASSUME(s1 != s0); Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 1, 0, 2, in + 16); r.t[0].info.coordinate.Set(DimensionIndex::S, s0); r.t[1].info.coordinate.Set(DimensionIndex::S, s1); OneScene f; f.s = s0;
    D32 d, o; d.fill(in + 32); o.fill(in + 32); auto p = opts(false); p.sceneFilter = alias<IIndexSet>(&f); Acc::tile(r, d, 0, 0, CDimCoordinate(), &p); int q[] = {0}; check(r, q, 1, d, o, 0, 0, -1); czi_done(); }
extern "C" void W_C01_scene_none(In8 in, int s0) { Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 1, 0, 2, in + 16); OneScene f; f.s = s0;   // tiles without scene are not filtered
    D32 d, o; d.fill(in + 32); o.fill(in + 32); auto p = opts(false); p.sceneFilter = alias<IIndexSet>(&f); Acc::tile(r, d, 0, 0, CDimCoordinate(), &p); int q[] = {0, 1}; check(r, q, 2, d, o, 0, 0, -1); czi_done(); }
// a cache: what it holds is used, what it does not hold is read and (unless it is uncompressed and was excluded) added, the image is the same
struct Cache : ISubBlockCacheOperation { std::shared_ptr<IBitmapData> b[2], added[2]; std::shared_ptr<IBitonalBitmapData> m[2]; int gets[2] = {0, 0}, adds[2] = {0, 0}; CacheItem Get(int i) override { ++gets[i]; return CacheItem(b[i], m[i]); } void Add(int i, const CacheItem& c) override { ++adds[i]; added[i] = c.bitmap; } };
static inline ISingleChannelTileAccessor::Options copts(Cache& c, bool vis, bool onlyCompressed) { auto p = opts(vis); p.subBlockCache = alias<ISubBlockCacheOperation>(&c); p.onlyUseSubBlockCacheForCompressedData = onlyCompressed; return p; }
#define CACHE(NAME, VIS) \
    extern "C" void W_C01_cache_hit_##NAME(In8 in) { Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 1, 0, 2, in + 16); Cache c; T22 b; b.fill(in + 16); c.b[1] = alias<IBitmapData>(&b); D32 d, o; d.fill(in + 32); o.fill(in + 32); auto p = copts(c, VIS, false); Acc::tile(r, d, 0, 0, CDimCoordinate(), &p); int q[] = {0, 1}; check(r, q, 2, d, o, 0, 0, -1); \
        REQUIRE(r.t[1].reads == 0 && r.t[0].reads == 1, "a tile in the cache is read, or one that is not in the cache is not"); REQUIRE(c.adds[0] == 1 && c.added[0].get() == &r.t[0].bm && c.adds[1] == 0, "the tile that was read is not added to the cache"); czi_done(); } \
    extern "C" void W_C01_cache_compressed_##NAME(In8 in) { Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 1, 0, 2, in + 16); r.t[1].info.compressionModeRaw = 6; Cache c; D32 d, o; d.fill(in + 32); o.fill(in + 32); auto p = copts(c, VIS, true); Acc::tile(r, d, 0, 0, CDimCoordinate(), &p); int q[] = {0, 1}; check(r, q, 2, d, o, 0, 0, -1); \
        REQUIRE(c.adds[0] == 0, "an uncompressed tile is added to a cache for compressed ones"); REQUIRE(c.adds[1] == 1 && c.added[1].get() == &r.t[1].bm, "a compressed tile is not added to the cache"); czi_done(); } \
    extern "C" void W_C01_cache_mask_##NAME(In8 in) { Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 1, 0, 2, in + 16); Cache c; T22 b0, b; b0.fill(in); b.fill(in + 16); Mask k(2, 2, 0x9); c.b[0] = alias<IBitmapData>(&b0); c.b[1] = alias<IBitmapData>(&b); c.m[1] = alias<IBitonalBitmapData>(&k); D32 d, o; d.fill(in + 32); o.fill(in + 32); auto p = copts(c, VIS, false); p.maskAware = true; Acc::tile(r, d, 0, 0, CDimCoordinate(), &p); \
        for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) { unsigned char e = x < 2 ? *b0.at(x, y, 0) : *o.at(x, y, 0); if ((x == 1 && y == 0) || (x == 2 && y == 1)) e = *b.at(x - 1, y, 0); REQUIRE(*d.at(x, y, 0) == e, "a pixel of a region composed with masks is not that of the topmost tile whose mask allows it"); } czi_done(); } \
    extern "C" void W_C01_cache_mask_unused_##NAME(In8 in) { Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 1, 0, 2, in + 16); Cache c; T22 b; b.fill(in + 16); Mask k(2, 2, 0x9); c.b[1] = alias<IBitmapData>(&b); c.m[1] = alias<IBitonalBitmapData>(&k); D32 d, o; d.fill(in + 32); o.fill(in + 32); auto p = copts(c, VIS, false); Acc::tile(r, d, 0, 0, CDimCoordinate(), &p); int q[] = {0, 1}; check(r, q, 2, d, o, 0, 0, -1); czi_done(); }
CACHE(all, false) CACHE(visible, true)
extern "C" void W_C01_cache_mask_same(In8 in) { Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 0, 0, 2, in + 16); Cache c; T22 b0, b; b0.fill(in); b.fill(in + 16); Mask k(2, 2, 0x6); c.b[0] = alias<IBitmapData>(&b0); c.b[1] = alias<IBitmapData>(&b); c.m[1] = alias<IBitonalBitmapData>(&k); D32 d, o; d.fill(in + 32); o.fill(in + 32); auto p = copts(c, true, false); p.maskAware = true; Acc::tile(r, d, 0, 0, CDimCoordinate(), &p);
    for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) { unsigned char e = x < 2 ? (x != y ? *b.at(x, y, 0) : *b0.at(x, y, 0)) : *o.at(x, y, 0); REQUIRE(*d.at(x, y, 0) == e, "the check of visibility hides a tile although the mask of the tile above leaves it visible"); } czi_done(); }
// the bitmap that is created has the requested size and pixel type
extern "C" void W_C01_create(In8 in, int m0, int m1) { czi_startup(); mid(m0); mid(m1); ASSUME(m0 < m1); Repo<2> r; r.add(0, 0, 0, m0, in); r.add(1, 1, 0, m1, in + 16); auto p = opts(false); p.backGroundColor = RgbFloatColor{1, 1, 1}; CSingleChannelTileAccessor a(alias<ISubBlockRepository>(&r)); CDimCoordinate c;
    auto b = static_cast<ISingleChannelTileAccessor&>(a).Get(PixelType::Gray8, IntRectAndFrameOfReference{CZIFrameOfReference::RawSubBlockCoordinateSystem, IntRect{0, 0, 4, 2}}, &c, &p); REQUIRE(b->GetWidth() == 4 && b->GetHeight() == 2 && b->GetPixelType() == PixelType::Gray8, "the bitmap of a region does not have the requested size and pixel type");
    auto li = b->Lock(); int q[] = {0, 1}; for (int y = 0; y < 2; ++y) for (int x = 0; x < 4; ++x) REQUIRE(static_cast<unsigned char*>(li.ptrDataRoi)[y * li.stride + x] == expect(r, q, 2, x, y, 255), "a pixel of a created region is not that of the topmost tile or the background"); b->Unlock(); czi_done(); }
// one layer of a pyramid
#define PYR(NAME, L, F, WHICH) extern "C" void W_C01_pyramid_##NAME(In8 in, int m0, int m1) { czi_startup(); mid(m0); mid(m1); ASSUME(m0 < m1); Repo<3> r; r.add(0, 0, 0, m0, in); r.add(1, 0, 0, m1, in + 16); r.add(2, 0, 0, 0x7fffffff, in + 32); r.t[1].info.logicalRect = IntRect{0, 0, 4, 4}; r.t[2].info.logicalRect = IntRect{0, 0, 8, 8}; D32 d, o; d.fill(in + 48); o.fill(in + 48); \
    CSingleChannelPyramidLevelTileAccessor a(alias<ISubBlockRepository>(&r)); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = F; pi.pyramidLayerNo = L; CDimCoordinate c; static_cast<ISingleChannelPyramidLayerTileAccessor&>(a).Get(&d, at(0, 0), &c, pi, nullptr); \
    for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) REQUIRE(*d.at(x, y, 0) == (x < 2 ? *r.t[WHICH].bm.at(x, y, 0) : *o.at(x, y, 0)), "the image of a pyramid layer does not consist of the tiles of this layer"); REQUIRE(d.sameOutside(o) && d.locks == 0, "bytes outside of the destination are changed, or it stays locked"); czi_done(); }
PYR(0, 0, 2, 0) PYR(1, 1, 2, 1) PYR(2, 2, 2, 2)
// the scaled image with scale 1 is that of the tiles
#define SCALE(NAME, VIS) extern "C" void W_C01_scale1_##NAME(In8 in, int m0, int m1) { czi_startup(); mid(m0); mid(m1); ASSUME(m1 < m0); Repo<2> r; r.add(0, 0, 0, m0, in); r.add(1, 1, 0, m1, in + 16); D32 d, o; d.fill(in + 48); o.fill(in + 48); CSingleChannelScalingTileAccessor a(alias<ISubBlockRepository>(&r)); CDimCoordinate c; \
    ISingleChannelScalingTileAccessor::Options p; p.Clear(); p.useVisibilityCheckOptimization = VIS; static_cast<ISingleChannelScalingTileAccessor&>(a).Get(&d, IntRectAndFrameOfReference{CZIFrameOfReference::RawSubBlockCoordinateSystem, IntRect{0, 0, 3, 2}}, &c, 1.0f, &p); int q[] = {1, 0}; check(r, q, 2, d, o, 0, 0, -1); czi_done(); }
SCALE(all, false) SCALE(visible, true)
// scaled image: scenes and masks
static inline void scaleGet(ISubBlockRepository* r, D32& d, const ISingleChannelScalingTileAccessor::Options& p, float z = 1.0f, IntRect roi = IntRect{0, 0, 3, 2}) { CSingleChannelScalingTileAccessor a(alias<ISubBlockRepository>(r)); CDimCoordinate c; static_cast<ISingleChannelScalingTileAccessor&>(a).Get(&d, IntRectAndFrameOfReference{CZIFrameOfReference::RawSubBlockCoordinateSystem, roi}, &c, z, &p); }
extern "C" void W_C01_scale1_scene(In8 in) { czi_startup(); Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 1, 0, 2, in + 16); r.t[0].info.coordinate.Set(DimensionIndex::S, 4); r.t[1].info.coordinate.Set(DimensionIndex::S, 7); BoundingBoxes b0, b1; b0.boundingBox = b0.boundingBoxLayer0 = IntRect{0, 0, 2, 2}; b1.boundingBox = b1.boundingBoxLayer0 = IntRect{1, 0, 2, 2}; r.st.sceneBoundingBoxes[4] = b0; r.st.sceneBoundingBoxes[7] = b1; OneScene f; f.s = 4;
    D32 d, o; d.fill(in + 32); o.fill(in + 32); ISingleChannelScalingTileAccessor::Options p; p.Clear(); p.sceneFilter = alias<IIndexSet>(&f); scaleGet(&r, d, p); int q[] = {0}; check(r, q, 1, d, o, 0, 0, -1); czi_done(); }
extern "C" void W_C01_scale1_scene_other(In8 in) { czi_startup(); Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 1, 0, 2, in + 16); r.t[0].info.coordinate.Set(DimensionIndex::S, 4); r.t[1].info.coordinate.Set(DimensionIndex::S, 7); BoundingBoxes b0, b1; b0.boundingBox = b0.boundingBoxLayer0 = IntRect{0, 0, 2, 2}; b1.boundingBox = b1.boundingBoxLayer0 = IntRect{1, 0, 2, 2}; r.st.sceneBoundingBoxes[4] = b0; r.st.sceneBoundingBoxes[7] = b1; OneScene f; f.s = 9;
    D32 d, o; d.fill(in + 32); o.fill(in + 32); ISingleChannelScalingTileAccessor::Options p; p.Clear(); p.sceneFilter = alias<IIndexSet>(&f); scaleGet(&r, d, p); int q[] = {0}; check(r, q, 0, d, o, 0, 0, -1); czi_done(); }
#define SMASK(NAME, VIS, AWARE) extern "C" void W_C01_scale1_mask_##NAME(In8 in) { czi_startup(); Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 0, 0, 2, in + 16); Cache c; T22 b0, b; b0.fill(in); b.fill(in + 16); Mask k(2, 2, 0x6); c.b[0] = alias<IBitmapData>(&b0); c.b[1] = alias<IBitmapData>(&b); c.m[1] = alias<IBitonalBitmapData>(&k); D32 d, o; d.fill(in + 32); o.fill(in + 32); ISingleChannelScalingTileAccessor::Options p; p.Clear(); p.subBlockCache = alias<ISubBlockCacheOperation>(&c); p.maskAware = AWARE; p.useVisibilityCheckOptimization = VIS; scaleGet(&r, d, p); \
    for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) { unsigned char e = x < 2 ? (x != y || !AWARE ? *b.at(x, y, 0) : *b0.at(x, y, 0)) : *o.at(x, y, 0); REQUIRE(*d.at(x, y, 0) == e, "a pixel of a region composed with masks is not that of the topmost tile whose mask allows it"); } czi_done(); }
SMASK(all, false, true) SMASK(visible, true, true) SMASK(unaware, false, false) SMASK(unaware_visible, true, false)
extern "C" void W_C01_scale_reject_size(In8 in) { czi_startup(); czi_exceptions(); Repo<1> r; r.add(0, 0, 0, 1, in); D32 d; d.fill(in + 32); ISingleChannelScalingTileAccessor::Options p; p.Clear(); REJECTS(scaleGet(&r, d, p, 1.0f, IntRect{0, 0, 4, 2}), "a destination with a size other than that of the scaled region is accepted"); }
extern "C" void W_C01_pyramid_scene(In8 in, int s0, int s1) { ASSUME(s0 != s1); czi_startup(); Repo<2> r; r.add(0, 0, 0, 1, in); r.add(1, 0, 0, 2, in + 16); r.t[0].info.coordinate.Set(DimensionIndex::S, s0); r.t[1].info.coordinate.Set(DimensionIndex::S, s1); OneScene f; f.s = s0; D32 d, o; d.fill(in + 48); o.fill(in + 48); CSingleChannelPyramidLevelTileAccessor a(alias<ISubBlockRepository>(&r)); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = 2; pi.pyramidLayerNo = 0; CDimCoordinate c; ISingleChannelPyramidLayerTileAccessor::Options p; p.Clear(); p.sceneFilter = alias<IIndexSet>(&f);
    static_cast<ISingleChannelPyramidLayerTileAccessor&>(a).Get(&d, at(0, 0), &c, pi, &p); int q[] = {0}; check(r, q, 1, d, o, 0, 0, -1); czi_done(); }
// borders are drawn exactly if requested
extern "C" void W_C01_border_tile(In8 in) { Repo<1> r; r.add(0, 0, 0, 1, in); D32 d, o; d.fill(in + 32); o.fill(in + 32); auto p = opts(false); p.drawTileBorder = true; Acc::tile(r, d, 0, 0, CDimCoordinate(), &p); for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) REQUIRE(*d.at(x, y, 0) == (x < 2 ? 0 : *o.at(x, y, 0)), "the border of a tile is not drawn as requested"); czi_done(); }
extern "C" void W_C01_border_pyramid(In8 in) { czi_startup(); Repo<1> r; r.add(0, 0, 0, 1, in); D32 d, o; d.fill(in + 32); o.fill(in + 32); CSingleChannelPyramidLevelTileAccessor a(alias<ISubBlockRepository>(&r)); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = 2; pi.pyramidLayerNo = 0; CDimCoordinate c; ISingleChannelPyramidLayerTileAccessor::Options p; p.Clear(); p.drawTileBorder = true;
    static_cast<ISingleChannelPyramidLayerTileAccessor&>(a).Get(&d, at(0, 0), &c, pi, &p); for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) REQUIRE(*d.at(x, y, 0) == (x < 2 ? 0 : *o.at(x, y, 0)), "the border of a tile is not drawn as requested"); czi_done(); }
