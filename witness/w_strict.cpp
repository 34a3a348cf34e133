#include "w_flow.h"
// ---- R05: options of opening decide exactly which irregular documents are rejected, and whose description of a sub-block holds
// a document with one sub-block, byte by byte as the file format prescribes
struct Doc {
    Bytes<2048> m; enum { Dir = 544, Sb = 1024, X = 0, Y = 1, C = 2, M = 3, Start = 4, Size = 8, Stored = 16 };
    void p32(unsigned o, std::uint32_t v) { std::memcpy(m.b + o, &v, 4); }
    void p64(unsigned o, std::uint64_t v) { std::memcpy(m.b + o, &v, 8); }
    void seg(unsigned o, const char* id, unsigned n, std::uint64_t size) { std::memcpy(m.b + o, id, n); p64(o + 16, size); p64(o + 24, size); }
    static unsigned dir(int d, int f) { return Dir + 32 + 128 + 32 + 20 * d + f; }
    static unsigned sb(int d, int f) { return Sb + 32 + 16 + 32 + 20 * d + f; }
    enum { DirE = Dir + 32 + 128, SbE = Sb + 32 + 16, PixType = 2, Compr = 18, Spare = 22 };
    void dim(unsigned o, char c, std::uint32_t start, std::uint32_t size, std::uint32_t stored) { m.b[o] = c; p32(o + Start, start); p32(o + Size, size); p32(o + Stored, stored); }
    void entry(unsigned o, int x, int y, int w, int h, int c, int mi) { m.b[o] = 'D'; m.b[o + 1] = 'V'; p32(o + 2, 0); p64(o + 6, Sb); p32(o + 14, 0); p32(o + 18, 0); p32(o + 28, 4); dim(o + 32, 'X', x, w, w); dim(o + 52, 'Y', y, h, h); dim(o + 72, 'C', c, 1, 1); dim(o + 92, 'M', mi, 1, 1); }
    Doc(int x = 10, int y = 20, int w = 2, int h = 1, int c = 3, int mi = 5) {
        for (unsigned i = 0; i < sizeof(m.b); ++i) m.b[i] = 0; m.end = 1400;
        seg(0, "ZISRAWFILE", 10, 512); p32(32, 1); p64(84, Dir); seg(Dir, "ZISRAWDIRECTORY", 15, 128 + 112); p32(Dir + 32, 1); entry(DirE, x, y, w, h, c, mi);
        seg(Sb, "ZISRAWSUBBLOCK", 14, 256 + 2); p64(Sb + 40, 2); entry(SbE, x, y, w, h, c, mi); m.b[Sb + 32 + 256] = 77; m.b[Sb + 32 + 257] = 78;
    }
};
typedef ICZIReader::OpenOptions Opt; typedef Opt::SubBlockDirectoryInfoPolicy Pol;
static inline Opt strict(bool ignoreM = false) { Opt o; o.SetDefault(); o.lax_subblock_coordinate_checks = false; o.ignore_sizem_for_pyramid_subblocks = ignoreM; return o; }
static inline Opt policy(int p) { Opt o; o.SetDefault(); o.subBlockDirectoryInfoPolicy = static_cast<Pol>(p); return o; }
static inline std::shared_ptr<ICZIReader> open(Doc& d, const Opt* o) { auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<In<2048>>(&d.m), o); return r; }
static inline SubBlockInfo listed(const std::shared_ptr<ICZIReader>& r) { SubBlockInfo o; int n = 0; r->EnumerateSubBlocks([&](int, const SubBlockInfo& i)->bool { o = i; ++n; return true; }); REQUIRE(n == 1, "a document is not opened with all its sub-blocks"); return o; }
static inline void same(const SubBlockInfo& o, int x, int y, int w, int h, int c, int mi, const char*) {
    int g = 0; REQUIRE(o.logicalRect.x == x && o.logicalRect.y == y && o.logicalRect.w == w && o.logicalRect.h == h, "position or size of a sub-block is not that of the description which holds"); REQUIRE(o.coordinate.GetNumberOfValidDimensions() == 1 && o.coordinate.TryGetPosition(DimensionIndex::C, &g) && g == c, "the coordinate of a sub-block is not that of the description which holds"); REQUIRE(o.mIndex == mi, "the M-index of a sub-block is not that of the description which holds");
}
#define FLAG extern "C" void
// regular documents are accepted by every option
FLAG W_R05_regular_strict(int x, int y, int w, int h, int c, int m) { Doc d(x, y, w, h, c, m); auto o = strict(); auto s = listed(open(d, &o)); same(s, x, y, w, h, c, m, ""); czi_done(); }
FLAG W_R05_regular_strict_ignore(int x, int y, int w, int h, int c, int m) { Doc d(x, y, w, h, c, m); auto o = strict(true); auto s = listed(open(d, &o)); same(s, x, y, w, h, c, m, ""); czi_done(); }
FLAG W_R05_regular_lax(int x, int y, int w, int h, int c, int m) { Doc d(x, y, w, h, c, m); auto s = listed(open(d, nullptr)); same(s, x, y, w, h, c, m, ""); czi_done(); }
FLAG W_R05_pyramid_strict(int w, int h, int pw, int ph) { Doc d(1, 2, w, h); d.p32(Doc::dir(Doc::X, Doc::Stored), pw); d.p32(Doc::dir(Doc::Y, Doc::Stored), ph); auto o = strict(); auto s = listed(open(d, &o)); REQUIRE((int)s.physicalSize.w == pw && (int)s.physicalSize.h == ph, "the stored size of a tile of a pyramid is wrong"); czi_done(); }
// sizes other than one: rejected by strict checks only
#define SIZES(NAME, FIELD) \
    FLAG W_R05_strict_##NAME(int v) { ASSUME(v != 1); Doc d; d.p32(Doc::dir(Doc::C, Doc::FIELD), v); auto o = strict(); NEVER_RETURNS(open(d, &o), "a dimension with a size other than one passes strict checks"); } \
    FLAG W_R05_strict_ignore_##NAME(int v) { ASSUME(v != 1); Doc d; d.p32(Doc::dir(Doc::C, Doc::FIELD), v); auto o = strict(true); NEVER_RETURNS(open(d, &o), "a dimension with a size other than one passes strict checks"); } \
    FLAG W_R05_lax_##NAME(int v) { Doc d; d.p32(Doc::dir(Doc::C, Doc::FIELD), v); auto s = listed(open(d, nullptr)); same(s, 10, 20, 2, 1, 3, 5, ""); czi_done(); } \
    FLAG W_R05_lax_ignore_##NAME(int v) { Doc d; d.p32(Doc::dir(Doc::C, Doc::FIELD), v); Opt o; o.SetDefault(); o.ignore_sizem_for_pyramid_subblocks = true; auto s = listed(open(d, &o)); same(s, 10, 20, 2, 1, 3, 5, ""); czi_done(); }
SIZES(size, Size) SIZES(stored, Stored)
#define OTHER(L) FLAG W_R05_strict_size_##L(int v) { ASSUME(v != 1); Doc d; d.m.b[Doc::dir(Doc::C, 0)] = #L[0]; d.p32(Doc::dir(Doc::C, Doc::Size), v); auto o = strict(); NEVER_RETURNS(open(d, &o), "dimension " #L " with a size other than one passes strict checks"); } \
    FLAG W_R05_strict_stored_##L(int v) { ASSUME(v != 1); Doc d; d.m.b[Doc::dir(Doc::C, 0)] = #L[0]; d.p32(Doc::dir(Doc::C, Doc::Stored), v); auto o = strict(); NEVER_RETURNS(open(d, &o), "dimension " #L " with a stored size other than one passes strict checks"); }
OTHER(Z) OTHER(T) OTHER(R) OTHER(S) OTHER(I) OTHER(H) OTHER(V) OTHER(B)
// size of the M-dimension
FLAG W_R05_strict_m(int v) { ASSUME(v != 1); Doc d; d.p32(Doc::dir(Doc::M, Doc::Size), v); auto o = strict(); NEVER_RETURNS(open(d, &o), "a size of the M-dimension other than one passes strict checks"); }
FLAG W_R05_strict_m_pyramid(int v, int pw) { ASSUME(v != 1); Doc d; d.p32(Doc::dir(Doc::M, Doc::Size), v); d.p32(Doc::dir(Doc::X, Doc::Stored), pw); auto o = strict(); NEVER_RETURNS(open(d, &o), "a size of the M-dimension other than one passes strict checks for a tile of a pyramid although this is not to be ignored"); }
FLAG W_R05_strict_m_ignored(int v) { ASSUME(v != 1); Doc d; d.p32(Doc::dir(Doc::M, Doc::Size), v); auto o = strict(true); NEVER_RETURNS(open(d, &o), "a size of the M-dimension other than one passes strict checks for a tile that does not belong to a pyramid"); }
FLAG W_R05_strict_m_ignored_x(int v, int pw) { ASSUME(pw != 2); Doc d; d.p32(Doc::dir(Doc::M, Doc::Size), v); d.p32(Doc::dir(Doc::X, Doc::Stored), pw); auto o = strict(true); auto s = listed(open(d, &o)); same(s, 10, 20, 2, 1, 3, 5, ""); czi_done(); }
FLAG W_R05_strict_m_ignored_y(int v, int ph) { ASSUME(ph != 1); Doc d; d.p32(Doc::dir(Doc::M, Doc::Size), v); d.p32(Doc::dir(Doc::Y, Doc::Stored), ph); auto o = strict(true); auto s = listed(open(d, &o)); same(s, 10, 20, 2, 1, 3, 5, ""); czi_done(); }
FLAG W_R05_strict_m_ignored_first(int v, int pw) { ASSUME(pw != 2); Doc d; d.dim(Doc::dir(0, 0), 'M', 5, v, 1); d.dim(Doc::dir(1, 0), 'C', 3, 1, 1); d.dim(Doc::dir(2, 0), 'Y', 20, 1, 1); d.dim(Doc::dir(3, 0), 'X', 10, 2, pw); auto o = strict(true); auto s = listed(open(d, &o)); same(s, 10, 20, 2, 1, 3, 5, ""); czi_done(); }   // whatever the order of the dimensions
FLAG W_R05_strict_m_first(int v) { ASSUME(v != 1); Doc d; d.dim(Doc::dir(0, 0), 'M', 5, v, 1); d.dim(Doc::dir(1, 0), 'C', 3, 1, 1); d.dim(Doc::dir(2, 0), 'Y', 20, 1, 1); d.dim(Doc::dir(3, 0), 'X', 10, 2, 2); auto o = strict(true); NEVER_RETURNS(open(d, &o), "a size of the M-dimension other than one passes strict checks depending on the order of the dimensions"); }
FLAG W_R05_lax_m(int v) { Doc d; d.p32(Doc::dir(Doc::M, Doc::Size), v); auto s = listed(open(d, nullptr)); same(s, 10, 20, 2, 1, 3, 5, ""); czi_done(); }
// X and Y must be present
#define NOXY(D) FLAG W_R05_strict_no_##D() { Doc d; d.dim(Doc::dir(Doc::D, 0), 'T', 0, 1, 1); auto o = strict(); NEVER_RETURNS(open(d, &o), "a sub-block without " #D " passes strict checks"); } \
    FLAG W_R05_strict_ignore_no_##D() { Doc d; d.dim(Doc::dir(Doc::D, 0), 'T', 0, 1, 1); auto o = strict(true); NEVER_RETURNS(open(d, &o), "a sub-block without " #D " passes strict checks"); } \
    FLAG W_R05_lax_no_##D() { Doc d; d.dim(Doc::dir(Doc::D, 0), 'T', 0, 1, 1); auto s = listed(open(d, nullptr)); REQUIRE(s.mIndex == 5, "a sub-block without " #D " is not listed by lax checks"); czi_done(); }
NOXY(X) NOXY(Y)
FLAG W_R05_strict_no_XY() { Doc d; d.dim(Doc::dir(Doc::X, 0), 'T', 0, 1, 1); d.dim(Doc::dir(Doc::Y, 0), 'Z', 0, 1, 1); auto o = strict(); NEVER_RETURNS(open(d, &o), "a sub-block without X and Y passes strict checks"); }
// the description of a sub-block in the directory and in its own header
#define POLS(P) FLAG W_R05_read_regular_##P(int x, int y, int w, int h, int c, int m) { ASSUME(m > 0 && m < 0x7fffffff); Doc d(x, y, w, h, c, m); auto o = policy(P); auto s = open(d, &o)->ReadSubBlock(0); same(s->GetSubBlockInfo(), x, y, w, h, c, m, ""); unsigned char e[2] = {77, 78}; REQUIRE(bytesAre(s, ISubBlock::Data, 2, e), "the data of a sub-block are not read"); czi_done(); }
POLS(0) POLS(1) POLS(128) POLS(129)
#define DIFF(NAME, POS, ORIG, GETD) \
    FLAG W_R05_mismatch_##NAME(int v) { ASSUME(v != ORIG); Doc d; d.p32(Doc::sb(POS), v); auto o = policy(0); auto r = open(d, &o); NEVER_RETURNS(r->ReadSubBlock(0), "a header of a sub-block that differs from the directory (" #NAME ") is not rejected"); } \
    FLAG W_R05_mismatch_header_##NAME(int v) { ASSUME(v != ORIG); Doc d; d.p32(Doc::sb(POS), v); auto o = policy(1); auto r = open(d, &o); NEVER_RETURNS(r->ReadSubBlock(0), "a header of a sub-block that differs from the directory (" #NAME ") is not rejected"); } \
    FLAG W_R05_directory_holds_##NAME(int v) { Doc d; d.p32(Doc::sb(POS), v); auto o = policy(128); auto s = open(d, &o)->ReadSubBlock(0); auto i = s->GetSubBlockInfo(); REQUIRE(GETD == ORIG, "the description in the directory does not take precedence (" #NAME ")"); czi_done(); } \
    FLAG W_R05_header_holds_##NAME(int v) { Doc d; d.p32(Doc::sb(POS), v); auto o = policy(129); auto s = open(d, &o)->ReadSubBlock(0); auto i = s->GetSubBlockInfo(); REQUIRE(GETD == v, "the description in the header does not take precedence (" #NAME ")"); czi_done(); }
static inline int chan(const SubBlockInfo& i) { int g = -1; i.coordinate.TryGetPosition(DimensionIndex::C, &g); return g; }
#define AT(D, F) Doc::D, Doc::F
DIFF(x, AT(X, Start), 10, i.logicalRect.x) DIFF(y, AT(Y, Start), 20, i.logicalRect.y) DIFF(width, AT(X, Size), 2, i.logicalRect.w) DIFF(height, AT(Y, Size), 1, i.logicalRect.h) DIFF(stored_width, AT(X, Stored), 2, (int)i.physicalSize.w) DIFF(stored_height, AT(Y, Stored), 1, (int)i.physicalSize.h) DIFF(c, AT(C, Start), 3, chan(i)) DIFF(m, AT(M, Start), 5, i.mIndex)
#define DIFFE(NAME, F, V) FLAG W_R05_mismatch_##NAME(int v) { ASSUME(v != 0); Doc d; d.p32(Doc::SbE + Doc::F, v); auto o = policy(0); auto r = open(d, &o); NEVER_RETURNS(r->ReadSubBlock(0), "a header of a sub-block that differs from the directory (" #NAME ") is not rejected"); }
DIFFE(pixeltype, PixType, 1) DIFFE(compression, Compr, 1)
FLAG W_R05_directory_holds_kind(int v) { Doc d; d.p32(Doc::SbE + Doc::PixType, 1); d.p32(Doc::SbE + Doc::Compr, v); d.m.b[Doc::SbE + Doc::Spare] = 2; auto o = policy(128); auto i = open(d, &o)->ReadSubBlock(0)->GetSubBlockInfo(); REQUIRE(i.pixelType == PixelType::Gray8 && i.compressionModeRaw == 0 && i.pyramidType == SubBlockPyramidType::None, "pixel type, compression or pyramid type in the directory do not take precedence"); czi_done(); }
FLAG W_R05_header_holds_kind(int v) { Doc d; d.p32(Doc::SbE + Doc::PixType, 1); d.p32(Doc::SbE + Doc::Compr, v); d.m.b[Doc::SbE + Doc::Spare] = 2; auto o = policy(129); auto i = open(d, &o)->ReadSubBlock(0)->GetSubBlockInfo(); REQUIRE(i.pixelType == PixelType::Gray16 && i.compressionModeRaw == v && i.pyramidType == SubBlockPyramidType::MultiSubBlock, "pixel type, compression or pyramid type in the header do not take precedence"); czi_done(); }
FLAG W_R05_mismatch_dimension() { Doc d; d.m.b[Doc::sb(Doc::C, 0)] = 'T'; auto o = policy(0); auto r = open(d, &o); NEVER_RETURNS(r->ReadSubBlock(0), "a header of a sub-block with another dimension than the directory is not rejected"); }
FLAG W_R05_mismatch_more(int v) { Doc d; d.p32(Doc::SbE + 28, 5); d.dim(Doc::sb(4, 0), 'T', v, 1, 1); auto o = policy(0); auto r = open(d, &o); NEVER_RETURNS(r->ReadSubBlock(0), "a header of a sub-block with more dimensions than the directory is not rejected"); }
FLAG W_R05_mismatch_no_m() { Doc d; d.p32(Doc::SbE + 28, 3); auto o = policy(0); auto r = open(d, &o); NEVER_RETURNS(r->ReadSubBlock(0), "a header of a sub-block without the M-index of the directory is not rejected"); }
FLAG W_R05_mismatch_only_m() { Doc d; d.p32(Doc::DirE + 28, 3); auto o = policy(0); auto r = open(d, &o); NEVER_RETURNS(r->ReadSubBlock(0), "a header of a sub-block with an M-index that the directory does not have is not rejected"); }
FLAG W_R05_no_m_equal() { Doc d; d.p32(Doc::DirE + 28, 3); d.p32(Doc::SbE + 28, 3); auto o = policy(0); auto s = open(d, &o)->ReadSubBlock(0); REQUIRE(!s->GetSubBlockInfo().IsMindexValid(), "an M-index appears"); czi_done(); }
// frames of reference
typedef CZIFrameOfReference Fr;
static inline Opt frame(Fr f) { Opt o; o.SetDefault(); o.default_frame_of_reference = f; return o; }
#define FR(NAME, DEF, FROM, TO, RES, SX, SY) FLAG W_R05_frame_##NAME(int x, int y, int px, int py) { ASSUME(x > -0x10000000 && x < 0x10000000 && y > -0x10000000 && y < 0x10000000 && px > -0x10000000 && px < 0x10000000 && py > -0x10000000 && py < 0x10000000); Doc d(x, y); auto o = frame(Fr::DEF); auto q = open(d, &o)->TransformPoint(IntPointAndFrameOfReference{Fr::FROM, {px, py}}, Fr::TO); REQUIRE(q.frame_of_reference == Fr::RES, "a point is not transformed to the frame of reference that was requested"); REQUIRE(q.point.x == px SX && q.point.y == py SY, "a point is not moved by the origin of the document"); czi_done(); }
FR(raw_pixel, Invalid, RawSubBlockCoordinateSystem, PixelCoordinateSystem, PixelCoordinateSystem, - x, - y) FR(pixel_raw, Invalid, PixelCoordinateSystem, RawSubBlockCoordinateSystem, RawSubBlockCoordinateSystem, + x, + y) FR(raw_raw, Invalid, RawSubBlockCoordinateSystem, RawSubBlockCoordinateSystem, RawSubBlockCoordinateSystem, , ) FR(pixel_pixel, PixelCoordinateSystem, PixelCoordinateSystem, PixelCoordinateSystem, PixelCoordinateSystem, , )
FR(default_pixel, Invalid, Default, PixelCoordinateSystem, PixelCoordinateSystem, - x, - y) FR(default2_pixel, Default, Default, PixelCoordinateSystem, PixelCoordinateSystem, - x, - y) FR(defaultraw_pixel, RawSubBlockCoordinateSystem, Default, PixelCoordinateSystem, PixelCoordinateSystem, - x, - y) FR(defaultpixel_raw, PixelCoordinateSystem, Default, RawSubBlockCoordinateSystem, RawSubBlockCoordinateSystem, + x, + y) FR(raw_defaultpixel, PixelCoordinateSystem, RawSubBlockCoordinateSystem, Default, PixelCoordinateSystem, - x, - y) FR(pixel_default, Invalid, PixelCoordinateSystem, Default, RawSubBlockCoordinateSystem, + x, + y) FR(default_default, PixelCoordinateSystem, Default, Default, PixelCoordinateSystem, , )
#define FRR(NAME, FROM, TO) FLAG W_R05_frame_reject_##NAME(int px) { Doc d; auto r = open(d, nullptr); NEVER_RETURNS(r->TransformPoint(IntPointAndFrameOfReference{Fr::FROM, {px, 1}}, Fr::TO), "an invalid frame of reference is accepted"); }
FRR(from, Invalid, RawSubBlockCoordinateSystem) FRR(to, RawSubBlockCoordinateSystem, Invalid)
