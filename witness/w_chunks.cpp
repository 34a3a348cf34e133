#include "w_pix.h"
#define private public
#define protected public
#include "SubblockAttachmentAccessor.h"
#undef private
#undef protected
using namespace libCZI::detail;
// ---- D03: the attachment of a sub-block: container of chunks, mask of valid pixels
typedef const unsigned char* In8; typedef std::uint32_t u32;
template <class T> static inline std::shared_ptr<T> alias(T* p) { return std::shared_ptr<T>(std::shared_ptr<void>(), p); }
struct Md : ISubBlockMetadata {
    bool TryGetAttachmentDataFormat(std::wstring*) override { return false; } bool TryGetStagePositionFromTags(std::tuple<double, double>*) override { return false; } bool TryGetTagAsDouble(const std::wstring&, double*) override { return false; } bool TryGetTagAsString(const std::wstring&, std::wstring*) override { return false; }
    std::wstring Name() const override { return std::wstring(); } bool TryGetAttribute(const wchar_t*, std::wstring*) const override { return false; } void EnumAttributes(const std::function<bool(const std::wstring&, const std::wstring&)>&) const override {} bool TryGetValue(std::wstring*) const override { return false; }
    std::shared_ptr<IXmlNodeRead> GetChildNodeReadonly(const char*) override { return std::shared_ptr<IXmlNodeRead>(); } void EnumChildren(const std::function<bool(std::shared_ptr<IXmlNodeRead>)>&) override {}
    bool IsXmlValid() const override { return false; } std::string GetXml() const override { return std::string(); }
};
struct Att : ISubBlock {
    SubBlockInfo info; unsigned char* d; size_t n;
    Att(unsigned char* d, size_t n) : d(d), n(n) { info.compressionModeRaw = 0; }
    const SubBlockInfo& GetSubBlockInfo() const override { return info; }
    void DangerousGetRawData(MemBlkType t, const void*& p, size_t& s) const override { p = t == Attachment ? d : nullptr; s = t == Attachment ? n : 0; }
    std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* s) const override { if (s) *s = t == Attachment ? n : 0; return t == Attachment ? std::shared_ptr<const void>(std::shared_ptr<void>(), d) : std::shared_ptr<const void>(); }
    std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions*) override { return std::shared_ptr<IBitmapData>(); }
};
template <unsigned N> struct Doc { unsigned char d[N]; Att a; Md m; SubblockAttachmentAccessor acc; unsigned at = 0;
    Doc(bool container = true, size_t n = N) : a(d, n), acc(alias<ISubBlock>(&a), alias<ISubBlockMetadata>(&m)) { acc.has_chunk_container_ = container; }
    void u(u32 v) { for (int i = 0; i < 4; ++i) d[at++] = (unsigned char)(v >> (8 * i)); }
    void chunk(u32 g, u32 n) { u(g); for (int i = 0; i < 12; ++i) d[at++] = (unsigned char)i; u(n); }
    void mask(u32 n) { static const unsigned char g[16] = {0x67, 0xEA, 0xE3, 0xCB, 0xFC, 0x5B, 0x2B, 0x49, 0xA1, 0x6A, 0xEC, 0xE3, 0x78, 0x03, 0x14, 0x48}; for (int i = 0; i < 16; ++i) d[at++] = g[i]; u(n); }
    void bytes(In8 in, unsigned n) { for (unsigned i = 0; i < n; ++i) d[at++] = in[i]; } };
typedef ISubBlockAttachmentAccessor::ChunkInfo CI; static inline bool is(const CI& c, u32 g, u32 o, u32 n) { return c.guid.Data1 == g && c.guid.Data2 == 0x100 && c.guid.Data3 == 0x302 && c.guid.Data4[0] == 4 && c.guid.Data4[7] == 11 && c.offset == o && c.size == n; }
struct Got { CI c[4]; int i[4]; int n = 0; };
template <unsigned N> static inline bool all(Doc<N>& d, Got& g, int stop = 9) { return d.acc.EnumerateChunksInChunkContainer([&g, stop](int i, const CI& c) { if (g.n < 4) { g.c[g.n] = c; g.i[g.n] = i; } ++g.n; return g.n < stop; }); }
#define CHUNKS "the chunks of an attachment are not delivered one after the other with index, identification, position and size"
extern "C" void W_D03_one(In8 in, u32 g0) { Doc<25> d; d.chunk(g0, 5); d.bytes(in, 5); Got g; REQUIRE(all(d, g), "chunks are not reported"); REQUIRE(g.n == 1 && g.i[0] == 0 && is(g.c[0], g0, 20, 5), CHUNKS); czi_done(); }
extern "C" void W_D03_two(In8 in, u32 g0, u32 g1) { Doc<48> d; d.chunk(g0, 5); d.bytes(in, 5); d.chunk(g1, 3); d.bytes(in, 3); Got g; REQUIRE(all(d, g), "chunks are not reported"); REQUIRE(g.n == 2 && g.i[0] == 0 && is(g.c[0], g0, 20, 5) && g.i[1] == 1 && is(g.c[1], g1, 45, 3), CHUNKS); czi_done(); }
extern "C" void W_D03_three(In8 in, u32 g0, u32 g1, u32 g2) { Doc<62> d; d.chunk(g0, 1); d.bytes(in, 1); d.chunk(g1, 0); d.chunk(g2, 1); d.bytes(in, 1); Got g; REQUIRE(all(d, g), "chunks are not reported"); REQUIRE(g.n == 3 && is(g.c[0], g0, 20, 1) && is(g.c[1], g1, 41, 0) && is(g.c[2], g2, 61, 1) && g.i[2] == 2, CHUNKS); czi_done(); }
extern "C" void W_D03_stop(In8 in, u32 g0, u32 g1) { Doc<48> d; d.chunk(g0, 5); d.bytes(in, 5); d.chunk(g1, 3); d.bytes(in, 3); Got g; REQUIRE(all(d, g, 1), "chunks are not reported"); REQUIRE(g.n == 1 && is(g.c[0], g0, 20, 5), "an enumeration ended by the caller goes on"); czi_done(); }
extern "C" void W_D03_rest(In8 in, u32 g0) { Doc<45> d; d.chunk(g0, 5); d.bytes(in, 20); Got g; REQUIRE(all(d, g), "chunks are not reported"); REQUIRE(g.n == 1 && is(g.c[0], g0, 20, 5), "bytes too few for a chunk are reported as one"); czi_done(); }
extern "C" void W_D03_rejected_size(In8 in, u32 g0, u32 n) { czi_exceptions(); ASSUME(n > 5); Doc<25> d; d.chunk(g0, n); d.bytes(in, 5); Got g; REJECTS(all(d, g), "a chunk that exceeds the attachment is accepted"); REQUIRE(g.n == 0, "a chunk that exceeds the attachment is reported"); czi_done(); }
extern "C" void W_D03_rejected_size2(In8 in, u32 g0, u32 n) { czi_exceptions(); ASSUME(n > 3); Doc<48> d; d.chunk(g0, 5); d.bytes(in, 5); d.chunk(g0, n); d.bytes(in, 3); Got g; REJECTS(all(d, g), "a chunk that exceeds the attachment is accepted"); REQUIRE(g.n == 1, "a chunk that exceeds the attachment is reported"); czi_done(); }
extern "C" void W_D03_rejected_short(In8 in, size_t n) { czi_exceptions(); ASSUME(n < 21); Doc<21> d(true, n); d.bytes(in, 21); Got g; REJECTS(all(d, g), "an attachment too small for a chunk is accepted"); REQUIRE(g.n == 0, "a chunk that exceeds the attachment is reported"); czi_done(); }
extern "C" void W_D03_rejected_none(In8 in) { czi_exceptions(); Doc<25> d(false); d.chunk(1, 5); d.bytes(in, 5); REQUIRE(!d.acc.HasChunkContainer(), "a container is reported where there is none"); Got g; REJECTS(all(d, g), "chunks of an attachment that is no container are reported"); REJECTS(d.acc.GetValidPixelMaskFromChunkContainer(), "a mask of an attachment that is no container is reported"); czi_done(); }
// the mask of valid pixels
#define MASK "the mask of a sub-block is not the one stored in its attachment"
extern "C" void W_D03_mask(In8 in, u32 w, u32 h, u32 t) { Doc<36> d; d.mask(16); d.u(w); d.u(h); d.u(t); d.bytes(in, 4); auto m = d.acc.GetValidPixelMaskFromChunkContainer(); REQUIRE(m.width == w && m.height == h && m.type_of_representation == t && m.size_data == 4 && m.data.get() == d.d + 32, MASK); czi_done(); }
extern "C" void W_D03_mask_second(In8 in, u32 g, u32 w, u32 h, u32 t) { Doc<61> d; d.chunk(g, 5); d.bytes(in, 5); d.mask(16); d.u(w); d.u(h); d.u(t); d.bytes(in, 4); auto m = d.acc.GetValidPixelMaskFromChunkContainer(); REQUIRE(m.width == w && m.height == h && m.type_of_representation == t && m.size_data == 4 && m.data.get() == d.d + 57, MASK); czi_done(); }
extern "C" void W_D03_mask_empty(u32 w, u32 h, u32 t) { Doc<32> d; d.mask(12); d.u(w); d.u(h); d.u(t); auto m = d.acc.GetValidPixelMaskFromChunkContainer(); REQUIRE(m.width == w && m.height == h && m.type_of_representation == t && m.size_data == 0, MASK); czi_done(); }
extern "C" void W_D03_mask_missing(In8 in, u32 g) { czi_exceptions(); Doc<36> d; d.chunk(g, 16); d.bytes(in, 16); REJECTS(d.acc.GetValidPixelMaskFromChunkContainer(), "a mask is reported although there is none"); czi_done(); }
extern "C" void W_D03_mask_other(In8 in, unsigned char b) { czi_exceptions(); ASSUME(b != 0x48); Doc<36> d; d.mask(16); d.d[15] = b; d.bytes(in, 16); REJECTS(d.acc.GetValidPixelMaskFromChunkContainer(), "another chunk is taken for the mask"); czi_done(); }
extern "C" void W_D03_mask_short(In8 in) { czi_exceptions(); Doc<31> d; d.mask(11); d.bytes(in, 11); REJECTS(d.acc.GetValidPixelMaskFromChunkContainer(), "a mask without complete description is accepted"); czi_done(); }
extern "C" void W_D03_mask_short1(In8 in) { czi_exceptions(); Doc<40> d; d.mask(1); d.bytes(in, 19); REJECTS(d.acc.GetValidPixelMaskFromChunkContainer(), "a mask without complete description is accepted"); czi_done(); }
// as bitonal bitmap
extern "C" void W_D03_bitonal(In8 in, u32 w, u32 h, u32 s) { Doc<41> d; d.mask(21); d.u(w); d.u(h); d.u(0); d.u(s); d.bytes(in, 5); auto m = ISubBlockAttachmentAccessor::GetValidPixelMaskAsUncompressedBitonalBitmap(&d.acc); REQUIRE(m.width == w && m.height == h && m.stride == s && m.size_data == 5 && m.data.get() == d.d + 36, MASK); czi_done(); }
extern "C" void W_D03_bitonal_type(In8 in, u32 w, u32 h, u32 t) { czi_exceptions(); ASSUME(t != 0); Doc<41> d; d.mask(21); d.u(w); d.u(h); d.u(t); d.bytes(in, 9); REJECTS(ISubBlockAttachmentAccessor::GetValidPixelMaskAsUncompressedBitonalBitmap(&d.acc), "a mask in another representation is accepted"); czi_done(); }
extern "C" void W_D03_bitonal_short(In8 in, u32 w, u32 h) { czi_exceptions(); Doc<35> d; d.mask(15); d.u(w); d.u(h); d.u(0); d.bytes(in, 3); REJECTS(ISubBlockAttachmentAccessor::GetValidPixelMaskAsUncompressedBitonalBitmap(&d.acc), "a mask without complete description is accepted"); czi_done(); }
#define BITMAP(NAME, W, H, S, N) extern "C" void W_D03_bitmap_##NAME(In8 in) { czi_startup(); Doc<36 + N> d; d.mask(16 + N); d.u(W); d.u(H); d.u(0); d.u(S); d.bytes(in, N); auto b = ISubBlockAttachmentAccessor::CreateBitonalBitmapFromMaskInfo(&d.acc); REQUIRE(b->GetWidth() == W && b->GetHeight() == H, MASK); auto l = b->Lock(); REQUIRE(l.ptrData == d.d + 36 && l.stride == S, MASK); b->Unlock(); czi_done(); }
BITMAP(min, 8, 2, 1, 2) BITMAP(pad, 9, 2, 3, 5) BITMAP(last, 1, 3, 2, 5) BITMAP(more, 16, 1, 2, 4)
#define NOBITMAP(NAME, SIG, PRE, W, H, S, N) extern "C" void W_D03_rejected_bitmap_##NAME SIG { czi_exceptions(); czi_startup(); PRE; Doc<36 + N> d; d.mask(16 + N); d.u(W); d.u(H); d.u(0); d.u(S); d.bytes(in, N); REJECTS(ISubBlockAttachmentAccessor::CreateBitonalBitmapFromMaskInfo(&d.acc), "a mask whose data do not cover its size is accepted"); czi_done(); }
NOBITMAP(w0, (In8 in, u32 h), (void)0, 0, h, 4, 4) NOBITMAP(h0, (In8 in, u32 w), (void)0, w, 0, 4, 4) NOBITMAP(stride, (In8 in, u32 w, u32 h), ASSUME(w > 16 && h > 0), w, h, 2, 8) NOBITMAP(size, (In8 in, u32 w, u32 h), ASSUME(w > 0 && w <= 16 && h > 4), w, h, 2, 8) NOBITMAP(size_last, (In8 in), (void)0, 9, 2, 3, 4)
NOBITMAP(huge, (In8 in, u32 s), ASSUME(s < 0x20000000), 0xffffffffu, 1, s, 4)
