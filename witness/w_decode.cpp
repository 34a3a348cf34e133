#include "w_pix.h"
#include "bitmapData.h"
using namespace libCZI::detail;
// ---- D01: the bitmap of a sub-block
typedef const unsigned char* In8; typedef std::uint32_t u32;
template <class T> static inline std::shared_ptr<T> alias(T* p) { return std::shared_ptr<T>(std::shared_ptr<void>(), p); }
template <unsigned N> struct Sb : ISubBlock {
    SubBlockInfo info; unsigned char d[N ? N : 1];
    Sb(CompressionMode c, PixelType p, u32 w, u32 h) { info.compressionModeRaw = Utils::CompressionModeToCompressionIdentifier(c); info.pixelType = p; info.logicalRect = IntRect{0, 0, (int)w, (int)h}; info.physicalSize = IntSize{w, h}; info.mIndex = 0; info.pyramidType = SubBlockPyramidType::None; }
    const SubBlockInfo& GetSubBlockInfo() const override { return info; }
    void DangerousGetRawData(MemBlkType t, const void*& p, size_t& n) const override { p = t == Data ? d : nullptr; n = t == Data ? N : 0; }
    std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* n) const override { if (n) *n = t == Data ? N : 0; return t == Data ? std::shared_ptr<const void>(std::shared_ptr<void>(), d) : std::shared_ptr<const void>(); }
    std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions* o) override { return CreateBitmapFromSubBlock(this, o); }
    void fill(In8 in, unsigned from = 0) { for (unsigned i = from; i < N; ++i) d[i] = in[i]; }
};
static inline CreateBitmapOptions strict() { CreateBitmapOptions o; o.handle_jpgxr_bitmap_mismatch = false; o.handle_zstd_data_size_mismatch = false; o.handle_uncompressed_data_size_mismatch = false; return o; }
// byte i of the content, packed (low bytes first, then high bytes) or not; zero beyond it
static inline unsigned char content(In8 c, unsigned n, bool packed, unsigned i) { if (!packed) return i < n ? c[i] : 0; return i < n / 2 * 2 ? c[i / 2 + (i & 1 ? n / 2 : 0)] : 0; }
template <unsigned B> static inline void is(IBitmapData* b, PixelType p, u32 w, u32 h, In8 c, unsigned n, bool packed = false) {
    REQUIRE(b->GetPixelType() == p && b->GetWidth() == w && b->GetHeight() == h, "the bitmap of a sub-block has not the pixel type or size which the sub-block states");
    auto l = b->Lock(); for (u32 y = 0; y < h; ++y) for (u32 x = 0; x < w * B; ++x) REQUIRE(static_cast<const unsigned char*>(l.ptrDataRoi)[y * l.stride + x] == content(c, n, packed, y * w * B + x), "a pixel of a sub-block's bitmap is not the one stored"); b->Unlock();
    REQUIRE(b->GetLockCount() == 0, "the bitmap of a sub-block stays locked");
}
// uncompressed: exact, too long, and too short data (N bytes)
#define RAW(T, B, W, H, N) \
    extern "C" void W_D01_raw_##T##_##N(In8 in) { czi_startup(); Sb<N> s(CompressionMode::UnCompressed, PixelType::T, W, H); s.fill(in); auto b = s.CreateBitmap(nullptr); is<B>(b.get(), PixelType::T, W, H, in, N); czi_done(); } 
#define RAWSTRICT(T, B, W, H, N) extern "C" void W_D01_raw_strict_##T##_##N(In8 in) { czi_startup(); Sb<N> s(CompressionMode::UnCompressed, PixelType::T, W, H); s.fill(in); auto o = strict(); auto b = s.CreateBitmap(&o); is<B>(b.get(), PixelType::T, W, H, in, N); czi_done(); }
#define RAWBAD(T, B, W, H, N) extern "C" void W_D01_raw_rejected_##T##_##N(In8 in) { czi_exceptions(); czi_startup(); Sb<N> s(CompressionMode::UnCompressed, PixelType::T, W, H); s.fill(in); auto o = strict(); REJECTS(s.CreateBitmap(&o), "a sub-block with too little data is accepted although this was not allowed"); czi_done(); }
RAW(Gray8, 1, 3, 2, 6) RAW(Gray8, 1, 3, 2, 7) RAW(Gray8, 1, 3, 2, 5) RAW(Gray8, 1, 3, 2, 3) RAW(Gray8, 1, 3, 2, 2) RAW(Gray8, 1, 3, 2, 0) RAW(Gray16, 2, 2, 2, 8) RAW(Gray16, 2, 2, 2, 5) RAW(Bgr24, 3, 2, 2, 12) RAW(Bgr24, 3, 2, 2, 7) RAW(Bgr48, 6, 1, 2, 12) RAW(Bgr48, 6, 1, 2, 6) RAW(Gray32Float, 4, 2, 1, 8) RAW(Gray32Float, 4, 2, 1, 3)
RAWSTRICT(Gray8, 1, 3, 2, 6) RAWSTRICT(Gray8, 1, 3, 2, 9) RAWSTRICT(Bgr24, 3, 2, 2, 12)
RAWBAD(Gray8, 1, 3, 2, 5) RAWBAD(Gray8, 1, 3, 2, 0) RAWBAD(Gray16, 2, 2, 2, 7) RAWBAD(Bgr48, 6, 1, 2, 11)
// zstd0
#define Z0(NAME, T, B, W, H, N, OPT) extern "C" void W_D01_zstd0_##NAME##_##T##_##N(In8 in) { czi_startup(); Sb<N + 1> s(CompressionMode::Zstd0, PixelType::T, W, H); s.d[0] = 0; s.fill(in, 1); auto o = strict(); auto b = s.CreateBitmap(OPT); is<B>(b.get(), PixelType::T, W, H, in + 1, N); czi_done(); }
Z0(any, Gray8, 1, 3, 2, 6, nullptr) Z0(any, Gray8, 1, 3, 2, 7, nullptr) Z0(any, Gray8, 1, 3, 2, 4, nullptr) Z0(any, Gray8, 1, 3, 2, 0, nullptr) Z0(any, Gray16, 2, 2, 2, 8, nullptr) Z0(any, Gray16, 2, 2, 2, 5, nullptr) Z0(any, Bgr48, 6, 1, 2, 12, nullptr) Z0(any, Bgr24, 3, 2, 2, 12, nullptr)
Z0(strict, Gray8, 1, 3, 2, 6, &o) Z0(strict, Gray16, 2, 2, 2, 8, &o) Z0(strict, Bgr24, 3, 2, 2, 12, &o)
#define Z0BAD(NAME, T, B, W, H, N, KIND, OPT) extern "C" void W_D01_zstd0_rejected_##NAME(In8 in) { czi_exceptions(); czi_startup(); Sb<N + 1> s(CompressionMode::Zstd0, PixelType::T, W, H); s.d[0] = KIND; s.fill(in, 1); auto o = strict(); REJECTS(s.CreateBitmap(OPT), "a sub-block with damaged or mismatching compressed data is accepted"); czi_done(); }
Z0BAD(short, Gray8, 1, 3, 2, 5, 0, &o) Z0BAD(long, Gray8, 1, 3, 2, 7, 0, &o)
#define DAMAGED(F) F(size_error, 1, nullptr, 6) F(size_unknown, 2, nullptr, 6) F(damaged, 3, nullptr, 6) F(truncated, 4, nullptr, 6) F(damaged_short, 3, nullptr, 4) F(truncated_short, 4, nullptr, 4) F(damaged_long, 3, nullptr, 8) F(truncated_long, 4, nullptr, 8) F(strict_size_error, 1, &o, 6) F(strict_size_unknown, 2, &o, 6) F(strict_damaged, 3, &o, 6) F(strict_truncated, 4, &o, 6)
#define Z0DAMAGED(NAME, KIND, OPT, N) Z0BAD(NAME, Gray8, 1, 3, 2, N, KIND, OPT)
DAMAGED(Z0DAMAGED)
// zstd1 with each header
#define HDR1 s.d[0] = 1
#define HDR3(F) s.d[0] = 3; s.d[1] = 1; s.d[2] = F
#define Z1(NAME, T, B, W, H, N, HN, HDR, PACKED, OPT) extern "C" void W_D01_zstd1_##NAME##_##T##_##N(In8 in) { czi_startup(); Sb<N + 1 + HN> s(CompressionMode::Zstd1, PixelType::T, W, H); HDR; s.d[HN] = 0; s.fill(in, HN + 1); auto o = strict(); auto b = s.CreateBitmap(OPT); is<B>(b.get(), PixelType::T, W, H, in + HN + 1, N, PACKED); czi_done(); }
Z1(short_header, Gray8, 1, 3, 2, 6, 1, HDR1, false, nullptr) Z1(short_header, Gray16, 2, 2, 2, 5, 1, HDR1, false, nullptr) Z1(short_header_strict, Gray16, 2, 2, 2, 8, 1, HDR1, false, &o)
Z1(plain, Gray8, 1, 3, 2, 6, 3, HDR3(0), false, nullptr) Z1(plain, Gray16, 2, 2, 2, 8, 3, HDR3(2), false, nullptr) Z1(plain, Bgr24, 3, 2, 2, 13, 3, HDR3(0), false, nullptr) Z1(plain_strict, Bgr48, 6, 1, 2, 12, 3, HDR3(0), false, &o)
Z1(packed, Gray16, 2, 2, 2, 8, 3, HDR3(1), true, nullptr) Z1(packed_wide, Gray16, 2, 3, 2, 8, 3, HDR3(1), true, nullptr) Z1(packed, Gray16, 2, 2, 2, 4, 3, HDR3(1), true, nullptr) Z1(packed, Gray16, 2, 2, 2, 5, 3, HDR3(1), true, nullptr) Z1(packed, Gray16, 2, 2, 2, 10, 3, HDR3(1), true, nullptr) Z1(packed, Gray16, 2, 2, 2, 0, 3, HDR3(1), true, nullptr)
Z1(packed, Bgr48, 6, 1, 2, 12, 3, HDR3(3), true, nullptr) Z1(packed, Bgr48, 6, 1, 2, 6, 3, HDR3(1), true, nullptr) Z1(packed, Bgr48, 6, 1, 2, 14, 3, HDR3(1), true, nullptr)
Z1(packed_strict, Gray16, 2, 2, 2, 8, 3, HDR3(1), true, &o) Z1(packed_strict, Bgr48, 6, 2, 1, 12, 3, HDR3(1), true, &o)
#define Z1BAD(NAME, T, W, H, N, HN, HDR, KIND, OPT) extern "C" void W_D01_zstd1_rejected_##NAME(In8 in) { czi_exceptions(); czi_startup(); Sb<N + 1 + HN> s(CompressionMode::Zstd1, PixelType::T, W, H); HDR; s.d[HN] = KIND; s.fill(in, HN + 1); auto o = strict(); REJECTS(s.CreateBitmap(OPT), "a sub-block with damaged or mismatching compressed data is accepted"); czi_done(); }
#define Z1DAMAGED(NAME, KIND, OPT, N) Z1BAD(NAME, Gray16, 3, 1, N, 3, HDR3(1), KIND, OPT)
DAMAGED(Z1DAMAGED)
#define Z1PLAIN(NAME, KIND, OPT, N) Z1BAD(plain_##NAME, Gray16, 3, 1, N, 1, HDR1, KIND, OPT)
DAMAGED(Z1PLAIN)
Z1BAD(packed_gray8, Gray8, 3, 2, 6, 3, HDR3(1), 0, nullptr) Z1BAD(packed_bgr24, Bgr24, 1, 2, 6, 3, HDR3(1), 0, nullptr) Z1BAD(packed_float, Gray32Float, 1, 2, 8, 3, HDR3(1), 0, nullptr)
Z1BAD(packed_short, Gray16, 2, 2, 6, 3, HDR3(1), 0, &o) Z1BAD(packed_long, Gray16, 2, 2, 10, 3, HDR3(1), 0, &o) Z1BAD(plain_short, Gray16, 2, 2, 6, 3, HDR3(0), 0, &o)
// headers that are none: the first byte must be 1 or 3, the chunk's type must be 1, and data must follow
extern "C" void W_D01_zstd1_rejected_header(In8 in, unsigned char h) { czi_exceptions(); czi_startup(); ASSUME(h != 1 && h != 3); Sb<12> s(CompressionMode::Zstd1, PixelType::Gray16, 2, 2); s.d[0] = h; s.d[3] = 0; s.d[1] = in[1]; s.d[2] = in[2]; s.fill(in, 4); REJECTS(s.CreateBitmap(nullptr), "data with an invalid zstd1-header is accepted"); czi_done(); }
extern "C" void W_D01_zstd1_rejected_chunk(In8 in, unsigned char t) { czi_exceptions(); czi_startup(); ASSUME(t != 1); Sb<12> s(CompressionMode::Zstd1, PixelType::Gray16, 2, 2); s.d[0] = 3; s.d[1] = t; s.d[3] = 0; s.d[2] = in[2]; s.fill(in, 4); REJECTS(s.CreateBitmap(nullptr), "data with an invalid zstd1-header is accepted"); czi_done(); }
extern "C" void W_D01_zstd1_rejected_empty() { czi_exceptions(); czi_startup(); Sb<0> s(CompressionMode::Zstd1, PixelType::Gray16, 2, 2); REJECTS(s.CreateBitmap(nullptr), "data with an invalid zstd1-header is accepted"); czi_done(); }
extern "C" void W_D01_zstd1_rejected_size1(unsigned char a) { czi_exceptions(); czi_startup(); Sb<1> s(CompressionMode::Zstd1, PixelType::Gray16, 2, 2); s.d[0] = a; REJECTS(s.CreateBitmap(nullptr), "data with an invalid zstd1-header is accepted"); czi_done(); }
extern "C" void W_D01_zstd1_rejected_size2(unsigned char a, unsigned char b) { czi_exceptions(); czi_startup(); ASSUME(a != 1); Sb<2> s(CompressionMode::Zstd1, PixelType::Gray16, 2, 2); s.d[0] = a; s.d[1] = b; REJECTS(s.CreateBitmap(nullptr), "data with an invalid zstd1-header is accepted"); czi_done(); }
extern "C" void W_D01_zstd1_rejected_size3(unsigned char a, unsigned char b, unsigned char c) { czi_exceptions(); czi_startup(); ASSUME(a != 1); Sb<3> s(CompressionMode::Zstd1, PixelType::Gray16, 2, 2); s.d[0] = a; s.d[1] = b; s.d[2] = c; REJECTS(s.CreateBitmap(nullptr), "data with an invalid zstd1-header is accepted"); czi_done(); }
// other compressions
extern "C" void W_D01_unknown_compression(In8 in, int raw) { czi_exceptions(); czi_startup(); ASSUME(raw != 0 && raw != 4 && raw != 5 && raw != 6); Sb<6> s(CompressionMode::UnCompressed, PixelType::Gray8, 3, 2); s.info.compressionModeRaw = raw; s.fill(in); REJECTS(s.CreateBitmap(nullptr), "a sub-block with an unknown compression gives a bitmap"); czi_done(); }
