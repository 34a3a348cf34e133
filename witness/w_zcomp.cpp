#include "w_pix.h"
#include "libCZI_compress.h"
#include "decoder_zstd.h"
#include "utilities.h"
#define protected public
#define private public
#include "utilities.h"
#undef protected
#undef private
using namespace libCZI::detail;
// ---- D02: compressing with zstd, and the arrangement of bytes it is prepared by
typedef const unsigned char* In8; typedef std::uint32_t u32;
namespace { struct Base : LoHiBytePackUnpack { using LoHiBytePackUnpack::LoHiBytePackStrided_C; using LoHiBytePackUnpack::LoHiByteUnpackStrided_C; }; }
struct Any { static void unpack(const void* s, u32 w, u32 st, u32 h, void* d) { LoHiBytePackUnpack::LoHiByteUnpackStrided(s, w, st, h, d); } static void pack(const void* s, size_t n, u32 w, u32 h, u32 st, void* d) { LoHiBytePackUnpack::LoHiBytePackStrided(s, n, w, h, st, d); } };
struct Plain { static void unpack(const void* s, u32 w, u32 st, u32 h, void* d) { Base::LoHiByteUnpackStrided_C(s, w, st, h, d); } static void pack(const void* s, size_t n, u32 w, u32 h, u32 st, void* d) { Base::LoHiBytePackStrided_C(s, n, w, h, st, d); } };
// source: H lines of W words in S bytes; the low bytes come first, then the high bytes
template <class F, u32 W, u32 H, u32 S> static inline void unpack(In8 in) {
    unsigned char s[S * H], d[2 * W * H + 2]; for (u32 i = 0; i < S * H; ++i) s[i] = in[i]; d[0] = in[S * H]; d[2 * W * H + 1] = in[S * H + 1];
    F::unpack(s, W, S, H, d + 1);
    for (u32 y = 0; y < H; ++y) for (u32 x = 0; x < W; ++x) { REQUIRE(d[1 + y * W + x] == in[y * S + 2 * x], "the low byte of a word does not arrive at its place"); REQUIRE(d[1 + W * H + y * W + x] == in[y * S + 2 * x + 1], "the high byte of a word does not arrive at its place"); }
    REQUIRE(d[0] == in[S * H] && d[2 * W * H + 1] == in[S * H + 1], "bytes outside of the destination are changed");
}
template <class F, u32 W, u32 H, u32 S> static inline void pack(In8 in) {
    unsigned char s[2 * W * H], d[S * H + 2]; for (u32 i = 0; i < 2 * W * H; ++i) s[i] = in[i]; In8 o = in + 2 * W * H; for (u32 i = 0; i < S * H + 2; ++i) d[i] = o[i];
    F::pack(s, 2 * W * H, W, H, S, d + 1);
    for (u32 y = 0; y < H; ++y) { for (u32 x = 0; x < W; ++x) { REQUIRE(d[1 + y * S + 2 * x] == in[y * W + x], "the low byte of a word does not arrive at its place"); REQUIRE(d[1 + y * S + 2 * x + 1] == in[W * H + y * W + x], "the high byte of a word does not arrive at its place"); } for (u32 x = 2 * W; x < S; ++x) REQUIRE(d[1 + y * S + x] == o[1 + y * S + x], "padding of the destination is changed"); }
    REQUIRE(d[0] == o[0] && d[S * H + 1] == o[S * H + 1], "bytes outside of the destination are changed");
}
#define LOHI(F, W, H, S) extern "C" void W_D02_unpack_##F##_##W##_##H##_##S(In8 in) { unpack<F, W, H, S>(in); czi_done(); } extern "C" void W_D02_pack_##F##_##W##_##H##_##S(In8 in) { pack<F, W, H, S>(in); czi_done(); }
#define LOHI3(F) LOHI(F, 1, 1, 2) LOHI(F, 3, 2, 6) LOHI(F, 3, 2, 8) LOHI(F, 2, 3, 5)
LOHI3(Any) LOHI3(Plain) LOHI(Plain, 17, 1, 34) LOHI(Any, 17, 1, 36)
extern "C" void W_D02_unpack_rejected(u32 w, u32 s, u32 h) { czi_exceptions(); ASSUME(w < 0x40000000 && s < w * 2); unsigned char a[4], b[4]; REJECTS(Any::unpack(a, w, s, h, b), "lines longer than the stride are accepted"); czi_done(); }
extern "C" void W_D02_pack_rejected(u32 w, u32 s, u32 h) { czi_exceptions(); ASSUME(w < 0x4000 && h < 0x4000 && h > 0 && s < w * 2); unsigned char a[4], b[4]; REJECTS(Any::pack(a, (size_t)w * h * 2, w, h, s, b), "lines longer than the stride are accepted"); czi_done(); }
extern "C" void W_D02_pack_rejected_size(u32 w, u32 s, u32 h, size_t n) { czi_exceptions(); ASSUME(w < 0x4000 && h < 0x4000 && s >= w * 2 && n < (size_t)w * h * 2); unsigned char a[4], b[4]; REJECTS(Any::pack(a, n, w, h, s, b), "less data than the destination needs is accepted"); czi_done(); }
// compression: zstd1 = header + zstd0 of the (possibly re-arranged) pixels without padding
struct Params : ICompressParameters { bool lohi; explicit Params(bool b) : lohi(b) {} bool TryGetProperty(int k, CompressParameter* p) const override { if (k != static_cast<int>(CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING)) return false; if (p) p->SetBoolean(lohi); return true; } };
template <PixelType P, u32 W, u32 H, u32 S, bool Z1, bool LH, int EXTRA> static inline void comp(In8 in, bool params) {
    const u32 B = Bpp<P>::v, N = W * H * B, HN = Z1 ? 3 : 0, M = HN + 1 + N + EXTRA; unsigned char s[S * H], d[M + 2]; for (u32 i = 0; i < S * H; ++i) s[i] = in[i]; In8 o = in + S * H; for (u32 i = 0; i < M + 2; ++i) d[i] = o[i];
    Params pr(LH); size_t n = M; bool ok = Z1 ? ZstdCompress::CompressZStd1(W, H, S, P, s, d + 1, n, params ? &pr : nullptr) : ZstdCompress::CompressZStd0(W, H, S, P, s, d + 1, n, params ? &pr : nullptr);
    REQUIRE(d[0] == o[0] && d[M + 1] == o[M + 1], "bytes outside of the destination are changed"); for (u32 i = 0; i < S * H; ++i) REQUIRE(s[i] == in[i], "the source is changed");
    if (EXTRA < 0) { REQUIRE(!ok, "success is reported although the destination is too small"); return; }
    REQUIRE(ok && n == HN + 1 + N, "compression fails or reports a wrong size"); const bool packed = LH && params && Z1 && (P == PixelType::Gray16 || P == PixelType::Bgr48);
    if (Z1) REQUIRE(d[1] == 3 && d[2] == 1 && d[3] == (packed ? 1 : 0), "the header does not describe the arrangement of the data");
    for (u32 i = 0; i < N; ++i) { u32 k = packed ? (i < N / 2 ? 2 * i : 2 * (i - N / 2) + 1) : i; u32 y = k / (W * B), x = k % (W * B); REQUIRE(d[1 + HN + 1 + i] == in[y * S + x], "the compressed content is not the pixels of the bitmap"); }
}
#define COMP(NAME, T, W, H, S, Z1, LH, EXTRA, PAR) extern "C" void W_D02_compress_##NAME##_##T(In8 in) { comp<PixelType::T, W, H, S, Z1, LH, EXTRA>(in, PAR); czi_done(); }
COMP(z0, Gray8, 3, 2, 3, false, false, 0, false) COMP(z0_strided, Gray8, 3, 2, 4, false, false, 1, false) COMP(z0, Gray16, 2, 2, 4, false, false, 0, false) COMP(z0_strided, Bgr24, 2, 2, 8, false, false, 0, false) COMP(z0_lohi, Gray16, 2, 2, 4, false, true, 0, true) COMP(z0_small, Gray8, 3, 2, 3, false, false, -1, false) COMP(z0_strided, Bgr48, 1, 2, 8, false, false, 0, false)
COMP(z1, Gray8, 3, 2, 3, true, false, 0, false) COMP(z1_strided, Gray8, 3, 2, 4, true, false, 1, false) COMP(z1_plain, Gray16, 2, 2, 4, true, false, 0, true) COMP(z1, Gray16, 2, 2, 4, true, true, 0, true) COMP(z1_strided, Gray16, 3, 2, 8, true, true, 0, true) COMP(z1, Bgr48, 1, 2, 6, true, true, 0, true) COMP(z1_strided, Bgr48, 1, 2, 8, true, true, 2, true) COMP(z1_lohi, Gray8, 3, 2, 3, true, true, 0, true) COMP(z1_lohi, Bgr24, 2, 2, 6, true, true, 0, true) COMP(z1_noparam, Gray16, 2, 2, 4, true, true, 0, false) COMP(z1_small, Gray16, 2, 2, 4, true, true, -1, true) COMP(z1_small_plain, Gray16, 2, 2, 4, true, false, -1, true)
COMP(z0, Gray32Float, 1, 2, 4, false, false, 0, false) COMP(z1, Gray32Float, 1, 2, 4, true, true, 0, true)
// compressed and decoded again: the same pixels
template <PixelType P, u32 W, u32 H, u32 S, bool Z1, bool LH> static inline void rt(In8 in, const char* arg) {
    const u32 B = Bpp<P>::v; unsigned char s[S * H]; for (u32 i = 0; i < S * H; ++i) s[i] = in[i]; Params pr(LH); auto m = Z1 ? ZstdCompress::CompressZStd1Alloc(W, H, S, P, s, &pr) : ZstdCompress::CompressZStd0Alloc(W, H, S, P, s, &pr);
    REQUIRE(m && m->GetSizeOfData() == (Z1 ? 4 : 1) + W * H * B, "compression reports a wrong size"); u32 w = W, h = H; PixelType p = P; std::shared_ptr<IBitmapData> b; if (Z1) { CZstd1Decoder d; b = d.Decode(m->GetPtr(), m->GetSizeOfData(), &p, &w, &h, arg); } else { CZstd0Decoder d; b = d.Decode(m->GetPtr(), m->GetSizeOfData(), &p, &w, &h, arg); }
    REQUIRE(b->GetPixelType() == P && b->GetWidth() == W && b->GetHeight() == H, "a decoded bitmap has another pixel type or size"); auto l = b->Lock(); for (u32 y = 0; y < H; ++y) for (u32 x = 0; x < W * B; ++x) REQUIRE(static_cast<In8>(l.ptrDataRoi)[y * l.stride + x] == in[y * S + x], "a pixel changes when it is compressed and decoded again"); b->Unlock();
}
#define RT(NAME, T, W, H, S, Z1, LH) extern "C" void W_D02_roundtrip_##NAME##_##T(In8 in) { rt<PixelType::T, W, H, S, Z1, LH>(in, nullptr); czi_done(); } extern "C" void W_D02_roundtrip_tolerant_##NAME##_##T(In8 in) { rt<PixelType::T, W, H, S, Z1, LH>(in, " x;handle_data_size_mismatch ; y"); czi_done(); }
RT(z0, Gray8, 3, 2, 4, false, false) RT(z0, Bgr24, 1, 2, 3, false, false) RT(z1, Gray8, 3, 2, 4, true, false) RT(z1, Gray16, 3, 2, 8, true, true) RT(z1, Bgr48, 1, 2, 8, true, true) RT(z1_wide, Bgr48, 2, 1, 14, true, true) RT(z1_plain, Bgr48, 1, 2, 8, true, false)
// an option is recognised only as a word of its own
#define TOKEN(NAME, TEXT) extern "C" void W_D02_option_##NAME(In8 in) { czi_exceptions(); CZstd0Decoder d; unsigned char s[6] = {0, in[1], in[2], in[3], in[4], in[5]}; u32 w = 3, h = 2; PixelType p = PixelType::Gray8; REJECTS(d.Decode(s, 6, &p, &w, &h, TEXT), "a decoder's option is recognised in a text that does not contain it"); czi_done(); }
TOKEN(prefix, "xhandle_data_size_mismatch") TOKEN(suffix, "handle_data_size_mismatchx") TOKEN(other, "handle_data;size_mismatch") TOKEN(part, "handle_data_size_mismatc")
// arguments
#define BADARG(NAME, CALL) extern "C" void W_D02_rejected_##NAME(u32 v) { czi_exceptions(); unsigned char s[16], d[32]; size_t n = 32; REJECTS(CALL, "invalid arguments of the compression are accepted"); (void)n; czi_done(); }
#define BADARGS(Z) BADARG(width_##Z, ZstdCompress::Compress##Z(0, v, 4, PixelType::Gray8, s, d, n, nullptr)) BADARG(height_##Z, ZstdCompress::Compress##Z(v, 0, 4, PixelType::Gray8, s, d, n, nullptr)) BADARG(source_##Z, ZstdCompress::Compress##Z(2, 2, 4, PixelType::Gray8, nullptr, d, n, nullptr)) BADARG(destination_##Z, ZstdCompress::Compress##Z(2, 2, 4, PixelType::Gray8, s, nullptr, n, nullptr)) \
    extern "C" void W_D02_rejected_stride_##Z(u32 w, u32 st) { czi_exceptions(); ASSUME(w > 0 && w < 0x10000 && st < w * 3); unsigned char s[16], d[32]; size_t n = 32; REJECTS(ZstdCompress::Compress##Z(w, 2, st, PixelType::Bgr24, s, d, n, nullptr), "a stride shorter than a line is accepted"); czi_done(); }
BADARGS(ZStd0) BADARGS(ZStd1)
extern "C" void W_D02_rejected_size_ZStd1(size_t n) { czi_exceptions(); ASSUME(n < 4); unsigned char s[16], d[32]; REJECTS(ZstdCompress::CompressZStd1(2, 2, 2, PixelType::Gray8, s, d, n, nullptr), "a destination without room for the header is accepted"); czi_done(); }
extern "C" void W_D02_rejected_size_ZStd0(size_t n) { czi_exceptions(); ASSUME(n < 1); unsigned char s[16], d[32]; REJECTS(ZstdCompress::CompressZStd0(2, 2, 2, PixelType::Gray8, s, d, n, nullptr), "a destination without any room is accepted"); czi_done(); }
