#include "w_pix.h"
// ---- P01: composition changes exactly the covered pixels
// value of a destination pixel for a source pixel
template <PixelType S, PixelType D> static inline void conv(const unsigned char* s, unsigned char* d) {
    if (S == D) { for (unsigned i = 0; i < Bpp<S>::v; ++i) d[i] = s[i]; return; }
    std::uint16_t c[3]; bool wide = S == PixelType::Gray16 || S == PixelType::Bgr48; bool color = S == PixelType::Bgr24 || S == PixelType::Bgr48;
    for (int k = 0; k < 3; ++k) { int o = color ? k : 0; c[k] = wide ? std::uint16_t(s[2 * o] | (s[2 * o + 1] << 8)) : s[o]; }
    if (D == PixelType::Bgr24) for (int k = 0; k < 3; ++k) d[k] = wide ? c[k] >> 8 : c[k];
    if (D == PixelType::Bgr48) for (int k = 0; k < 3; ++k) { d[2 * k] = c[k] & 0xff; d[2 * k + 1] = c[k] >> 8; }
    if (D == PixelType::Gray8) d[0] = !color ? (wide ? c[0] >> 8 : c[0]) : (wide ? ((int(c[0]) + c[1] + c[2]) / 3) >> 8 : (int(c[0]) + c[1] + c[2] + 1) / 3);
    if (D == PixelType::Gray16) { int v = !color ? c[0] : (int(c[0]) + c[1] + c[2] + (wide ? 0 : 1)) / 3; d[0] = v & 0xff; d[1] = v >> 8; }
    if (D == PixelType::Gray32Float) { float f = !color ? (float)c[0] : float(int(c[0]) + int(c[1]) + int(c[2])) / 3; std::memcpy(d, &f, 4); }
}
// a 2x2 tile at (dx,dy) relative to a 3x3 destination; xp, yp: position of the destination
template <PixelType S, PixelType D> static inline void one(const unsigned char* in, int dx, int dy, int xp, int yp, unsigned mask = 0xf, bool masked = false, int mw = 2, int mh = 2, bool copyAt = false) {
    auto src = std::make_shared<Bm<S, 2, 2, 2 * Bpp<S>::v + 1>>(); Bm<D, 3, 3, 3 * Bpp<D>::v + 2> dst, old;
    for (unsigned y = 0; y < 2; ++y) for (unsigned x = 0; x < 2; ++x) for (unsigned i = 0; i < Bpp<S>::v; ++i) *src->at(x, y, i) = in[(y * 2 + x) * Bpp<S>::v + i];
    dst.fill(in + 64); old.fill(in + 64);
    if (copyAt) { Mask m(2, 2, mask); BitonalBitmapOperations::CopyAt(src.get(), masked ? &m : nullptr, IntPoint{dx, dy}, &dst); }
    else if (!masked) Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<IBitmapData>& b, int& x, int& y)->bool { if (i > 0) return false; b = src; x = dx + xp; y = dy + yp; return true; }, &dst, xp, yp, nullptr);
    else { auto m = std::make_shared<Mask>(mw, mh, mask); Compositors::ComposeSingleChannelTilesMaskAware([&](int i, std::shared_ptr<IBitmapData>& b, std::shared_ptr<IBitonalBitmapData>& k, int& x, int& y)->bool { if (i > 0) return false; b = src; k = m; x = dx + xp; y = dy + yp; return true; }, &dst, xp, yp, nullptr); }
    for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) {
        int sx = x - dx, sy = y - dy; bool cov = sx >= 0 && sx < 2 && sy >= 0 && sy < 2 && (!masked || (sx < mw && sy < mh && (mask & (8 >> (sy * 2 + sx)))));
        unsigned char e[8]; if (cov) conv<S, D>(src->at(sx, sy, 0), e);
        for (unsigned i = 0; i < Bpp<D>::v; ++i) { if (cov) REQUIRE(*dst.at(x, y, i) == e[i], "a covered pixel of the destination does not get the value of the tile"); else REQUIRE(*dst.at(x, y, i) == *old.at(x, y, i), "a pixel that is not covered is changed"); }
    }
    REQUIRE(dst.sameOutside(old), "bytes outside of the pixels of the destination are changed"); REQUIRE(dst.locks == 0 && src->locks == 0, "a bitmap stays locked");
}
typedef const unsigned char* In8;
#define ROW(N, DY) extern "C" void W_P01_row_##N(In8 in, int xp, int yp) { for (int dx = -3; dx <= 4; ++dx) one<PixelType::Gray8, PixelType::Gray8>(in, dx, DY, xp, yp); czi_done(); }
ROW(m3, -3) ROW(m2, -2) ROW(m1, -1) ROW(0, 0) ROW(1, 1) ROW(2, 2) ROW(3, 3) ROW(4, 4)
#define CONV(S, D) extern "C" void W_P01_conv_##S##_##D(In8 in) { one<PixelType::S, PixelType::D>(in, 0, 0, 0, 0); czi_done(); } \
    extern "C" void W_P01_clip_##S##_##D(In8 in) { one<PixelType::S, PixelType::D>(in, -1, 2, 0, 0); czi_done(); } \
    extern "C" void W_P01_mask_##S##_##D(In8 in) { one<PixelType::S, PixelType::D>(in, 0, 0, 0, 0, 6, true); czi_done(); } \
    extern "C" void W_P01_maskclip_##S##_##D(In8 in) { one<PixelType::S, PixelType::D>(in, 2, -1, 0, 0, 2, true); czi_done(); }
#define TO_ALL(S) CONV(S, Gray8) CONV(S, Gray16) CONV(S, Gray32Float) CONV(S, Bgr24) CONV(S, Bgr48)
TO_ALL(Gray8) TO_ALL(Gray16) TO_ALL(Bgr24) TO_ALL(Bgr48) CONV(Gray32Float, Gray32Float)
#define MASKS(N, DX, DY, M) extern "C" void W_P01_mask_##N##_##M(In8 in, int xp, int yp) { one<PixelType::Gray8, PixelType::Gray8>(in, DX, DY, xp, yp, M, true); czi_done(); }
#define MASKS5(N, DX, DY) MASKS(N, DX, DY, 0) MASKS(N, DX, DY, 1) MASKS(N, DX, DY, 2) MASKS(N, DX, DY, 4) MASKS(N, DX, DY, 8) MASKS(N, DX, DY, 15)
MASKS5(mid, 1, 0) MASKS5(left, -1, 1) MASKS5(top, 0, -1) MASKS5(corner, 2, 2)
extern "C" void W_P01_small_mask(In8 in) { one<PixelType::Gray8, PixelType::Gray8>(in, 0, 0, 0, 0, 15, true, 1, 2); one<PixelType::Gray8, PixelType::Gray8>(in, 0, 0, 0, 0, 15, true, 2, 1); one<PixelType::Gray8, PixelType::Gray8>(in, -1, -1, 0, 0, 15, true, 1, 1); czi_done(); }
extern "C" void W_P01_big_mask(In8 in) { one<PixelType::Gray8, PixelType::Gray8>(in, 0, 0, 0, 0, 0x3f, true, 3, 2); one<PixelType::Gray8, PixelType::Gray8>(in, 1, 1, 0, 0, 0x3f, true, 2, 3); czi_done(); }
extern "C" void W_P01_copyat(In8 in) { one<PixelType::Gray8, PixelType::Gray8>(in, 0, 1, 0, 0, 5, true, 2, 2, true); one<PixelType::Gray8, PixelType::Gray8>(in, -1, 2, 0, 0, 0, false, 2, 2, true); one<PixelType::Bgr24, PixelType::Bgr24>(in, 2, -1, 0, 0, 10, true, 2, 2, true); czi_done(); }
// far away, for all positions
extern "C" void W_P01_outside_left(In8 in, int d) { ASSUME(d < -3 && d > -0x10000000); one<PixelType::Gray8, PixelType::Gray8>(in, d, 0, 0, 0); czi_done(); }
extern "C" void W_P01_outside_right(In8 in, int d) { ASSUME(d > 3 && d < 0x10000000); one<PixelType::Gray8, PixelType::Gray8>(in, d, 0, 0, 0); czi_done(); }
extern "C" void W_P01_outside_top(In8 in, int d) { ASSUME(d < -3 && d > -0x10000000); one<PixelType::Gray8, PixelType::Gray8>(in, 0, d, 0, 0); czi_done(); }
extern "C" void W_P01_outside_bottom(In8 in, int d) { ASSUME(d > 3 && d < 0x10000000); one<PixelType::Gray8, PixelType::Gray8>(in, 1, d, 0, 0); czi_done(); }
// several tiles: the later one is on top; all are drawn
extern "C" void W_P01_order(In8 in) {
    auto a = std::make_shared<Bm<PixelType::Gray8, 2, 1, 2>>(), b = std::make_shared<Bm<PixelType::Gray8, 2, 1, 2>>(); Bm<PixelType::Gray8, 4, 1, 4> dst; dst.fill(in); a->fill(in + 16); b->fill(in + 32); unsigned char last = *dst.at(3, 0, 0);
    Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<IBitmapData>& t, int& x, int& y)->bool { if (i > 1) return false; if (i == 0) t = a; else t = b; x = i; y = 0; return true; }, &dst, 0, 0, nullptr);
    REQUIRE(*dst.at(0, 0, 0) == *a->at(0, 0, 0), "the first tile is missing"); REQUIRE(*dst.at(1, 0, 0) == *b->at(0, 0, 0) && *dst.at(2, 0, 0) == *b->at(1, 0, 0), "a later tile is not on top of an earlier one"); REQUIRE(*dst.at(3, 0, 0) == last, "a pixel that is not covered is changed"); czi_done();
}
// tile border: one pixel wide frame of zeroes, the inner pixels are those of the tile
template <unsigned W, unsigned H> static inline void border(In8 in, bool masked) {
    auto src = std::make_shared<Bm<PixelType::Gray16, W, H, 2 * W>>(); Bm<PixelType::Gray16, W + 1, H + 1, 2 * W + 4> dst, old; src->fill(in); dst.fill(in + 64); old.fill(in + 64); Compositors::ComposeSingleTileOptions o; o.Clear(); o.drawTileBorder = true;
    if (!masked) Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<IBitmapData>& t, int& x, int& y)->bool { if (i > 0) return false; t = src; x = y = 0; return true; }, &dst, 0, 0, &o);
    else { auto m = std::make_shared<Mask>(W, H, ~0u); Compositors::ComposeSingleChannelTilesMaskAware([&](int i, std::shared_ptr<IBitmapData>& t, std::shared_ptr<IBitonalBitmapData>& k, int& x, int& y)->bool { if (i > 0) return false; t = src; k = m; x = y = 0; return true; }, &dst, 0, 0, &o); }
    for (unsigned y = 0; y <= H; ++y) for (unsigned x = 0; x <= W; ++x) for (unsigned i = 0; i < 2; ++i) {
        if (x >= W || y >= H) REQUIRE(*dst.at(x, y, i) == *old.at(x, y, i), "a pixel that is not covered is changed (tile with border)");
        else if (x == 0 || y == 0 || x == W - 1 || y == H - 1) REQUIRE(*dst.at(x, y, i) == 0, "the border of a tile is not drawn"); else REQUIRE(*dst.at(x, y, i) == *src->at(x, y, i), "a pixel inside the border of a tile does not get the value of the tile");
    }
    REQUIRE(dst.sameOutside(old), "bytes outside of the pixels of the destination are changed (tile with border)");
}
extern "C" void W_P01_border_4x3(In8 in) { border<4, 3>(in, false); czi_done(); }
extern "C" void W_P01_border_1x3(In8 in) { border<1, 3>(in, false); czi_done(); }
extern "C" void W_P01_border_2x2(In8 in) { border<2, 2>(in, false); czi_done(); }
extern "C" void W_P01_border_mask(In8 in) { border<4, 3>(in, true); czi_done(); }
extern "C" void W_P01_border_mask_1x3(In8 in) { border<1, 3>(in, true); czi_done(); }
// combinations which are not supported are rejected and leave nothing locked
template <PixelType S, PixelType D> static inline void unsupported(In8 in) {
    czi_exceptions(); auto src = std::make_shared<Bm<S, 1, 1, 8>>(); Bm<D, 1, 1, 8> dst, old; src->fill(in); dst.fill(in + 64); old.fill(in + 64);
    REJECTS(Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<IBitmapData>& t, int& x, int& y)->bool { if (i > 0) return false; t = src; x = y = 0; return true; }, &dst, 0, 0, nullptr), "an unsupported combination of pixel types is accepted");
    REQUIRE(dst.locks == 0 && src->locks == 0, "a bitmap stays locked after an error");
}
extern "C" void W_P01_reject_float(In8 in) { unsupported<PixelType::Gray32Float, PixelType::Gray8>(in); }
extern "C" void W_P01_reject_alpha(In8 in) { unsupported<PixelType::Gray8, PixelType::Bgra32>(in); }
// fill
template <PixelType P> static inline void fillBm(In8 in, float r, float g, float b, const unsigned char* e) {
    Bm<P, 2, 3, 2 * Bpp<P>::v + 3> dst, old; dst.fill(in); old.fill(in); libCZI::Utils::FillBitmap(&dst, RgbFloatColor{r, g, b});
    for (unsigned y = 0; y < 3; ++y) for (unsigned x = 0; x < 2; ++x) for (unsigned i = 0; i < Bpp<P>::v; ++i) REQUIRE(*dst.at(x, y, i) == e[i], "a bitmap is not filled with the requested colour");
    REQUIRE(dst.sameOutside(old), "bytes outside of the pixels are changed when a bitmap is filled"); REQUIRE(dst.locks == 0, "a bitmap stays locked");
}
extern "C" void W_P01_fill_Gray8(In8 in) { const unsigned char e[] = {255}; fillBm<PixelType::Gray8>(in, 1, 1, 1, e); const unsigned char z[] = {0}; fillBm<PixelType::Gray8>(in, 0, 0, 0, z); czi_done(); }
extern "C" void W_P01_fill_Gray16(In8 in) { const unsigned char e[] = {255, 255}; fillBm<PixelType::Gray16>(in, 1, 1, 1, e); czi_done(); }
extern "C" void W_P01_fill_Bgr24(In8 in) { const unsigned char e[] = {0, 255, 255}; fillBm<PixelType::Bgr24>(in, 1, 1, 0, e); const unsigned char z[] = {255, 0, 0}; fillBm<PixelType::Bgr24>(in, 0, 0, 1, z); czi_done(); }
extern "C" void W_P01_fill_Bgra32(In8 in) { const unsigned char e[] = {0, 0, 255, 255}; fillBm<PixelType::Bgra32>(in, 1, 0, 0, e); czi_done(); }
extern "C" void W_P01_fill_Bgr48(In8 in) { const unsigned char e[] = {255, 255, 0, 0, 255, 255}; fillBm<PixelType::Bgr48>(in, 1, 0, 1, e); czi_done(); }
extern "C" void W_P01_fill_float(In8 in) { const unsigned char e[] = {0, 0, 0x80, 0x3f}; fillBm<PixelType::Gray32Float>(in, 1, 1, 1, e); czi_done(); }
