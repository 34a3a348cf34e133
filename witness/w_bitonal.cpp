#include "w_pix.h"
// ---- P02: bitonal bitmaps
template <unsigned W, unsigned H, unsigned S> struct BitBm : IBitonalBitmapData {
    unsigned char g0[4]; unsigned char b[S * H]; unsigned char g1[4]; int locks = 0;
    IntSize GetSize() const override { return IntSize{W, H}; }
    BitonalBitmapLockInfo Lock() override { ++locks; BitonalBitmapLockInfo i; i.ptrData = b; i.stride = S; i.size = S * (H - 1) + (W + 7) / 8; return i; }
    void Unlock() override { --locks; }
    int GetLockCount() const override { return locks; }
    void fill(const unsigned char* in) { for (unsigned i = 0; i < 4; ++i) { g0[i] = in[i]; g1[i] = in[4 + i]; } for (unsigned y = 0; y < H; ++y) for (unsigned x = 0; x < S; ++x) b[y * S + x] = in[8 + y * S + x]; }
    bool get(int x, int y) const { return (b[y * S + x / 8] & (0x80 >> (x % 8))) != 0; }
    // the bits of a rectangle became v, all others are those of o (bits behind the last pixel of a row within its last byte are free)
    void isFilled(const BitBm& o, int rx, int ry, int rw, int rh, bool v, const char*) const {
        for (int y = 0; y < (int)H; ++y) for (int k = 0; k < (int)S; ++k) {
            unsigned in = 0, free = 0; for (int j = 0; j < 8; ++j) { int x = 8 * k + j; if (x >= (int)W && k == ((int)W - 1) / 8) free |= 0x80 >> j; else if (x < (int)W && x >= rx && x < rx + rw && y >= ry && y < ry + rh) in |= 0x80 >> j; }
            unsigned char e = v ? (o.b[y * S + k] | in) : (o.b[y * S + k] & ~in); REQUIRE(((b[y * S + k] ^ e) & ~free & 0xff) == 0, "a region of a bitonal bitmap does not become exactly the requested value");
        }
        for (unsigned i = 0; i < 4; ++i) REQUIRE(g0[i] == o.g0[i] && g1[i] == o.g1[i], "bytes outside of a bitonal bitmap are changed");
        REQUIRE(locks == 0, "a bitonal bitmap stays locked");
    }
};
typedef const unsigned char* In8; typedef BitonalBitmapOperations Op;
#define PIX(X, Y) extern "C" void W_P02_pixel_##X##_##Y(In8 in) { BitBm<19, 2, 4> m, o; m.fill(in); o.fill(in); Op::SetPixelValue(&m, X, Y, true); m.isFilled(o, X, Y, 1, 1, true, ""); m.fill(in); Op::SetPixelValue(&m, X, Y, false); m.isFilled(o, X, Y, 1, 1, false, ""); \
    m.fill(in); auto li = m.Lock(); bool v = Op::GetPixelValue(&m, li, X, Y); m.Unlock(); REQUIRE(v == o.get(X, Y), "a pixel of a bitonal bitmap is read wrongly"); czi_done(); }
PIX(0, 0) PIX(1, 0) PIX(7, 0) PIX(8, 1) PIX(15, 1) PIX(16, 0) PIX(18, 1)
extern "C" void W_P02_outside_x(In8 in, unsigned x) { ASSUME(x >= 19); czi_exceptions(); BitBm<19, 2, 4> m; m.fill(in); REJECTS(Op::SetPixelValue(&m, x, 0, true), "a pixel outside of the bitmap is written"); auto li = m.Lock(); REJECTS((void)Op::GetPixelValue(&m, li, x, 1), "a pixel outside of the bitmap is read"); REQUIRE(m.locks == 1, "a bitonal bitmap stays locked after an error"); }
extern "C" void W_P02_outside_y(In8 in, unsigned y) { ASSUME(y >= 2); czi_exceptions(); BitBm<19, 2, 4> m; m.fill(in); REJECTS(Op::SetPixelValue(&m, 0, y, true), "a pixel outside of the bitmap is written"); auto li = m.Lock(); REJECTS((void)Op::GetPixelValue(&m, li, 18, y), "a pixel outside of the bitmap is read"); }
#define FILL(N, X, Y, W, H) extern "C" void W_P02_fill_##N(In8 in) { BitBm<21, 3, 4> m, o; m.fill(in); o.fill(in); Op::Fill(&m, IntRect{X, Y, W, H}, true); m.isFilled(o, X, Y, W, H, true, ""); m.fill(in); Op::Fill(&m, IntRect{X, Y, W, H}, false); m.isFilled(o, X, Y, W, H, false, ""); czi_done(); }
FILL(all, 0, 0, 21, 3) FILL(inner, 1, 1, 3, 1) FILL(one, 7, 0, 1, 1) FILL(first_byte, 0, 0, 8, 2) FILL(second_byte, 8, 1, 8, 2) FILL(cross, 6, 0, 4, 3) FILL(cross3, 3, 1, 16, 1) FILL(to_byte_end, 3, 0, 5, 1) FILL(to_end, 13, 0, 8, 3) FILL(beyond, 18, 1, 50, 50) FILL(before, -3, -2, 5, 4) FILL(around, -9, -9, 90, 90)
FILL(left, -30, 0, 10, 3) FILL(above, 2, -30, 10, 10) FILL(right, 21, 0, 5, 3) FILL(below, 0, 3, 5, 2) FILL(none, 5, 1, 0, 1) FILL(bulk_only, 8, 0, 8, 1) FILL(wide_left, 5, 2, 11, 1) FILL(wide_right, 8, 2, 11, 1) FILL(seven, 1, 0, 7, 2) FILL(nine, 7, 0, 9, 2) FILL(two, 15, 0, 2, 1)
extern "C" void W_P02_fill_off_x(In8 in, int x) { ASSUME(x < -5 && x > -0x10000000); BitBm<21, 3, 4> m, o; m.fill(in); o.fill(in); Op::Fill(&m, IntRect{x, 0, 5, 3}, true); m.isFilled(o, 0, 0, 0, 0, true, ""); czi_done(); }
extern "C" void W_P02_fill_off_y(In8 in, int y) { ASSUME(y > 3 && y < 0x10000000); BitBm<21, 3, 4> m, o; m.fill(in); o.fill(in); Op::Fill(&m, IntRect{0, y, 5, 3}, true); m.isFilled(o, 0, 0, 0, 0, true, ""); czi_done(); }
extern "C" void W_P02_set_all(In8 in) { BitBm<21, 3, 4> m, o; m.fill(in); o.fill(in); Op::SetAllPixels(&m, true); m.isFilled(o, 0, 0, 21, 3, true, ""); Op::SetAllPixels(&m, false); m.isFilled(o, 0, 0, 21, 3, false, ""); czi_done(); }
// information about a locked bitmap that cannot be right is rejected
extern "C" void W_P02_reject_info(In8 in, unsigned stride, unsigned long size) { czi_exceptions(); BitBm<19, 2, 4> m; m.fill(in); auto li = m.Lock(); IntSize e{19, 2}; auto bad = li;
    bad.ptrData = nullptr; REJECTS(Op::SetAllPixels(bad, e, true), "a null pointer is accepted as bitmap"); bad = li; bad.stride = 2; REJECTS(Op::SetAllPixels(bad, e, true), "a stride that is too small is accepted"); bad = li; bad.size = 6; REJECTS(Op::SetAllPixels(bad, e, true), "a size that is too small is accepted"); REJECTS(Op::SetAllPixels(li, IntSize{0, 2}, true), "an empty bitmap is accepted"); }
extern "C" void W_P02_reject_stride(In8 in, unsigned s) { ASSUME(s < 3); czi_exceptions(); BitBm<19, 2, 4> m; m.fill(in); auto li = m.Lock(); li.stride = s; REJECTS(Op::Fill(li, IntSize{19, 2}, IntRect{0, 0, 1, 1}, true), "a stride that is too small is accepted"); }
extern "C" void W_P02_reject_size(In8 in, unsigned long z) { ASSUME(z < 7); czi_exceptions(); BitBm<19, 2, 4> m; m.fill(in); auto li = m.Lock(); li.size = z; REJECTS(Op::Fill(li, IntSize{19, 2}, IntRect{0, 0, 1, 1}, true), "a size that is too small is accepted"); }
// decimation: a pixel is set if all pixels of the neighbourhood of twice its position are set (pixels outside of the bitmap do not count)
template <unsigned W, unsigned H, int R> static inline void decim(int zx, int zy) {
    BitBm<W, H, (W + 7) / 8> m; for (unsigned i = 0; i < (W + 7) / 8 * H; ++i) m.b[i] = 0xff; for (int i = 0; i < 4; ++i) m.g0[i] = m.g1[i] = 0; if (zx >= 0) m.b[zy * ((W + 7) / 8) + zx / 8] &= ~(0x80 >> (zx % 8));
    if (W % 8) for (unsigned y = 0; y < H; ++y) m.b[y * ((W + 7) / 8) + W / 8] &= 0xff << (8 - W % 8);   // what is behind the last pixel is irrelevant
    auto d = Op::Decimate(R, &m); REQUIRE(d->GetWidth() == W / 2 && d->GetHeight() == H / 2, "a decimated bitmap does not have half the size"); auto li = d->Lock();
    for (int y = 0; y < (int)H / 2; ++y) for (int k = 0; k < (int)(W / 2 + 7) / 8; ++k) { unsigned e = 0, use = 0; for (int j = 0; j < 8; ++j) { int x = 8 * k + j; if (x >= (int)W / 2) continue; use |= 0x80 >> j; bool hit = zx >= 2 * x - R && zx <= 2 * x + R && zy >= 2 * y - R && zy <= 2 * y + R && zx >= 0; if (!hit) e |= 0x80 >> j; }
        REQUIRE((static_cast<const unsigned char*>(li.ptrData)[y * li.stride + k] & use) == e, "a pixel of a decimated bitmap is not set exactly if its neighbourhood is"); }
    d->Unlock();
}
#define DEC(R) extern "C" void W_P02_decimate_all_##R() { decim<21, 4, R>(-1, -1); czi_done(); } extern "C" void W_P02_decimate_mid_##R() { decim<40, 5, R>(20, 2); czi_done(); } extern "C" void W_P02_decimate_first_##R() { decim<17, 4, R>(0, 0); czi_done(); } extern "C" void W_P02_decimate_edge_##R() { decim<40, 5, R>(32, 3); czi_done(); } \
    extern "C" void W_P02_decimate_edge1_##R() { decim<38, 5, R>(31, 1); czi_done(); } extern "C" void W_P02_decimate_last_##R() { decim<32, 4, R>(31, 3); czi_done(); } extern "C" void W_P02_decimate_after_##R() { decim<36, 4, R>(33, 1); czi_done(); }
DEC(0) DEC(1) DEC(2) DEC(3) DEC(4) DEC(5) DEC(6) DEC(7)
#define DECBITS(NAME, A, B, C, D) extern "C" void W_P02_decimate_bits_##NAME() { static const unsigned char in[] = {1, 2, 3, 4, 5, 6, 7, 8, A, B, C, D, D, C, B, A}; BitBm<16, 4, 2> m; m.fill(in); auto d = Op::Decimate(0, &m); auto li = d->Lock(); for (int y = 0; y < 2; ++y) for (int x = 0; x < 8; ++x) { bool v = (static_cast<const unsigned char*>(li.ptrData)[y * li.stride] & (0x80 >> x)) != 0; REQUIRE(v == m.get(2 * x, 2 * y), "decimation without neighbourhood does not take every second pixel"); } d->Unlock(); czi_done(); }
DECBITS(0, 0xa5, 0x3c, 0x81, 0x7e) DECBITS(1, 0x01, 0x80, 0xff, 0x00) DECBITS(2, 0x55, 0xaa, 0xc3, 0x18) DECBITS(3, 0x93, 0x6d, 0x0f, 0xf1)
#define DECTAB(N) extern "C" void W_P02_decimate_bytes_##N() { unsigned char in[24]; for (int i = 0; i < 24; ++i) in[i] = static_cast<unsigned char>(8 * N + i % 4 + (i - 4) / 8 * 4); BitBm<32, 4, 4> m; m.fill(in); auto d = Op::Decimate(0, &m); auto li = d->Lock(); for (int y = 0; y < 2; ++y) for (int x = 0; x < 16; ++x) { bool v = (static_cast<const unsigned char*>(li.ptrData)[y * li.stride + x / 8] & (0x80 >> x % 8)) != 0; REQUIRE(v == m.get(2 * x, 2 * y), "decimation without neighbourhood does not take every second pixel"); } d->Unlock(); czi_done(); }
DECTAB(0) DECTAB(1) DECTAB(2) DECTAB(3) DECTAB(4) DECTAB(5) DECTAB(6) DECTAB(7) DECTAB(8) DECTAB(9) DECTAB(10) DECTAB(11) DECTAB(12) DECTAB(13) DECTAB(14) DECTAB(15) DECTAB(16) DECTAB(17) DECTAB(18) DECTAB(19) DECTAB(20) DECTAB(21) DECTAB(22) DECTAB(23) DECTAB(24) DECTAB(25) DECTAB(26) DECTAB(27) DECTAB(28) DECTAB(29) DECTAB(30) DECTAB(31)
extern "C" void W_P02_decimate_reject(In8 in, int r) { ASSUME(r < 0 || r > 7); czi_exceptions(); BitBm<16, 4, 2> m; m.fill(in); REJECTS((void)Op::Decimate(r, &m), "an invalid size of the neighbourhood is accepted"); REQUIRE(m.locks == 0, "a bitonal bitmap stays locked after an error"); }
