// bitmaps of the witnesses: pixels with known position, padding and guard bytes
#pragma once
#include "w_flow.h"
template <PixelType P> struct Bpp { static const unsigned v = P == PixelType::Gray8 ? 1 : P == PixelType::Gray16 ? 2 : P == PixelType::Bgr24 ? 3 : P == PixelType::Bgr48 ? 6 : 4; };
template <PixelType P, unsigned W, unsigned H, unsigned S> struct Bm : IBitmapData {
    unsigned char g0[4]; unsigned char b[S * H]; unsigned char g1[4]; int locks = 0;
    PixelType GetPixelType() const override { return P; }
    IntSize GetSize() const override { return IntSize{W, H}; }
    BitmapLockInfo Lock() override { ++locks; BitmapLockInfo i; i.ptrData = nullptr; i.ptrDataRoi = b; i.stride = S; i.size = S * H; return i; }
    void Unlock() override { --locks; }
    int GetLockCount() const override { return locks; }
    unsigned char* at(unsigned x, unsigned y, unsigned i) { return b + y * S + x * Bpp<P>::v + i; }
    void fill(const unsigned char* in) { for (unsigned i = 0; i < 4; ++i) { g0[i] = in[i]; g1[i] = in[4 + i]; } for (unsigned y = 0; y < H; ++y) for (unsigned x = 0; x < S; ++x) b[y * S + x] = in[8 + y * S + x]; }
    bool sameOutside(Bm& o) { for (unsigned i = 0; i < 4; ++i) if (g0[i] != o.g0[i] || g1[i] != o.g1[i]) return false; for (unsigned y = 0; y < H; ++y) for (unsigned x = W * Bpp<P>::v; x < S; ++x) if (b[y * S + x] != o.b[y * S + x]) return false; return true; }
};
struct Mask : IBitonalBitmapData {   // bits: up to 32 pixels, row by row, the first one in the highest of the w*h bits
    unsigned char b[16]; unsigned w, h; int locks = 0;
    Mask(unsigned w, unsigned h, unsigned bits) : w(w), h(h) { for (unsigned y = 0; y < h; ++y) { unsigned char v = 0; for (unsigned x = 0; x < w; ++x) if (bits & (1u << (w * h - 1 - (y * w + x)))) v |= 0x80 >> x; b[y * 2] = v; b[y * 2 + 1] = 0xff; } }
    IntSize GetSize() const override { return IntSize{w, h}; }
    BitonalBitmapLockInfo Lock() override { ++locks; BitonalBitmapLockInfo i; i.ptrData = b; i.stride = 2; i.size = 16; return i; }
    void Unlock() override { --locks; }
    int GetLockCount() const override { return locks; }
};
