#include "w_pix.h"
#define private public
#define protected public
#include "subblock_cache.h"
#undef private
#undef protected
using namespace libCZI::detail;
// ---- K01: the cache of decoded sub-blocks
typedef std::uint64_t u64; typedef std::uint32_t u32;
template <class T> static inline std::shared_ptr<T> alias(T* p) { return std::shared_ptr<T>(std::shared_ptr<void>(), p); }
struct SizedBm : IBitmapData { u32 w, h; PixelType p; SizedBm(u32 w, u32 h, PixelType p) : w(w), h(h), p(p) {} PixelType GetPixelType() const override { return p; } IntSize GetSize() const override { return IntSize{w, h}; } BitmapLockInfo Lock() override { return BitmapLockInfo(); } void Unlock() override {} int GetLockCount() const override { return 0; } };
struct SizedMask : IBitonalBitmapData { u32 w, h; SizedMask(u32 w, u32 h) : w(w), h(h) {} IntSize GetSize() const override { return IntSize{w, h}; } BitonalBitmapLockInfo Lock() override { return BitonalBitmapLockInfo(); } void Unlock() override {} int GetLockCount() const override { return 0; } };
typedef ISubBlockCacheOperation::CacheItem Item; typedef ISubBlockCacheStatistics St;
static inline Item item(SizedBm& b) { return Item(alias<IBitmapData>(&b)); }
static inline Item item(SizedBm& b, SizedMask& m) { return Item(alias<IBitmapData>(&b), alias<IBitonalBitmapData>(&m)); }
static inline void state(ISubBlockCache& c, u64 bytes, u32 count) {
    auto s = c.GetStatistics(St::kMemoryUsage | St::kElementsCount); REQUIRE(s.validityMask == (St::kMemoryUsage | St::kElementsCount), "the statistics of a cache are not marked as valid"); REQUIRE(s.memoryUsage == bytes, "a cache does not report the memory its bitmaps and masks occupy"); REQUIRE(s.elementsCount == count, "a cache does not report the number of its elements");
    auto m = c.GetStatistics(St::kMemoryUsage); REQUIRE(m.validityMask == St::kMemoryUsage && m.memoryUsage == bytes, "a cache does not report the memory its bitmaps and masks occupy"); auto e = c.GetStatistics(St::kElementsCount); REQUIRE(e.validityMask == St::kElementsCount && e.elementsCount == count, "a cache does not report the number of its elements");
}
static inline void has(ISubBlockCache& c, int k, SizedBm& b, SizedMask* m = nullptr) { auto i = c.Get(k); REQUIRE(i.IsValid() && i.bitmap.get() == &b, "a cache does not return the bitmap that was added last"); REQUIRE(i.mask.get() == m, "a cache does not return the mask that was added last"); }
static inline void hasNot(ISubBlockCache& c, int k) { auto i = c.Get(k); REQUIRE(!i.IsValid() && !i.mask, "a cache returns something for a sub-block that was not added or was removed"); }
static inline ISubBlockCache::PruneOptions byCount(u32 n) { ISubBlockCache::PruneOptions p; p.maxSubBlockCount = n; return p; }
static inline ISubBlockCache::PruneOptions byMem(u64 n) { ISubBlockCache::PruneOptions p; p.maxMemoryUsage = n; return p; }
static inline u64 bytes(u32 w, u32 h, u32 bpp) { return (u64)w * h * bpp; }
#define SMALL(W, H) ASSUME(W > 0 && W < 0x10000 && H > 0 && H < 0x10000)
// memory of one element, for every pixel type, and its mask
#define ONE(P, B) extern "C" void W_K01_one_##P(int k, int n, u32 w, u32 h) { ASSUME(n != k); SizedBm b(w, h, PixelType::P); SubBlockCache c; state(c, 0, 0); hasNot(c, k); c.Add(k, item(b)); state(c, bytes(w, h, B), 1); has(c, k, b); czi_done(); }
ONE(Gray8, 1) ONE(Gray16, 2) ONE(Gray32Float, 4) ONE(Bgr24, 3) ONE(Bgr48, 6) ONE(Bgra32, 4)
extern "C" void W_K01_mask(int k, u32 w, u32 h, u32 mw, u32 mh) { ASSUME(mw < 0x10000000); SizedBm b(w, h, PixelType::Gray16); SizedMask m(mw, mh); SubBlockCache c; c.Add(k, item(b, m)); state(c, bytes(w, h, 2) + (u64)((mw + 7) / 8) * mh, 1); has(c, k, b, &m); czi_done(); }
// replacing an element
extern "C" void W_K01_replace(int k, u32 w, u32 h, u32 w2, u32 h2) { SizedBm a(w, h, PixelType::Gray8), b(w2, h2, PixelType::Bgr24); SubBlockCache c; c.Add(k, item(a)); c.Add(k, item(b)); state(c, bytes(w2, h2, 3), 1); has(c, k, b); czi_done(); }
extern "C" void W_K01_replace_mask(int k, u32 w, u32 h, u32 w2, u32 h2) { SizedBm a(w, h, PixelType::Gray8), b(w2, h2, PixelType::Bgr24); SizedMask m(9, 5); SubBlockCache c; c.Add(k, item(a, m)); c.Add(k, item(b)); state(c, bytes(w2, h2, 3), 1); has(c, k, b); c.Add(k, item(a, m)); state(c, bytes(w, h, 1) + 10, 1); has(c, k, a, &m); czi_done(); }
// several elements
extern "C" void W_K01_two_up(int k0, int k1, u32 w, u32 h) { ASSUME(k0 < k1); SizedBm a(w, h, PixelType::Gray8), b(h, w, PixelType::Gray16); SubBlockCache c; c.Add(k0, item(a)); c.Add(k1, item(b)); state(c, bytes(w, h, 1) + bytes(h, w, 2), 2); has(c, k0, a); has(c, k1, b); czi_done(); }
extern "C" void W_K01_two_down(int k0, int k1, u32 w, u32 h) { ASSUME(k1 < k0); SizedBm a(w, h, PixelType::Gray8), b(h, w, PixelType::Gray16); SubBlockCache c; c.Add(k0, item(a)); c.Add(k1, item(b)); state(c, bytes(w, h, 1) + bytes(h, w, 2), 2); has(c, k0, a); has(c, k1, b); czi_done(); }
extern "C" void W_K01_other_up(int k0, int k1, u32 w, u32 h) { ASSUME(k0 < k1); SizedBm a(w, h, PixelType::Gray8); SubBlockCache c; c.Add(k0, item(a)); hasNot(c, k1); has(c, k0, a); czi_done(); }
extern "C" void W_K01_other_down(int k0, int k1, u32 w, u32 h) { ASSUME(k1 < k0); SizedBm a(w, h, PixelType::Gray8); SubBlockCache c; c.Add(k0, item(a)); hasNot(c, k1); has(c, k0, a); czi_done(); }
// pruning removes the least recently used elements, and no more than necessary
#define PRUNE(NAME, TOUCH, N, A, B, C) extern "C" void W_K01_prune_count_##NAME(u32 w, u32 h) { SizedBm a(w, h, PixelType::Gray8), b(w, h, PixelType::Gray16), d(w, h, PixelType::Bgr24); SubBlockCache c; c.Add(5, item(a)); c.Add(3, item(b)); c.Add(9, item(d)); TOUCH; c.Prune(byCount(N)); state(c, (A ? bytes(w, h, 1) : 0) + (B ? bytes(w, h, 2) : 0) + (C ? bytes(w, h, 3) : 0), A + B + C); if (A) has(c, 5, a); else hasNot(c, 5); if (B) has(c, 3, b); else hasNot(c, 3); if (C) has(c, 9, d); else hasNot(c, 9); czi_done(); }
PRUNE(none, (void)0, 3, 1, 1, 1) PRUNE(one, (void)0, 2, 0, 1, 1) PRUNE(two, (void)0, 1, 0, 0, 1) PRUNE(all, (void)0, 0, 0, 0, 0) PRUNE(used, c.Get(5), 2, 1, 0, 1) PRUNE(used2, c.Get(3); c.Get(5), 1, 1, 0, 0) PRUNE(replaced, c.Add(5, item(a)), 2, 1, 0, 1) PRUNE(missed, c.Get(4), 2, 0, 1, 1)
#define PMEM(NAME, TOUCH, N, A, B, C) extern "C" void W_K01_prune_memory_##NAME() { SizedBm a(10, 10, PixelType::Gray8), b(10, 10, PixelType::Gray16), d(10, 10, PixelType::Bgr24); SubBlockCache c; c.Add(5, item(a)); c.Add(3, item(b)); c.Add(9, item(d)); TOUCH; c.Prune(byMem(N)); state(c, (A ? 100 : 0) + (B ? 200 : 0) + (C ? 300 : 0), A + B + C); if (A) has(c, 5, a); else hasNot(c, 5); if (B) has(c, 3, b); else hasNot(c, 3); if (C) has(c, 9, d); else hasNot(c, 9); czi_done(); }
PMEM(none, (void)0, 600, 1, 1, 1) PMEM(one, (void)0, 599, 0, 1, 1) PMEM(edge, (void)0, 500, 0, 1, 1) PMEM(two, (void)0, 499, 0, 0, 1) PMEM(all, (void)0, 299, 0, 0, 0) PMEM(zero, (void)0, 0, 0, 0, 0) PMEM(used, c.Get(5), 400, 1, 0, 1)
extern "C" void W_K01_prune_both() { SizedBm a(10, 10, PixelType::Gray8), b(10, 10, PixelType::Gray16); SubBlockCache c; c.Add(5, item(a)); c.Add(3, item(b)); ISubBlockCache::PruneOptions p; c.Prune(p); state(c, 300, 2); p.maxMemoryUsage = 250; p.maxSubBlockCount = 7; c.Prune(p); state(c, 200, 1); has(c, 3, b); czi_done(); }
extern "C" void W_K01_prune_empty(u64 n, u32 m) { SubBlockCache c; ISubBlockCache::PruneOptions p; p.maxMemoryUsage = n; p.maxSubBlockCount = m; c.Prune(p); state(c, 0, 0); czi_done(); }
// masks count and are released as well
extern "C" void W_K01_prune_mask_count(u32 w, u32 h) { SizedBm a(w, h, PixelType::Gray8), b(w, h, PixelType::Gray16); SizedMask m(9, 5), n(20, 3); SubBlockCache c; c.Add(5, item(a, m)); c.Add(3, item(b, n)); c.Prune(byCount(1)); state(c, bytes(w, h, 2) + 9, 1); has(c, 3, b, &n); hasNot(c, 5); c.Prune(byCount(0)); state(c, 0, 0); czi_done(); }
extern "C" void W_K01_prune_mask_memory() { SizedBm a(10, 10, PixelType::Gray8), b(10, 10, PixelType::Gray16); SizedMask m(9, 5), n(20, 3); SubBlockCache c; c.Add(5, item(a, m)); c.Add(3, item(b, n)); state(c, 319, 2); c.Prune(byMem(319)); state(c, 319, 2); c.Prune(byMem(318)); state(c, 209, 1); has(c, 3, b, &n); c.Prune(byMem(208)); state(c, 0, 0); hasNot(c, 3); czi_done(); }
