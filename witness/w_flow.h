// documents in memory, written and read through the public interfaces
#pragma once
#include "witness.h"
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include "libCZI.h"
using namespace libCZI;
template <unsigned N> struct Bytes { unsigned char b[N]; std::uint64_t end = 0; };
template <unsigned N> struct Out : libCZI::IOutputStream {
    Bytes<N>* m; Out(Bytes<N>* m) : m(m) {}
    void Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* done) override { std::memcpy(m->b + offset, pv, size); if (offset + size > m->end) m->end = offset + size; if (done) *done = size; }
};
template <unsigned N> struct In : libCZI::IStream {
    Bytes<N>* m; In(Bytes<N>* m) : m(m) {}
    void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* done) override { std::memcpy(pv, m->b + offset, size); if (done) *done = size; }
};
template <unsigned N> struct InOut : libCZI::IInputOutputStream {
    Bytes<N>* m; InOut(Bytes<N>* m) : m(m) {}
    void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* done) override { if (offset >= m->end) { if (done) *done = 0; return; } std::memcpy(pv, m->b + offset, size); if (done) *done = size; }
    void Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* done) override { std::memcpy(m->b + offset, pv, size); if (offset + size > m->end) m->end = offset + size; if (done) *done = size; }
};
static inline std::shared_ptr<CCziWriterInfo> wrInfo() { return std::make_shared<CCziWriterInfo>(GUID{1,2,3,{4,5,6,7,8,9,10,11}}); }
template <unsigned N> static inline std::shared_ptr<ICziWriter> mkWriter(Bytes<N>& mem, std::shared_ptr<ICziWriterInfo> inf = wrInfo()) { auto w = libCZI::CreateCZIWriter(); w->Create(std::make_shared<Out<N>>(&mem), inf); return w; }
template <unsigned N> static inline std::shared_ptr<ICZIReader> mkReader(Bytes<N>& mem) { auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<In<N>>(&mem), nullptr); return r; }
static inline AddSubBlockInfoMemPtr sbInfo(int c, int x, int y, int m, int w, int h, const void* p, std::uint32_t n) {
    AddSubBlockInfoMemPtr a; a.Clear(); a.PixelType = PixelType::Gray8; a.coordinate.Set(DimensionIndex::C, c); a.x = x; a.y = y; a.mIndexValid = true; a.mIndex = m; a.physicalWidth = a.logicalWidth = w; a.physicalHeight = a.logicalHeight = h; a.ptrData = p; a.dataSize = n; return a;
}
template <unsigned N> static inline std::shared_ptr<ICziReaderWriter> mkRw(Bytes<N>& mem, std::shared_ptr<ICziReaderWriterInfo> inf = std::make_shared<CCziReaderWriterInfo>(GUID{1,2,3,{4,5,6,7,8,9,10,11}})) { auto w = libCZI::CreateCZIReaderWriter(); w->Create(std::make_shared<InOut<N>>(&mem), inf); return w; }
// index of the sub-block of channel c, -1 if there is none; counts all
template <class R> static inline int findC(R& r, int c, int& cnt) { int at = -1; cnt = 0; r->EnumerateSubBlocks([&](int i, const SubBlockInfo& inf)->bool { int g = -1; inf.coordinate.TryGetPosition(DimensionIndex::C, &g); if (g == c) at = i; ++cnt; return true; }); return at; }
template <class S> static inline bool bytesAre(const std::shared_ptr<S>& s, ISubBlock::MemBlkType t, std::size_t n, const unsigned char* d) { const void* p; std::size_t m; s->DangerousGetRawData(t, p, m); if (m != n) return false; for (std::size_t i = 0; i < n; ++i) if (((const unsigned char*)p)[i] != d[i]) return false; return true; }
template <unsigned N> static inline void baseDoc(Bytes<N>& mem, const unsigned char* p0, const unsigned char* p1) { auto wr = mkWriter(mem); wr->SyncAddSubBlock(sbInfo(0, 10, 20, 0, 1, 1, p0, 1)); if (p1) wr->SyncAddSubBlock(sbInfo(1, 30, 40, 0, 1, 1, p1, 1)); wr->Close(); }
static inline AddAttachmentInfo attInfo(const char* name, const unsigned char* p, std::uint32_t n) { AddAttachmentInfo a; a.contentGuid = GUID{7, 1, 2, {3, 4, 5, 6, 7, 8, 9, 10}}; a.SetContentFileType("ABC"); a.SetName(name); a.ptrData = p; a.dataSize = n; return a; }
