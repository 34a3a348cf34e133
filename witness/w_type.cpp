#include "w_flow.h"
// ---- S01: operations on an object that is not open (never opened, or closed) are rejected; opening twice is rejected
template <class R> static inline void repoRejects(R& r, int i) {
    REJECTS(r->ReadSubBlock(i), "sub-blocks can be read from an object that is not open");
    REJECTS(r->EnumerateSubBlocks([](int, const SubBlockInfo&)->bool { return true; }), "sub-blocks of an object that is not open can be enumerated");
    REJECTS(r->EnumSubset(nullptr, nullptr, false, [](int, const SubBlockInfo&)->bool { return true; }), "a subset of an object that is not open can be enumerated");
    SubBlockInfo si; REJECTS(r->TryGetSubBlockInfo(i, &si), "information about a sub-block of an object that is not open can be queried");
    REJECTS(r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(i, si), "channel information of an object that is not open can be queried");
    REJECTS(r->GetStatistics(), "statistics of an object that is not open can be queried");
    REJECTS(r->GetPyramidStatistics(), "pyramid statistics of an object that is not open can be queried");
}
template <class R> static inline void attRejects(R& r, int i) {
    REJECTS(r->ReadAttachment(i), "attachments can be read from an object that is not open");
    REJECTS(r->EnumerateAttachments([](int, const AttachmentInfo&)->bool { return true; }), "attachments of an object that is not open can be enumerated");
    REJECTS(r->EnumerateSubset("A", "B", [](int, const AttachmentInfo&)->bool { return true; }), "a subset of the attachments of an object that is not open can be enumerated");
    REJECTS(r->GetAttachmentCount(), "attachments of an object that is not open can be counted");
    AttachmentInfo ai; REJECTS(r->TryGetAttachmentInfo(i, &ai), "information about an attachment of an object that is not open can be queried");
}
template <class R> static inline void pointRejects(R& r, int x, int y) {
    IntPointAndFrameOfReference p; p.point.x = x; p.point.y = y; p.frame_of_reference = CZIFrameOfReference::RawSubBlockCoordinateSystem;
    REJECTS(r->TransformPoint(p, CZIFrameOfReference::RawSubBlockCoordinateSystem), "points can be transformed by an object that is not open");
    REJECTS(r->TransformPoint(p, CZIFrameOfReference::PixelCoordinateSystem), "points can be transformed by an object that is not open");
    REJECTS(r->TransformPoint(p, CZIFrameOfReference::Default), "points can be transformed by an object that is not open");
}
extern "C" void W_S01_reader_new_repo(int i) { czi_exceptions(); auto r = libCZI::CreateCZIReader(); repoRejects(r, i); czi_done(); }
extern "C" void W_S01_reader_new_att(int i) { czi_exceptions(); auto r = libCZI::CreateCZIReader(); attRejects(r, i); czi_done(); }
extern "C" void W_S01_reader_new_point(int x, int y) { czi_exceptions(); auto r = libCZI::CreateCZIReader(); pointRejects(r, x, y); czi_done(); }
extern "C" void W_S01_reader_new_other() {
    czi_exceptions(); auto r = libCZI::CreateCZIReader();
    REJECTS(r->ReadMetadataSegment(), "metadata can be read from a reader that is not open");
    REJECTS(r->GetFileHeaderInfo(), "the file header of a reader that is not open can be queried");
    REJECTS(r->CreateAccessor(AccessorType::SingleChannelTileAccessor), "an accessor can be created for a reader that is not open");
    REJECTS(r->Close(), "a reader that is not open can be closed");
    czi_done();
}
extern "C" void W_S01_reader_closed_repo(int i) { czi_exceptions(); Bytes<8192> mem; { auto wr = mkWriter(mem); wr->Close(); } auto r = mkReader(mem); r->Close(); repoRejects(r, i); czi_done(); }
extern "C" void W_S01_reader_closed_att(int i) { czi_exceptions(); Bytes<8192> mem; { auto wr = mkWriter(mem); wr->Close(); } auto r = mkReader(mem); r->Close(); attRejects(r, i); pointRejects(r, i, i); czi_done(); }
extern "C" void W_S01_reader_closed_other() {
    czi_exceptions(); Bytes<8192> mem; { auto wr = mkWriter(mem); wr->Close(); } auto r = mkReader(mem);
    REJECTS(r->Open(std::make_shared<In<8192>>(&mem), nullptr), "a reader can be opened twice");
    r->Close();
    REJECTS(r->ReadMetadataSegment(), "metadata can be read from a reader that was closed");
    REJECTS(r->GetFileHeaderInfo(), "the file header of a reader that was closed can be queried");
    REJECTS(r->CreateAccessor(AccessorType::SingleChannelTileAccessor), "an accessor can be created for a reader that was closed");
    REJECTS(r->Close(), "a reader can be closed twice");
    czi_done();
}
// a reader may be opened again: it then shows the new document only
extern "C" void W_S01_reader_reopened(unsigned char d, unsigned char p0) {
    czi_exceptions(); Bytes<8192> m1, m2; { auto wr = mkWriter(m1); wr->SyncAddAttachment(attInfo("one", &d, 1)); wr->SyncAddSubBlock(sbInfo(0, 10, 20, 0, 1, 1, &p0, 1)); wr->Close(); } { auto wr = mkWriter(m2); wr->Close(); }
    auto r = mkReader(m1); REQUIRE(r->GetAttachmentCount() == 1, "the attachment is not found"); r->Close(); r->Open(std::make_shared<In<8192>>(&m2), nullptr);
    REQUIRE(r->GetAttachmentCount() == 0, "attachments of the previous document are reported"); int n; findC(r, 0, n); REQUIRE(n == 0, "sub-blocks of the previous document are reported");
    REQUIRE(r->GetStatistics().subBlockCount == 0, "statistics of the previous document are reported");
    czi_done();
}
template <class W> static inline void writerRejects(W& w, const unsigned char* p) {
    REJECTS(w->SyncAddSubBlock(sbInfo(0, 10, 20, 0, 1, 1, p, 1)), "a sub-block can be added to an object that is not open");
    REJECTS(w->SyncAddAttachment(attInfo("one", p, 1)), "an attachment can be added to an object that is not open");
    WriteMetadataInfo m; m.Clear(); m.szMetadata = (const char*)p; m.szMetadataSize = 1; REJECTS(w->SyncWriteMetadata(m), "metadata can be written to an object that is not open");
    REJECTS(w->GetStatistics(), "statistics of an object that is not open can be queried");
    REJECTS(w->Close(), "an object that is not open can be closed");
}
extern "C" void W_S01_writer_new(unsigned char p0) { czi_exceptions(); auto w = libCZI::CreateCZIWriter(); writerRejects(w, &p0); PrepareMetadataInfo pi; REJECTS(w->GetPreparedMetadata(pi), "prepared metadata of a writer that is not open can be queried"); czi_done(); }
extern "C" void W_S01_writer_closed(unsigned char p0) { czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); w->Close(); writerRejects(w, &p0); czi_done(); }
extern "C" void W_S01_writer_twice() { czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); REJECTS(w->Create(std::make_shared<Out<8192>>(&mem), wrInfo()), "a writer can be created twice"); czi_done(); }
template <class W> static inline void editRejects(W& w, int i, const unsigned char* p) {
    REJECTS(w->RemoveSubBlock(i), "a sub-block can be removed from an object that is not open");
    REJECTS(w->RemoveAttachment(i), "an attachment can be removed from an object that is not open");
    REJECTS(w->ReplaceSubBlock(i, sbInfo(0, 10, 20, 0, 1, 1, p, 1)), "a sub-block of an object that is not open can be replaced");
    REJECTS(w->ReplaceAttachment(i, attInfo("one", p, 1)), "an attachment of an object that is not open can be replaced");
    REJECTS(w->ReadMetadataSegment(), "metadata can be read from an object that is not open");
    REJECTS(w->GetFileHeaderInfo(), "the file header of an object that is not open can be queried");
}
extern "C" void W_S01_rw_new_repo(int i) { czi_exceptions(); auto r = libCZI::CreateCZIReaderWriter(); repoRejects(r, i); czi_done(); }
extern "C" void W_S01_rw_new_att(int i) { czi_exceptions(); auto r = libCZI::CreateCZIReaderWriter(); attRejects(r, i); pointRejects(r, i, i); czi_done(); }
extern "C" void W_S01_rw_new_edit(int i, unsigned char p0) { czi_exceptions(); auto r = libCZI::CreateCZIReaderWriter(); writerRejects(r, &p0); editRejects(r, i, &p0); czi_done(); }
extern "C" void W_S01_rw_closed_repo(int i) { czi_exceptions(); Bytes<8192> mem; auto r = mkRw(mem); r->Close(); repoRejects(r, i); attRejects(r, i); pointRejects(r, i, i); czi_done(); }
extern "C" void W_S01_rw_closed_edit(int i, unsigned char p0) { czi_exceptions(); Bytes<8192> mem; auto r = mkRw(mem); r->Close(); writerRejects(r, &p0); editRejects(r, i, &p0); czi_done(); }
extern "C" void W_S01_rw_twice() { czi_exceptions(); Bytes<8192> mem; auto r = mkRw(mem); REJECTS(r->Create(std::make_shared<InOut<8192>>(&mem), nullptr), "a reader-writer can be created twice"); czi_done(); }
// a failed attempt to start a document leaves the object unopened
struct Fails : IOutputStream { void Write(std::uint64_t, const void*, std::uint64_t, std::uint64_t*) override { throw std::runtime_error("x"); } };
extern "C" void W_S01_writer_failed(unsigned char p0) { czi_exceptions(); auto w = libCZI::CreateCZIWriter(); REJECTS(w->Create(std::make_shared<Fails>(), wrInfo()), "a failing stream is accepted"); writerRejects(w, &p0); czi_done(); }
struct FailsIn : IStream { void Read(std::uint64_t, void*, std::uint64_t, std::uint64_t*) override { throw std::runtime_error("x"); } };
extern "C" void W_S01_reader_failed(int i) { czi_exceptions(); auto r = libCZI::CreateCZIReader(); REJECTS(r->Open(std::make_shared<FailsIn>(), nullptr), "a failing stream is accepted"); repoRejects(r, i); czi_done(); }
