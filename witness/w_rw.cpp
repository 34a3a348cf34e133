#include "w_flow.h"
// ---- W05: a document modified in place reads back as modified, everything else as before
extern "C" void W_W05_add(unsigned char p0, unsigned char p1) {
    Bytes<8192> mem; baseDoc(mem, &p0, nullptr);
    { auto rw = mkRw(mem); rw->SyncAddSubBlock(sbInfo(1, 30, 40, 0, 1, 1, &p1, 1)); rw->Close(); }
    auto r = mkReader(mem); int n; int i0 = findC(r, 0, n), i1 = findC(r, 1, n);
    REQUIRE(n == 2 && i0 >= 0 && i1 >= 0, "a sub-block added to an existing document is not read back");
    REQUIRE(bytesAre(r->ReadSubBlock(i0), ISubBlock::Data, 1, &p0), "adding a sub-block changes the pixels of another one"); REQUIRE(bytesAre(r->ReadSubBlock(i1), ISubBlock::Data, 1, &p1), "pixels of an added sub-block are not read back");
    czi_done();
}
extern "C" void W_W05_remove(unsigned char p0, unsigned char p1) {
    Bytes<8192> mem; baseDoc(mem, &p0, &p1);
    { auto rw = mkRw(mem); int n; rw->RemoveSubBlock(findC(rw, 0, n)); rw->Close(); }
    auto r = mkReader(mem); int n; int i1 = findC(r, 1, n);
    REQUIRE(n == 1 && i1 >= 0, "removing a sub-block does not remove exactly this one");
    REQUIRE(bytesAre(r->ReadSubBlock(i1), ISubBlock::Data, 1, &p1), "removing a sub-block changes the pixels of another one");
    czi_done();
}
extern "C" void W_W05_replace_inplace(unsigned char p0, unsigned char p1, unsigned char q) {
    Bytes<8192> mem; baseDoc(mem, &p0, &p1);
    { auto rw = mkRw(mem); int n; rw->ReplaceSubBlock(findC(rw, 0, n), sbInfo(0, 50, 60, 0, 1, 1, &q, 1)); rw->Close(); }
    auto r = mkReader(mem); int n; int i0 = findC(r, 0, n), i1 = findC(r, 1, n);
    REQUIRE(n == 2 && i0 >= 0 && i1 >= 0, "replacing a sub-block changes the number of sub-blocks");
    SubBlockInfo inf; REQUIRE(r->TryGetSubBlockInfo(i0, &inf) && inf.logicalRect.x == 50 && inf.logicalRect.y == 60, "the position of a replaced sub-block is not updated");
    REQUIRE(bytesAre(r->ReadSubBlock(i0), ISubBlock::Data, 1, &q), "pixels of a replaced sub-block are not read back"); REQUIRE(bytesAre(r->ReadSubBlock(i1), ISubBlock::Data, 1, &p1), "replacing a sub-block changes the pixels of another one");
    czi_done();
}
extern "C" void W_W05_replace_larger(unsigned char p0, unsigned char p1, unsigned char q, unsigned char s) {
    Bytes<8192> mem; baseDoc(mem, &p0, &p1); unsigned char big[64]; for (int i = 0; i < 64; ++i) big[i] = q;
    { auto rw = mkRw(mem); int n; rw->ReplaceSubBlock(findC(rw, 0, n), sbInfo(0, 10, 20, 0, 64, 1, big, 64)); rw->SyncAddSubBlock(sbInfo(2, 30, 40, 0, 1, 1, &s, 1)); rw->Close(); }
    auto r = mkReader(mem); int n; int i0 = findC(r, 0, n), i1 = findC(r, 1, n), i2 = findC(r, 2, n);
    REQUIRE(n == 3 && i0 >= 0 && i1 >= 0 && i2 >= 0, "replacing by a larger sub-block loses a sub-block");
    const void* p; size_t m; auto b = r->ReadSubBlock(i0); b->DangerousGetRawData(ISubBlock::Data, p, m); REQUIRE(m == 64 && ((const unsigned char*)p)[0] == q && ((const unsigned char*)p)[63] == q, "pixels of a replaced, larger sub-block are not read back");
    REQUIRE(bytesAre(r->ReadSubBlock(i1), ISubBlock::Data, 1, &p1), "replacing by a larger sub-block changes the pixels of another one"); REQUIRE(bytesAre(r->ReadSubBlock(i2), ISubBlock::Data, 1, &s), "a sub-block added behind a replaced one is not read back");
    czi_done();
}
extern "C" void W_W05_add_both(unsigned char p0, unsigned char p1, unsigned char d) {
    Bytes<8192> mem; baseDoc(mem, &p0, nullptr);
    { auto rw = mkRw(mem); rw->SyncAddSubBlock(sbInfo(1, 30, 40, 0, 1, 1, &p1, 1)); rw->SyncAddAttachment(attInfo("one", &d, 1)); rw->Close(); }
    auto r = mkReader(mem); int n; int i0 = findC(r, 0, n), i1 = findC(r, 1, n);
    REQUIRE(n == 2 && i0 >= 0 && i1 >= 0, "sub-blocks are lost when an attachment is added too");
    REQUIRE(bytesAre(r->ReadSubBlock(i0), ISubBlock::Data, 1, &p0) && bytesAre(r->ReadSubBlock(i1), ISubBlock::Data, 1, &p1), "pixels change when an attachment is added too");
    int na = 0; r->EnumerateAttachments([&](int, const AttachmentInfo&)->bool { ++na; return true; }); REQUIRE(na == 1, "an added attachment is not read back");
    const void* p; size_t m; auto t = r->ReadAttachment(0); t->DangerousGetRawData(p, m); REQUIRE(m == 1 && *(const unsigned char*)p == d, "data of an added attachment are not read back");
    czi_done();
}
extern "C" void W_W05_new_document(unsigned char p0, unsigned char d, char x) {
    czi_exceptions();
    Bytes<8192> mem;
    { auto rw = mkRw(mem); rw->SyncAddSubBlock(sbInfo(0, 30, 40, 0, 1, 1, &p0, 1)); rw->SyncAddAttachment(attInfo("one", &d, 1)); WriteMetadataInfo w; w.Clear(); w.szMetadata = &x; w.szMetadataSize = 1; rw->SyncWriteMetadata(w); rw->Close(); }
    auto r = mkReader(mem); int n; int i0 = findC(r, 0, n); REQUIRE(n == 1 && i0 >= 0 && bytesAre(r->ReadSubBlock(i0), ISubBlock::Data, 1, &p0), "a sub-block of a newly created document is not read back");
    const void* p; size_t m; auto t = r->ReadAttachment(0); t->DangerousGetRawData(p, m); REQUIRE(m == 1 && *(const unsigned char*)p == d, "an attachment of a newly created document is not read back");
    auto s = r->ReadMetadataSegment(); s->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, m); REQUIRE(m == 1 && *(const char*)p == x, "metadata of a newly created document are not read back");
    czi_done();
}
extern "C" void W_W05_replace_attachment(unsigned char p0, unsigned char d, unsigned char q, unsigned char s) {
    Bytes<8192> mem; unsigned char big[64]; for (int i = 0; i < 64; ++i) big[i] = q;
    { auto wr = mkWriter(mem); wr->SyncAddAttachment(attInfo("one", &d, 1)); wr->Close(); }
    { auto rw = mkRw(mem); rw->ReplaceAttachment(0, attInfo("one", big, 64)); rw->SyncAddAttachment(attInfo("two", &s, 1)); rw->Close(); }
    auto r = mkReader(mem); int na = 0, i1 = -1, i2 = -1; r->EnumerateAttachments([&](int i, const AttachmentInfo& inf)->bool { if (inf.name[0] == 'o') i1 = i; if (inf.name[0] == 't') i2 = i; ++na; return true; });
    REQUIRE(na == 2 && i1 >= 0 && i2 >= 0, "replacing and adding an attachment does not give two");
    const void* p; size_t m; auto a = r->ReadAttachment(i1); a->DangerousGetRawData(p, m); REQUIRE(m == 64 && ((const unsigned char*)p)[0] == q && ((const unsigned char*)p)[63] == q, "data of a replaced attachment are not read back");
    auto b = r->ReadAttachment(i2); b->DangerousGetRawData(p, m); REQUIRE(m == 1 && *(const unsigned char*)p == s, "data of an attachment added behind a replaced one are not read back");
    czi_done(); (void)p0;
}
// what is removed is marked as deleted where it lies, and nowhere else
static inline bool deletedAt(const unsigned char* b) { return b[0] == 'D' && b[1] == 'E' && b[2] == 'L' && b[3] == 'E' && b[4] == 'T' && b[5] == 'E' && b[6] == 'D' && b[7] == 0; }
extern "C" void W_W05_remove_attachment(unsigned char p0, unsigned char d, unsigned char q) {
    Bytes<8192> mem; { auto wr = mkWriter(mem); wr->SyncAddSubBlock(sbInfo(0, 10, 20, 0, 1, 1, &p0, 1)); wr->SyncAddAttachment(attInfo("one", &d, 1)); wr->SyncAddAttachment(attInfo("two", &q, 1)); wr->Close(); }
    { auto rw = mkRw(mem); rw->RemoveAttachment(0); rw->Close(); }
    auto r = mkReader(mem); int na = 0; r->EnumerateAttachments([&](int, const AttachmentInfo&)->bool { ++na; return true; }); REQUIRE(na == 1, "removing an attachment does not remove exactly this one");
    const void* p; size_t m; auto t = r->ReadAttachment(0); t->DangerousGetRawData(p, m); REQUIRE(m == 1 && *(const unsigned char*)p == q, "removing an attachment changes another one");
    int n; int i0 = findC(r, 0, n); REQUIRE(n == 1 && i0 >= 0 && bytesAre(r->ReadSubBlock(i0), ISubBlock::Data, 1, &p0), "removing an attachment changes a sub-block");
    czi_done();
}
extern "C" void W_W05_removed_marked(unsigned char p0, unsigned char p1) {
    Bytes<8192> mem; baseDoc(mem, &p0, &p1);
    std::uint64_t at = 0; { auto r = mkReader(mem); r->EnumerateSubBlocksEx([&](int, const DirectorySubBlockInfo& f)->bool { int g = -1; f.coordinate.TryGetPosition(DimensionIndex::C, &g); if (g == 0) at = f.filePosition; return true; }); }
    { auto rw = mkRw(mem); int n; rw->RemoveSubBlock(findC(rw, 0, n)); rw->Close(); }
    REQUIRE(at != 0 && deletedAt(mem.b + at), "a removed sub-block is not marked as deleted"); czi_done();
}
