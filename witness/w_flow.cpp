#include "w_flow.h"
// ---- W03: what is read back is what was written
extern "C" void W_W03_subblock_fields(int c, int x, int y, int m, unsigned w, unsigned h, unsigned pw, unsigned ph, unsigned char p0) {
    ASSUME(m >= 0 && w > 0 && h > 0 && pw > 0 && ph > 0 && w < 0x10000000 && h < 0x10000000 && pw < 0x10000000 && ph < 0x10000000);
    Bytes<8192> mem; 
    { auto wr = mkWriter(mem); AddSubBlockInfoMemPtr a = sbInfo(c, x, y, m, w, h, &p0, 1); a.physicalWidth = pw; a.physicalHeight = ph; wr->SyncAddSubBlock(a); wr->Close(); }
    auto r = mkReader(mem); int cnt = 0; SubBlockInfo o;
    r->EnumerateSubBlocks([&](int i, const SubBlockInfo& inf)->bool { o = inf; ++cnt; return true; });
    REQUIRE(cnt == 1, "not exactly one sub-block is found");
    REQUIRE(o.logicalRect.x == x && o.logicalRect.y == y && o.logicalRect.w == (int)w && o.logicalRect.h == (int)h, "logical rectangle of a sub-block is not read back");
    REQUIRE(o.physicalSize.w == pw && o.physicalSize.h == ph, "physical size of a sub-block is not read back");
    REQUIRE(o.mIndex == m, "M-index of a sub-block is not read back");
    REQUIRE(o.pixelType == PixelType::Gray8 && o.GetCompressionMode() == CompressionMode::UnCompressed, "pixel type or compression of a sub-block is not read back");
    int g = 0; REQUIRE(o.coordinate.TryGetPosition(DimensionIndex::C, &g) && g == c && o.coordinate.GetNumberOfValidDimensions() == 1, "coordinate of a sub-block is not read back");
    czi_done();
}
extern "C" void W_W03_subblock_payload(unsigned char p0, unsigned char p1, unsigned char m0, unsigned char a0) {
    Bytes<8192> mem; unsigned char px[2] = {p0, p1};
    { auto wr = mkWriter(mem); AddSubBlockInfoMemPtr a = sbInfo(0, 0, 0, 0, 2, 1, px, 2); a.ptrSbBlkMetadata = &m0; a.sbBlkMetadataSize = 1; a.ptrSbBlkAttachment = &a0; a.sbBlkAttachmentSize = 1; wr->SyncAddSubBlock(a); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadSubBlock(0);
    const void* p; size_t n;
    s->DangerousGetRawData(ISubBlock::Data, p, n); REQUIRE(n == 2 && ((const unsigned char*)p)[0] == p0 && ((const unsigned char*)p)[1] == p1, "pixel data of a sub-block are not read back");
    s->DangerousGetRawData(ISubBlock::Metadata, p, n); REQUIRE(n == 1 && ((const unsigned char*)p)[0] == m0, "metadata of a sub-block are not read back");
    s->DangerousGetRawData(ISubBlock::Attachment, p, n); REQUIRE(n == 1 && ((const unsigned char*)p)[0] == a0, "attachment of a sub-block is not read back");
    czi_done();
}
extern "C" void W_W03_two_subblocks(unsigned char p0, unsigned char p1) {
    Bytes<8192> mem;
    { auto wr = mkWriter(mem); wr->SyncAddSubBlock(sbInfo(0, 10, 20, 0, 1, 1, &p0, 1)); wr->SyncAddSubBlock(sbInfo(1, 30, 40, 0, 1, 1, &p1, 1)); wr->Close(); }
    auto r = mkReader(mem); int cnt = 0, i0 = -1, i1 = -1; IntRect r0, r1;
    r->EnumerateSubBlocks([&](int i, const SubBlockInfo& inf)->bool { int g = -1; inf.coordinate.TryGetPosition(DimensionIndex::C, &g); if (g == 0) { i0 = i; r0 = inf.logicalRect; } if (g == 1) { i1 = i; r1 = inf.logicalRect; } ++cnt; return true; });
    REQUIRE(cnt == 2 && i0 >= 0 && i1 >= 0, "two sub-blocks are not read back as two");
    REQUIRE(r0.x == 10 && r0.y == 20 && r1.x == 30 && r1.y == 40, "positions of two sub-blocks are mixed up");
    const void* p; size_t n; auto s0 = r->ReadSubBlock(i0); s0->DangerousGetRawData(ISubBlock::Data, p, n); REQUIRE(n == 1 && *(const unsigned char*)p == p0, "pixels of the first sub-block are not read back");
    auto s1 = r->ReadSubBlock(i1); s1->DangerousGetRawData(ISubBlock::Data, p, n); REQUIRE(n == 1 && *(const unsigned char*)p == p1, "pixels of the second sub-block are not read back");
    czi_done();
}
extern "C" void W_W03_attachment(unsigned char d0, unsigned char d1, unsigned g) {
    Bytes<8192> mem; unsigned char d[2] = {d0, d1};
    { auto wr = mkWriter(mem); AddAttachmentInfo a; a.contentGuid = GUID{g, 1, 2, {3, 4, 5, 6, 7, 8, 9, 10}}; a.SetContentFileType("ABC"); a.SetName("xyz"); a.ptrData = d; a.dataSize = 2; wr->SyncAddAttachment(a); wr->Close(); }
    auto r = mkReader(mem); int cnt = 0; AttachmentInfo o;
    r->EnumerateAttachments([&](int i, const AttachmentInfo& inf)->bool { o.contentGuid = inf.contentGuid; std::memcpy(o.contentFileType, inf.contentFileType, sizeof(o.contentFileType)); ++cnt; return true; });
    REQUIRE(cnt == 1, "an attachment is not read back");
    REQUIRE(o.contentGuid.Data1 == g && o.contentGuid.Data2 == 1 && o.contentGuid.Data4[7] == 10, "GUID of an attachment is not read back");
    REQUIRE(o.contentFileType[0] == 'A' && o.contentFileType[1] == 'B' && o.contentFileType[2] == 'C' && o.contentFileType[3] == 0, "content file type of an attachment is not read back");
    const void* p; size_t n; auto t = r->ReadAttachment(0); t->DangerousGetRawData(p, n); REQUIRE(n == 2 && ((const unsigned char*)p)[0] == d0 && ((const unsigned char*)p)[1] == d1, "data of an attachment are not read back");
    czi_done();
}
extern "C" void W_W03_metadata(char d0, char d1, unsigned char a0) {
    Bytes<8192> mem; char d[2] = {d0, d1};
    { auto wr = mkWriter(mem); WriteMetadataInfo m; m.Clear(); m.szMetadata = d; m.szMetadataSize = 2; m.ptrAttachment = &a0; m.attachmentSize = 1; wr->SyncWriteMetadata(m); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadMetadataSegment();
    const void* p; size_t n; s->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, n); REQUIRE(n == 2 && ((const char*)p)[0] == d0 && ((const char*)p)[1] == d1, "XML metadata are not read back");
    s->DangerousGetRawData(IMetadataSegment::Attachment, p, n); REQUIRE(n == 1 && *(const unsigned char*)p == a0, "metadata attachment is not read back");
    czi_done();
}
extern "C" void W_W03_guid(unsigned a, unsigned short b, unsigned short c, unsigned char d) {
    ASSUME(a != 0);
    Bytes<8192> mem; { auto wr = mkWriter(mem, std::make_shared<CCziWriterInfo>(GUID{a, b, c, {d, 5, 6, 7, 8, 9, 10, 11}})); wr->Close(); }
    auto r = mkReader(mem); auto h = r->GetFileHeaderInfo();
    REQUIRE(h.fileGuid.Data1 == a && h.fileGuid.Data2 == b && h.fileGuid.Data3 == c && h.fileGuid.Data4[0] == d && h.fileGuid.Data4[7] == 11, "GUID of the file is not read back");
    REQUIRE(h.majorVersion == 1 && h.minorVersion == 0, "version of the file is not read back");
    int cnt = 0; r->EnumerateSubBlocks([&](int, const SubBlockInfo&)->bool { ++cnt; return true; }); r->EnumerateAttachments([&](int, const AttachmentInfo&)->bool { ++cnt; return true; });
    REQUIRE(cnt == 0, "an empty document is not read back as empty");
    czi_done();
}
