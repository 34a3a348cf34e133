#include "w_flow.h"
// ---- W03: further shapes of documents that are written and read back
#define FLAG extern "C" void
FLAG W_W03_alldims(int z, int c, int t, int r, int s, int i, int h, int v, int b, unsigned char p0) {
    Bytes<8192> mem; int val[9] = {z, c, t, r, s, i, h, v, b}; DimensionIndex d[9] = {DimensionIndex::Z, DimensionIndex::C, DimensionIndex::T, DimensionIndex::R, DimensionIndex::S, DimensionIndex::I, DimensionIndex::H, DimensionIndex::V, DimensionIndex::B};
    { auto wr = mkWriter(mem); AddSubBlockInfoMemPtr a = sbInfo(0, 10, 20, 0, 1, 1, &p0, 1); a.mIndexValid = false; for (int k = 0; k < 9; ++k) a.coordinate.Set(d[k], val[k]); wr->SyncAddSubBlock(a); wr->Close(); }
    auto r_ = mkReader(mem); int cnt = 0; SubBlockInfo o; r_->EnumerateSubBlocks([&](int, const SubBlockInfo& inf)->bool { o = inf; ++cnt; return true; });
    REQUIRE(cnt == 1 && o.coordinate.GetNumberOfValidDimensions() == 9, "a sub-block with all dimensions is not read back with all dimensions");
    for (int k = 0; k < 9; ++k) { int g = 0; REQUIRE(o.coordinate.TryGetPosition(d[k], &g) && g == val[k], "a coordinate of a sub-block with all dimensions is not read back"); }
    REQUIRE(!o.IsMindexValid(), "an M-index appears that was not given");
    REQUIRE(bytesAre(r_->ReadSubBlock(0), ISubBlock::Data, 1, &p0), "pixels of a sub-block with all dimensions are not read back");
    czi_done();
}
FLAG W_W03_alldims_m(int z, int b, int m, unsigned char p0, unsigned char m0) {
    ASSUME(m >= 0);
    Bytes<8192> mem;
    { auto wr = mkWriter(mem); AddSubBlockInfoMemPtr a = sbInfo(0, 10, 20, m, 1, 1, &p0, 1); a.ptrSbBlkMetadata = &m0; a.sbBlkMetadataSize = 1; for (int k = (int)DimensionIndex::MinDim; k <= (int)DimensionIndex::MaxDim; ++k) a.coordinate.Set((DimensionIndex)k, k); a.coordinate.Set(DimensionIndex::Z, z); a.coordinate.Set(DimensionIndex::B, b); wr->SyncAddSubBlock(a); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadSubBlock(0); auto o = s->GetSubBlockInfo();
    int g = 0; REQUIRE(o.coordinate.GetNumberOfValidDimensions() == 9 && o.coordinate.TryGetPosition(DimensionIndex::Z, &g) && g == z && o.coordinate.TryGetPosition(DimensionIndex::B, &g) && g == b && o.mIndex == m, "coordinate of a sub-block with all dimensions and an M-index is not read back");
    REQUIRE(bytesAre(s, ISubBlock::Data, 1, &p0) && bytesAre(s, ISubBlock::Metadata, 1, &m0), "data of a sub-block with all dimensions and an M-index are not read back");
    czi_done();
}
#define KIND(N, PX, CM, PT) \
FLAG W_W03_kind_##N(unsigned char p0) { \
    Bytes<8192> mem; \
    { auto wr = mkWriter(mem); AddSubBlockInfoMemPtr a = sbInfo(0, 10, 20, 0, 1, 1, &p0, 1); a.PixelType = PixelType::PX; a.SetCompressionMode(CompressionMode::CM); a.pyramid_type = SubBlockPyramidType::PT; wr->SyncAddSubBlock(a); wr->Close(); } \
    auto r = mkReader(mem); int cnt = 0; SubBlockInfo o; r->EnumerateSubBlocks([&](int, const SubBlockInfo& inf)->bool { o = inf; ++cnt; return true; }); \
    REQUIRE(cnt == 1 && o.pixelType == PixelType::PX, "pixel type " #PX " is not read back"); REQUIRE(o.GetCompressionMode() == CompressionMode::CM, "compression " #CM " is not read back"); REQUIRE(o.pyramidType == SubBlockPyramidType::PT, "pyramid type " #PT " is not read back"); \
    auto s = r->ReadSubBlock(0); auto q = s->GetSubBlockInfo(); REQUIRE(q.pixelType == PixelType::PX && q.GetCompressionMode() == CompressionMode::CM && q.pyramidType == SubBlockPyramidType::PT, "a sub-block that was read does not state its pixel type, compression or pyramid type"); \
    REQUIRE(bytesAre(s, ISubBlock::Data, 1, &p0), "bytes of a sub-block with pixel type " #PX " and compression " #CM " are not read back"); \
    czi_done(); }
KIND(gray16, Gray16, JpgXr, SingleSubBlock) KIND(bgr24, Bgr24, Zstd1, MultiSubBlock) KIND(bgr48, Bgr48, Zstd0, None) KIND(float, Gray32Float, Jpg, None) KIND(bgra, Bgra32, UnCompressed, SingleSubBlock)
// reserved space: the segment is put there when it fits and elsewhere when it does not
static inline std::shared_ptr<CCziWriterInfo> reserved(int md, int sb, int at) { auto i = wrInfo(); if (md) i->SetReservedSizeForMetadataSegment(true, md); if (sb) i->SetReservedSizeForSubBlockDirectory(true, sb); if (at) i->SetReservedSizeForAttachmentsDirectory(true, at); return i; }
FLAG W_W03_reserved_metadata(char d0, char d1) {
    Bytes<8192> mem; char d[2] = {d0, d1};
    { auto wr = mkWriter(mem, reserved(64, 0, 0)); WriteMetadataInfo m; m.Clear(); m.szMetadata = d; m.szMetadataSize = 2; wr->SyncWriteMetadata(m); wr->Close(); }
    auto r = mkReader(mem); const void* p; size_t n; auto sg = r->ReadMetadataSegment(); sg->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, n); REQUIRE(n == 2 && ((const char*)p)[0] == d0 && ((const char*)p)[1] == d1, "XML metadata written to reserved space are not read back");
    czi_done();
}
FLAG W_W03_reserved_metadata_small(char d0, char d39) {
    Bytes<8192> mem; char d[40] = {d0}; d[39] = d39;
    { auto wr = mkWriter(mem, reserved(1, 0, 0)); WriteMetadataInfo m; m.Clear(); m.szMetadata = d; m.szMetadataSize = 40; wr->SyncWriteMetadata(m); wr->Close(); }
    auto r = mkReader(mem); const void* p; size_t n; auto sg = r->ReadMetadataSegment(); sg->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, n); REQUIRE(n == 40 && ((const char*)p)[0] == d0 && ((const char*)p)[39] == d39, "XML metadata larger than the reserved space are not read back");
    czi_done();
}
FLAG W_W03_metadata_twice(char d0, char d1, unsigned char p0) {
    Bytes<8192> mem; char d[2] = {d0, d1}; char big[70] = {d1}; big[69] = d0;
    { auto wr = mkWriter(mem); WriteMetadataInfo m; m.Clear(); m.szMetadata = d; m.szMetadataSize = 2; wr->SyncWriteMetadata(m); wr->SyncAddSubBlock(sbInfo(0, 10, 20, 0, 1, 1, &p0, 1)); m.szMetadata = big; m.szMetadataSize = 70; wr->SyncWriteMetadata(m); wr->Close(); }
    auto r = mkReader(mem); const void* p; size_t n; auto sg = r->ReadMetadataSegment(); sg->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, n); REQUIRE(n == 70 && ((const char*)p)[0] == d1 && ((const char*)p)[69] == d0, "metadata written a second time are not the ones read back");
    REQUIRE(bytesAre(r->ReadSubBlock(0), ISubBlock::Data, 1, &p0), "metadata written a second time change a sub-block");
    czi_done();
}
FLAG W_W03_reserved_directory(unsigned char p0, unsigned char p1) {
    Bytes<8192> mem; { auto wr = mkWriter(mem, reserved(0, 2, 0)); wr->SyncAddSubBlock(sbInfo(0, 10, 20, 0, 1, 1, &p0, 1)); wr->SyncAddSubBlock(sbInfo(1, 30, 40, 0, 1, 1, &p1, 1)); wr->Close(); }
    auto r = mkReader(mem); int n; int i0 = findC(r, 0, n), i1 = findC(r, 1, n); REQUIRE(n == 2 && i0 >= 0 && i1 >= 0, "sub-blocks listed in a reserved directory are not read back");
    REQUIRE(bytesAre(r->ReadSubBlock(i0), ISubBlock::Data, 1, &p0) && bytesAre(r->ReadSubBlock(i1), ISubBlock::Data, 1, &p1), "pixels of sub-blocks listed in a reserved directory are not read back");
    czi_done();
}
FLAG W_W03_reserved_directory_small(unsigned char p0) {
    Bytes<16384> mem; { auto wr = mkWriter(mem, reserved(0, 1, 0)); for (int c = 0; c < 4; ++c) { AddSubBlockInfoMemPtr a = sbInfo(c, 10, 20, 0, 1, 1, &p0, 1); for (int k = (int)DimensionIndex::MinDim; k <= (int)DimensionIndex::MaxDim; ++k) if (k != (int)DimensionIndex::C) a.coordinate.Set((DimensionIndex)k, k); wr->SyncAddSubBlock(a); } wr->Close(); }
    auto r = mkReader(mem); int n; int i3 = findC(r, 3, n); REQUIRE(n == 4 && i3 >= 0, "sub-blocks exceeding the reserved directory are not read back");
    REQUIRE(bytesAre(r->ReadSubBlock(i3), ISubBlock::Data, 1, &p0), "pixels of sub-blocks exceeding the reserved directory are not read back");
    czi_done();
}
template <class R> static inline bool attIs(R& r, int i, unsigned n, const unsigned char* d) { auto t = r->ReadAttachment(i); const void* p; size_t m; t->DangerousGetRawData(p, m); if (m != n) return false; for (unsigned k = 0; k < n; ++k) if (((const unsigned char*)p)[k] != d[k]) return false; return true; }
FLAG W_W03_reserved_attachments(unsigned char d0, unsigned char p0) {
    Bytes<8192> mem; { auto wr = mkWriter(mem, reserved(0, 0, 3)); wr->SyncAddAttachment(attInfo("one", &d0, 1)); wr->SyncAddSubBlock(sbInfo(0, 10, 20, 0, 1, 1, &p0, 1)); wr->Close(); }
    auto r = mkReader(mem); REQUIRE(r->GetAttachmentCount() == 1, "an attachment listed in a reserved directory is not read back"); REQUIRE(attIs(r, 0, 1, &d0), "data of an attachment listed in a reserved directory are not read back"); REQUIRE(bytesAre(r->ReadSubBlock(0), ISubBlock::Data, 1, &p0), "a reserved attachment directory damages a sub-block");
    czi_done();
}
FLAG W_W03_reserved_attachments_small(unsigned char d0, unsigned char d1) {
    Bytes<8192> mem; { auto wr = mkWriter(mem, reserved(0, 0, 1)); auto a = attInfo("one", &d0, 1); wr->SyncAddAttachment(a); a = attInfo("two", &d1, 1); a.contentGuid.Data1 = 8; wr->SyncAddAttachment(a); wr->Close(); }
    auto r = mkReader(mem); int cnt = 0, i7 = -1, i8 = -1; r->EnumerateAttachments([&](int i, const AttachmentInfo& inf)->bool { if (inf.contentGuid.Data1 == 7) i7 = i; if (inf.contentGuid.Data1 == 8) i8 = i; ++cnt; return true; });
    REQUIRE(cnt == 2 && i7 >= 0 && i8 >= 0, "attachments exceeding the reserved directory are not read back"); REQUIRE(attIs(r, i7, 1, &d0) && attIs(r, i8, 1, &d1), "data of attachments exceeding the reserved directory are not read back");
    czi_done();
}
FLAG W_W03_attachment_long_name(unsigned char d0, unsigned char g0) {
    Bytes<8192> mem; { auto wr = mkWriter(mem); AddAttachmentInfo a = attInfo("", &d0, 1); std::memset(a.contentFileType, 'T', 8); std::memset(a.name, 'N', 80); a.contentGuid.Data4[7] = g0; wr->SyncAddAttachment(a); wr->Close(); }
    auto r = mkReader(mem); int cnt = 0; bool t = true, g = false; size_t len = 0; bool nm = true;
    r->EnumerateAttachments([&](int, const AttachmentInfo& inf)->bool { for (int i = 0; i < 8; ++i) if (inf.contentFileType[i] != 'T') t = false; if (inf.contentFileType[8] != 0) t = false; len = inf.name.size(); nm = len == 80 && inf.name[0] == 'N' && inf.name[40] == 'N' && inf.name[79] == 'N'; g = inf.contentGuid.Data4[7] == g0; ++cnt; return true; });
    REQUIRE(cnt == 1 && g && t, "content type or GUID of an attachment with names of full length is not read back"); REQUIRE(len == 80 && nm, "a name of full length is not read back");
    czi_done();
}
FLAG W_W03_parts_data_only(unsigned char p0, unsigned char p1, unsigned char p2) {
    Bytes<8192> mem; unsigned char px[3] = {p0, p1, p2}; { auto wr = mkWriter(mem); wr->SyncAddSubBlock(sbInfo(0, 0, 0, 0, 3, 1, px, 3)); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadSubBlock(0); REQUIRE(bytesAre(s, ISubBlock::Data, 3, px) && bytesAre(s, ISubBlock::Metadata, 0, px) && bytesAre(s, ISubBlock::Attachment, 0, px), "a sub-block with pixel data only is not read back"); czi_done();
}
FLAG W_W03_parts_metadata(unsigned char p0, unsigned char m0, unsigned char m1) {
    Bytes<8192> mem; unsigned char md[2] = {m0, m1}; { auto wr = mkWriter(mem); auto a = sbInfo(0, 0, 0, 0, 1, 1, &p0, 1); a.ptrSbBlkMetadata = md; a.sbBlkMetadataSize = 2; wr->SyncAddSubBlock(a); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadSubBlock(0); REQUIRE(bytesAre(s, ISubBlock::Data, 1, &p0) && bytesAre(s, ISubBlock::Metadata, 2, md) && bytesAre(s, ISubBlock::Attachment, 0, md), "a sub-block with metadata but no attachment is not read back"); czi_done();
}
FLAG W_W03_parts_attachment(unsigned char p0, unsigned char m0, unsigned char m1) {
    Bytes<8192> mem; unsigned char md[2] = {m0, m1}; { auto wr = mkWriter(mem); auto a = sbInfo(0, 0, 0, 0, 1, 1, &p0, 1); a.ptrSbBlkAttachment = md; a.sbBlkAttachmentSize = 2; wr->SyncAddSubBlock(a); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadSubBlock(0); REQUIRE(bytesAre(s, ISubBlock::Data, 1, &p0) && bytesAre(s, ISubBlock::Attachment, 2, md) && bytesAre(s, ISubBlock::Metadata, 0, md), "a sub-block with an attachment but no metadata is not read back"); czi_done();
}
FLAG W_W03_parts_none() {
    Bytes<8192> mem; { auto wr = mkWriter(mem); AddSubBlockInfo a; a.Clear(); a.PixelType = PixelType::Gray8; a.coordinate.Set(DimensionIndex::C, 0); a.x = 1; a.y = 2; a.logicalWidth = a.physicalWidth = 1; a.logicalHeight = a.physicalHeight = 1; wr->SyncAddSubBlock(a); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadSubBlock(0); REQUIRE(bytesAre(s, ISubBlock::Data, 0, nullptr) && bytesAre(s, ISubBlock::Attachment, 0, nullptr) && bytesAre(s, ISubBlock::Metadata, 0, nullptr), "a sub-block without any data is not read back"); czi_done();
}
FLAG W_W03_strided(unsigned char a, unsigned char b, unsigned char c, unsigned char d, unsigned char gap) {
    Bytes<8192> mem; unsigned char px[8] = {a, b, gap, gap, c, d, gap, gap}, want[4] = {a, b, c, d};
    { auto wr = mkWriter(mem); AddSubBlockInfoStridedBitmap s; s.Clear(); s.PixelType = PixelType::Gray8; s.coordinate.Set(DimensionIndex::C, 0); s.x = s.y = 0; s.logicalWidth = s.physicalWidth = 2; s.logicalHeight = s.physicalHeight = 2; s.ptrBitmap = px; s.strideBitmap = 4; s.ptrSbBlkMetadata = &gap; s.sbBlkMetadataSize = 1; s.ptrSbBlkAttachment = &a; s.sbBlkAttachmentSize = 1; wr->SyncAddSubBlock(s); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadSubBlock(0); REQUIRE(bytesAre(s, ISubBlock::Data, 4, want), "lines of a strided bitmap are not read back"); REQUIRE(bytesAre(s, ISubBlock::Metadata, 1, &gap) && bytesAre(s, ISubBlock::Attachment, 1, &a), "metadata or attachment given with a strided bitmap are not read back"); czi_done();
}
FLAG W_W03_strided16(unsigned char a, unsigned char b, unsigned char c, unsigned char d) {
    Bytes<8192> mem; unsigned char px[7] = {a, b, 1, 2, 3, c, d}, want[4] = {a, b, c, d};
    { auto wr = mkWriter(mem); AddSubBlockInfoStridedBitmap s; s.Clear(); s.PixelType = PixelType::Gray16; s.coordinate.Set(DimensionIndex::C, 0); s.x = s.y = 0; s.logicalWidth = s.physicalWidth = 1; s.logicalHeight = s.physicalHeight = 2; s.ptrBitmap = px; s.strideBitmap = 5; wr->SyncAddSubBlock(s); wr->Close(); }
    auto r = mkReader(mem); REQUIRE(bytesAre(r->ReadSubBlock(0), ISubBlock::Data, 4, want), "lines of a strided bitmap with two bytes per pixel are not read back"); czi_done();
}
FLAG W_W03_linewise(unsigned char a, unsigned char b, unsigned char c, unsigned char d) {
    Bytes<8192> mem; unsigned char l0[2] = {a, b}, l1[2] = {c, d}, want[4] = {a, b, c, d};
    { auto wr = mkWriter(mem); AddSubBlockInfoLinewiseBitmap s; s.Clear(); s.PixelType = PixelType::Gray8; s.coordinate.Set(DimensionIndex::C, 0); s.x = s.y = 0; s.logicalWidth = s.physicalWidth = 2; s.logicalHeight = s.physicalHeight = 2; s.getBitmapLine = [&](int l)->const void* { return l == 0 ? l0 : l1; }; s.ptrSbBlkMetadata = &d; s.sbBlkMetadataSize = 1; s.ptrSbBlkAttachment = &a; s.sbBlkAttachmentSize = 1; wr->SyncAddSubBlock(s); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadSubBlock(0); REQUIRE(bytesAre(s, ISubBlock::Data, 4, want), "lines of a bitmap given line by line are not read back"); REQUIRE(bytesAre(s, ISubBlock::Metadata, 1, &d) && bytesAre(s, ISubBlock::Attachment, 1, &a), "metadata or attachment given with a linewise bitmap are not read back"); czi_done();
}
// data delivered in pieces; data that is not delivered is zero
FLAG W_W03_pieces(unsigned char a, unsigned char b, unsigned char c, unsigned char m) {
    Bytes<8192> mem; unsigned char want[3] = {a, b, c}, wm[2] = {m, 0};
    { auto wr = mkWriter(mem); AddSubBlockInfo s; s.Clear(); s.PixelType = PixelType::Gray8; s.coordinate.Set(DimensionIndex::C, 0); s.x = s.y = 0; s.logicalWidth = s.physicalWidth = 3; s.logicalHeight = s.physicalHeight = 1; s.sizeData = 3; s.getData = [&](int n, size_t off, const void*& p, size_t& sz)->bool { if (n == 0) { p = &a; sz = 1; return true; } if (n == 1) { p = want + 1; sz = 2; return true; } return false; };
      s.sizeMetadata = 2; s.getMetaData = [&](int n, size_t off, const void*& p, size_t& sz)->bool { if (n == 0) { p = &m; sz = 1; return true; } return false; }; wr->SyncAddSubBlock(s); wr->Close(); }
    auto r = mkReader(mem); auto s = r->ReadSubBlock(0); REQUIRE(bytesAre(s, ISubBlock::Data, 3, want), "data delivered in pieces are not read back"); REQUIRE(bytesAre(s, ISubBlock::Metadata, 2, wm), "metadata delivered incompletely are not filled with zeroes"); czi_done();
}
FLAG W_W03_mixed(unsigned char p0, unsigned char d0, char x0) {
    Bytes<8192> mem; { auto wr = mkWriter(mem); wr->SyncAddAttachment(attInfo("one", &d0, 1)); WriteMetadataInfo m; m.Clear(); m.szMetadata = &x0; m.szMetadataSize = 1; wr->SyncWriteMetadata(m); wr->SyncAddSubBlock(sbInfo(0, 10, 20, 0, 1, 1, &p0, 1)); auto a = attInfo("two", &p0, 1); a.contentGuid.Data1 = 8; wr->SyncAddAttachment(a); wr->Close(); }
    auto r = mkReader(mem); REQUIRE(r->GetAttachmentCount() == 2, "attachments of a mixed document are not read back"); int n; findC(r, 0, n); REQUIRE(n == 1 && bytesAre(r->ReadSubBlock(0), ISubBlock::Data, 1, &p0), "sub-block of a mixed document is not read back");
    const void* p; size_t l; auto sg = r->ReadMetadataSegment(); sg->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, l); REQUIRE(l == 1 && *(const char*)p == x0, "metadata of a mixed document are not read back"); czi_done();
}
