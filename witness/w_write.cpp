#include "w_common.h"
// ---- W02: a written segment describes exactly what follows it
static inline std::uint64_t align32(std::uint64_t v) { return (v + 31) / 32 * 32; }
template <class H> static inline CWriterUtils::WriteInfo wi(Recorder<H>& rec, std::uint64_t pos) {
    CWriterUtils::WriteInfo i; i.segmentPos = pos; i.useSpecifiedAllocatedSize = false; i.specifiedAllocatedSize = 0;
    i.writeFunc = [&rec](std::uint64_t o, const void* p, std::uint64_t n, std::uint64_t* d, const char*) { rec.put(o, p, n, d); };
    return i;
}
static inline void parts(AddSubBlockInfo& a, std::uint32_t md, std::uint32_t dt, std::uint32_t at, const char* pm, const char* pd, const char* pa) {
    a.sizeMetadata = md; a.sizeData = dt; a.sizeAttachment = at;
    a.getMetaData = [md, pm](int c, size_t, const void*& p, size_t& n)->bool { if (c) return false; p = pm; n = md; return true; };
    a.getData = [dt, pd](int c, size_t, const void*& p, size_t& n)->bool { if (c) return false; p = pd; n = dt; return true; };
    a.getAttachment = [at, pa](int c, size_t, const void*& p, size_t& n)->bool { if (c) return false; p = pa; n = at; return true; };
}
extern "C" char czi_buf1[], czi_buf2[], czi_buf3[];
template <int EXTRA> static inline void subblock(std::uint64_t pos, std::uint32_t md, std::uint32_t dt, std::uint32_t at) {
    ASSUME(md > 0 && dt > 0 && at > 0 && md < 0x40000000u && dt < 0x40000000u && at < 0x40000000u && pos < (1ull << 60));
    AddSubBlockInfo a; a.Clear(); a.PixelType = PixelType::Gray8; a.mIndexValid = EXTRA > 0; a.mIndex = 3;
    a.coordinate.Set(DimensionIndex::C, 1);
    if (EXTRA > 0) for (int i = (int)DimensionIndex::MinDim; i <= (int)DimensionIndex::MaxDim; ++i) a.coordinate.Set((DimensionIndex)i, i);
    parts(a, md, dt, at, czi_buf1, czi_buf2, czi_buf3);
    Recorder<SubBlockSegment> rec; std::uint64_t ret = CWriterUtils::WriteSubBlock(wi(rec, pos), a);
    const std::uint64_t L = EXTRA > 0 ? 16 + 32 + 20 * 12 : 256;
    auto& f = rec.first;
    REQUIRE(rec.r[0].off == pos && rec.r[0].size == 32 + L, "the fixed part of a sub-block is not written at its position with its size");
    REQUIRE(isId(f.header.Id, "ZISRAWSUBBLOCK"), "a sub-block is not written with its signature");
    REQUIRE(f.header.UsedSize == (std::int64_t)(L + md + dt + at), "used size of a sub-block is not the sum of its parts");
    REQUIRE(f.header.AllocatedSize >= f.header.UsedSize, "allocated size of a sub-block is smaller than its used size");
    REQUIRE(f.data.MetadataSize == (int)md, "metadata size of a sub-block is wrong"); REQUIRE(f.data.DataSize == (std::int64_t)dt, "data size of a sub-block is wrong"); REQUIRE(f.data.AttachmentSize == (int)at, "attachment size of a sub-block is wrong");
    REQUIRE(f.data.entryDV.FilePosition == (std::int64_t)pos, "a sub-block does not carry its own position");
    REQUIRE(rec.r[1].ptr == czi_buf1 && rec.r[1].off == pos + 32 + L && rec.r[1].size == md, "metadata of a sub-block does not follow its fixed part");
    REQUIRE(rec.r[2].ptr == czi_buf2 && rec.r[2].off == pos + 32 + L + md && rec.r[2].size == dt, "pixel data of a sub-block do not follow its metadata");
    REQUIRE(rec.r[3].ptr == czi_buf3 && rec.r[3].off == pos + 32 + L + md + dt && rec.r[3].size == at, "attachment of a sub-block does not follow its pixel data");
    czi_done(); (void)ret;
}
extern "C" void W_W02_subblock(std::uint64_t pos, std::uint32_t md, std::uint32_t dt, std::uint32_t at) { subblock<0>(pos, md, dt, at); }
extern "C" void W_W02_subblock_alldims(std::uint64_t pos, std::uint32_t md, std::uint32_t dt, std::uint32_t at) { subblock<1>(pos, md, dt, at); }
extern "C" void W_W02_attachment(std::uint64_t pos, std::uint32_t n, std::uint32_t g, unsigned char t, unsigned char c) {
    ASSUME(n > 0 && n < 0x40000000u && pos < (1ull << 60));
    AddAttachmentInfo a; std::memset(&a, 0, sizeof(a)); a.contentGuid.Data1 = g; a.contentFileType[7] = t; a.name[79] = c; a.ptrData = czi_buf1; a.dataSize = n;
    Recorder<AttachmentSegment> rec; CWriterUtils::WriteAttachment(wi(rec, pos), a); auto& f = rec.first;
    REQUIRE(rec.r[0].off == pos && rec.r[0].size == 288, "the fixed part of an attachment is not written at its position with its size");
    REQUIRE(isId(f.header.Id, "ZISRAWATTACH"), "an attachment is not written with its signature");
    REQUIRE(f.header.UsedSize == 256 + (std::int64_t)n, "used size of an attachment is not the sum of its parts"); REQUIRE(f.header.AllocatedSize >= f.header.UsedSize, "allocated size of an attachment is smaller than its used size");
    REQUIRE(f.data.DataSize == (std::int64_t)n, "data size of an attachment is wrong");
    REQUIRE(f.data.entry.SchemaType[0] == 'A' && f.data.entry.SchemaType[1] == '1' && f.data.entry.FilePosition == (std::int64_t)pos && f.data.entry.FilePart == 0 && f.data.entry.ContentGuid.Data1 == g && f.data.entry.ContentFileType[7] == t && f.data.entry.Name[79] == c, "the entry inside an attachment does not describe it");
    REQUIRE(rec.r[1].ptr == czi_buf1 && rec.r[1].off == pos + 288 && rec.r[1].size == n, "data of an attachment do not follow its fixed part");
    czi_done();
}
template <class I, class H> static inline I di(Recorder<H>& rec, std::uint64_t oldPos, std::uint64_t oldSize, std::uint64_t newPos, bool mark) {
    I i; i.markAsDeletedIfExistingSegmentIsNotUsed = mark; i.existingSegmentPos = oldPos; i.sizeExistingSegmentPos = oldSize; i.segmentPosForNewSegment = newPos;
    i.writeFunc = [&rec](std::uint64_t o, const void* p, std::uint64_t n, std::uint64_t* d, const char*) { rec.put(o, p, n, d); };
    return i;
}
extern "C" void W_W02_metadata(std::uint64_t pos, std::uint32_t x, std::uint32_t at) {
    ASSUME(x > 0 && at > 0 && x < 0x40000000u && at < 0x40000000u && pos > 0 && pos < (1ull << 60));
    WriteMetadataInfo m; m.Clear(); m.szMetadata = czi_buf1; m.szMetadataSize = x; m.ptrAttachment = czi_buf2; m.attachmentSize = at;
    Recorder<MetadataSegment> rec; auto t = CWriterUtils::WriteMetadata(di<CWriterUtils::MetadataWriteInfo>(rec, 0, 0, pos, false), m); auto& f = rec.first;
    REQUIRE(rec.r[0].off == pos && rec.r[0].size == 288, "the fixed part of the metadata is not written at its position with its size");
    REQUIRE(isId(f.header.Id, "ZISRAWMETADATA"), "the metadata are not written with their signature");
    REQUIRE(f.header.UsedSize == 256 + (std::int64_t)x + at, "used size of the metadata is not the sum of its parts"); REQUIRE(f.header.AllocatedSize >= f.header.UsedSize, "allocated size of the metadata is smaller than its used size");
    REQUIRE(f.data.XmlSize == (int)x && f.data.AttachmentSize == (int)at, "sizes of the metadata parts are wrong");
    REQUIRE(rec.r[1].ptr == czi_buf1 && rec.r[1].off == pos + 288 && rec.r[1].size == x, "XML does not follow the fixed part of the metadata");
    REQUIRE(rec.r[2].ptr == czi_buf2 && rec.r[2].off == pos + 288 + x && rec.r[2].size == at, "metadata attachment does not follow the XML");
    REQUIRE(std::get<0>(t) == pos && (std::int64_t)std::get<1>(t) == f.header.AllocatedSize, "reported position or size of the metadata is wrong");
    czi_done();
}
