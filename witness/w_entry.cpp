#include "w_common.h"
// ---- F04: what a directory entry says is what was stored, for every value
extern "C" void W_F04_write_fixed(int x, int y, int w, int h, int sw, int sh, int m, int px, std::uint64_t pos, int comp, unsigned char pyr) {
    ASSUME(m != std::numeric_limits<int>::min());
    Entry e = mkEntry(x, y, w, h, sw, sh, m, px, pos, comp, pyr);
    SubBlockDirectoryEntryDV d; size_t n = CWriterUtils::FillSubBlockDirectoryEntryDV(&d, e);
    REQUIRE(d.SchemaType[0] == 'D' && d.SchemaType[1] == 'V', "directory entry is not written with the schema DV");
    REQUIRE(d.PixelType == px, "pixel type of the directory entry is not the one of the sub-block");
    REQUIRE(d.FilePosition == (std::int64_t)pos, "file position of the directory entry is not the one of the sub-block");
    REQUIRE(d.FilePart == 0, "file part of the directory entry is not zero");
    REQUIRE(d.Compression == comp, "compression of the directory entry is not the one of the sub-block");
    REQUIRE(d._spare[0] == pyr, "pyramid type of the directory entry is not the one of the sub-block");
    REQUIRE(d.DimensionCount == 3, "number of dimension entries is wrong");
    REQUIRE(n == 32 + 20 * 3, "size of the directory entry is wrong");
    auto X = findDim(d, 'X'), Y = findDim(d, 'Y'), M = findDim(d, 'M');
    REQUIRE(X && X->Start == x && X->Size == w && X->StoredSize == sw, "X entry does not carry x, width and stored width");
    REQUIRE(Y && Y->Start == y && Y->Size == h && Y->StoredSize == sh, "Y entry does not carry y, height and stored height");
    REQUIRE(M && M->Start == m && M->Size == 1, "M entry does not carry the M-index");
    czi_done();
}

#define ONEDIM(L) \
extern "C" void W_F04_write_dim_##L(int v) { \
    Entry e = mkEntry(1, 2, 3, 4, 5, 6, std::numeric_limits<int>::min(), 0, 0, 0, 0); e.coordinate.Set(DimensionIndex::L, v); \
    SubBlockDirectoryEntryDV d; size_t n = CWriterUtils::FillSubBlockDirectoryEntryDV(&d, e); \
    auto D = findDim(d, #L[0], 3); \
    REQUIRE(d.DimensionCount == 3 && n == 32 + 20 * 3, "size of a directory entry with dimension " #L " is wrong"); \
    REQUIRE(D && D->Start == v && D->Size == 1 && D->Dimension[1] == 0, "directory entry does not carry the coordinate of dimension " #L); \
    REQUIRE(!findDim(d, 'M', 3), "directory entry of a sub-block without M-index has one"); \
    czi_done(); } \
extern "C" void W_F04_parse_dim_##L(int v) { \
    SubBlockDirectoryEntryDV d; std::memset(&d, 0, 32 + 3 * 20); d.DimensionCount = 3; d.DimensionEntries[0].Dimension[0] = 'X'; d.DimensionEntries[1].Dimension[0] = 'Y'; \
    d.DimensionEntries[2].Dimension[0] = #L[0]; d.DimensionEntries[2].Start = v; d.DimensionEntries[2].Size = 1; \
    Entry out; int cnt = 0; CCZIParse::AddEntryToSubBlockDirectory(&d, [&](const Entry& e)->void { out = e; ++cnt; }, CCZIParse::SubblockDirectoryParseOptions()); \
    int g = 0; REQUIRE(cnt == 1, "a directory entry is not reported exactly once"); \
    REQUIRE(out.coordinate.TryGetPosition(DimensionIndex::L, &g) && g == v, "coordinate of dimension " #L " is not taken from the directory entry"); \
    REQUIRE(out.coordinate.GetNumberOfValidDimensions() == 1, "a dimension appears that the directory entry does not have"); \
    REQUIRE(!out.IsMIndexValid(), "an M-index appears that the directory entry does not have"); \
    czi_done(); } \
extern "C" void W_F04_seg_dim_##L(int v) { \
    AddSubBlockInfo a; a.Clear(); a.coordinate.Set(DimensionIndex::L, v); SubBlockDirectoryEntryDV d; CWriterUtils::FillSubBlockDirectoryEntryDv(a, &d); \
    auto D = findDim(d, #L[0], 3); \
    REQUIRE(d.DimensionCount == 3, "number of dimension entries in the sub-block is wrong"); \
    REQUIRE(D && D->Start == v && D->Size == 1 && D->Dimension[1] == 0, "the sub-block does not carry the coordinate of dimension " #L); \
    czi_done(); }
ONEDIM(Z) ONEDIM(C) ONEDIM(T) ONEDIM(R) ONEDIM(S) ONEDIM(I) ONEDIM(H) ONEDIM(V) ONEDIM(B)
static inline void setDim(DimensionEntryDV& e, char c, int start, int size, int stored) { e.Dimension[0] = c; e.Dimension[1] = e.Dimension[2] = e.Dimension[3] = 0; e.Start = start; e.Size = size; e.StoredSize = stored; e.StartCoordinate = 0; }
extern "C" void W_F04_parse_fixed(int x, int y, int w, int h, int sw, int sh, int m, int px, std::uint64_t pos, int comp, unsigned char pyr) {
    SubBlockDirectoryEntryDV d; std::memset(&d, 0, 32); d.DimensionCount = 3; d.PixelType = px; d.FilePosition = pos; d.Compression = comp; d._spare[0] = pyr;
    setDim(d.DimensionEntries[0], 'X', x, w, sw); setDim(d.DimensionEntries[1], 'Y', y, h, sh); setDim(d.DimensionEntries[2], 'M', m, 1, 1);
    Entry out; int cnt = 0; CCZIParse::AddEntryToSubBlockDirectory(&d, [&](const Entry& e)->void { out = e; ++cnt; }, CCZIParse::SubblockDirectoryParseOptions());
    REQUIRE(cnt == 1, "a directory entry is not reported exactly once");
    REQUIRE(out.x == x && out.width == w && out.storedWidth == sw, "x, width or stored width is not taken from the X entry");
    REQUIRE(out.y == y && out.height == h && out.storedHeight == sh, "y, height or stored height is not taken from the Y entry");
    REQUIRE(out.mIndex == m, "M-index is not taken from the M entry");
    REQUIRE(out.PixelType == px, "pixel type is not taken from the directory entry"); REQUIRE(out.FilePosition == pos, "file position is not taken from the directory entry");
    REQUIRE(out.Compression == comp, "compression is not taken from the directory entry"); REQUIRE(out.pyramid_type_from_spare == pyr, "pyramid type is not taken from the directory entry");
    czi_done();
}
// a request to add a sub-block -> directory entry
extern "C" void W_F04_request(int x, int y, int w, int h, int sw, int sh, int m, int comp) {
    AddSubBlockInfo a; a.Clear(); a.x = x; a.y = y; a.logicalWidth = w; a.logicalHeight = h; a.physicalWidth = sw; a.physicalHeight = sh; a.mIndexValid = true; a.mIndex = m; a.PixelType = PixelType::Bgr48; a.compressionModeRaw = comp; a.pyramid_type = SubBlockPyramidType::MultiSubBlock;
    Entry e = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(a);
    REQUIRE(e.x == x && e.y == y && e.width == w && e.height == h && e.storedWidth == sw && e.storedHeight == sh, "rectangle or stored size of the directory entry is not the requested one");
    REQUIRE(e.mIndex == m, "M-index of the directory entry is not the requested one"); REQUIRE(e.PixelType == 4, "pixel type of the directory entry is not the requested one");
    REQUIRE(e.Compression == comp, "compression of the directory entry is not the requested one"); REQUIRE(e.pyramid_type_from_spare == 2, "pyramid type of the directory entry is not the requested one");
    czi_done();
}
extern "C" void W_F04_request_nom(int m, int c, int s) {
    AddSubBlockInfo a; a.Clear(); a.mIndexValid = false; a.mIndex = m; a.coordinate.Set(DimensionIndex::C, c); a.coordinate.Set(DimensionIndex::S, s);
    Entry e = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(a); int v = 0;
    REQUIRE(!e.IsMIndexValid(), "directory entry gets an M-index although none was given");
    REQUIRE(e.coordinate.TryGetPosition(DimensionIndex::C, &v) && v == c, "coordinate C of the request is lost"); REQUIRE(e.coordinate.TryGetPosition(DimensionIndex::S, &v) && v == s, "coordinate S of the request is lost");
    REQUIRE(e.coordinate.GetNumberOfValidDimensions() == 2, "directory entry has dimensions that were not requested");
    czi_done();
}
extern "C" void W_F04_segment(int x, int y, int w, int h, int sw, int sh, int m, int comp) {
    AddSubBlockInfo a; a.Clear(); a.x = x; a.y = y; a.logicalWidth = w; a.logicalHeight = h; a.physicalWidth = sw; a.physicalHeight = sh; a.mIndexValid = true; a.mIndex = m; a.PixelType = PixelType::Bgr48; a.compressionModeRaw = comp; a.pyramid_type = SubBlockPyramidType::SingleSubBlock;
    SubBlockDirectoryEntryDV d; CWriterUtils::FillSubBlockDirectoryEntryDv(a, &d);
    auto X = findDim(d, 'X', 3), Y = findDim(d, 'Y', 3), M = findDim(d, 'M', 3);
    REQUIRE(d.SchemaType[0] == 'D' && d.SchemaType[1] == 'V' && d.PixelType == 4 && d.Compression == comp && d._spare[0] == 1 && d.DimensionCount == 3, "entry inside the sub-block does not carry the requested pixel type, compression or pyramid type");
    REQUIRE(X && X->Start == x && X->Size == w && X->StoredSize == sw, "X entry inside the sub-block does not carry x, width and stored width");
    REQUIRE(Y && Y->Start == y && Y->Size == h && Y->StoredSize == sh, "Y entry inside the sub-block does not carry y, height and stored height");
    REQUIRE(M && M->Start == m && M->Size == 1, "M entry inside the sub-block does not carry the M-index");
    czi_done();
}
// attachments
extern "C" void W_F04_attachment(std::uint32_t d1, std::uint16_t d2, std::uint16_t d3, unsigned char d40, unsigned char d47, unsigned char t0, unsigned char t7, unsigned char n0, unsigned char n79) {
    AddAttachmentInfo a; std::memset(&a, 0, sizeof(a)); a.contentGuid.Data1 = d1; a.contentGuid.Data2 = d2; a.contentGuid.Data3 = d3; a.contentGuid.Data4[0] = d40; a.contentGuid.Data4[7] = d47; a.contentFileType[0] = t0; a.contentFileType[7] = t7; a.name[0] = n0; a.name[79] = n79;
    auto e = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(a);
    REQUIRE(e.ContentGuid.Data1 == d1 && e.ContentGuid.Data2 == d2 && e.ContentGuid.Data3 == d3 && e.ContentGuid.Data4[0] == d40 && e.ContentGuid.Data4[7] == d47, "attachment's GUID is not taken over");
    REQUIRE((unsigned char)e.ContentFileType[0] == t0 && (unsigned char)e.ContentFileType[7] == t7, "attachment's file type is not taken over"); REQUIRE((unsigned char)e.Name[0] == n0 && (unsigned char)e.Name[79] == n79, "attachment's name is not taken over");
    czi_done();
}
