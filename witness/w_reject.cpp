#include "w_flow.h"
// ---- W06: requests which contradict the document or the announced bounds are rejected, all others accepted
#define FAILS(call, what) do { bool ok = true; try { call; } catch (...) { ok = false; } REQUIRE(ok, what); } while (0)
extern "C" void W_W06_duplicate(int c, int m, unsigned char p) {
    ASSUME(m >= 0); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(c, 1, 2, m, 1, 1, &p, 1)); REJECTS(w->SyncAddSubBlock(sbInfo(c, 5, 6, m, 1, 1, &p, 1)), "a second sub-block with the same coordinate and M-index is accepted"); REQUIRE(w->GetStatistics().subBlockCount == 1, "a rejected sub-block is counted"); czi_done();
}
extern "C" void W_W06_duplicate_rw(int c, int m, unsigned char p) {
    ASSUME(m >= 0); czi_exceptions(); Bytes<8192> mem; auto w = mkRw(mem); w->SyncAddSubBlock(sbInfo(c, 1, 2, m, 1, 1, &p, 1)); REJECTS(w->SyncAddSubBlock(sbInfo(c, 5, 6, m, 1, 1, &p, 1)), "a second sub-block with the same coordinate and M-index is accepted by an editor"); REQUIRE(w->GetStatistics().subBlockCount == 1, "a rejected sub-block is counted by an editor"); czi_done();
}
extern "C" void W_W06_duplicate_pos(int x, int y, unsigned char p) {
    czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); auto a = sbInfo(3, x, y, 0, 1, 1, &p, 1); a.mIndexValid = false; w->SyncAddSubBlock(a); REJECTS(w->SyncAddSubBlock(a), "a second sub-block with the same coordinate and position (and no M-index) is accepted"); czi_done();
}
extern "C" void W_W06_other_pos_less(int x, int y, int d, unsigned char p) {
    ASSUME(d < x); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); auto a = sbInfo(3, x, y, 0, 1, 1, &p, 1); a.mIndexValid = false; w->SyncAddSubBlock(a); a.x = d; FAILS(w->SyncAddSubBlock(a), "a sub-block at another position (and no M-index) is rejected"); REJECTS(w->SyncAddSubBlock(a), "a sub-block with the same coordinate and position (and no M-index) as an earlier one is accepted"); czi_done();
}
extern "C" void W_W06_other_pos_greater(int x, int y, int d, unsigned char p) {
    ASSUME(d > x); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); auto a = sbInfo(3, x, y, 0, 1, 1, &p, 1); a.mIndexValid = false; w->SyncAddSubBlock(a); a.x = d; FAILS(w->SyncAddSubBlock(a), "a sub-block at another position (and no M-index) is rejected"); REJECTS(w->SyncAddSubBlock(a), "a sub-block with the same coordinate and position (and no M-index) as an earlier one is accepted"); czi_done();
}
extern "C" void W_W06_other_c_less(int c, int c2, unsigned char p) { ASSUME(c2 < c); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(c, 1, 2, 0, 1, 1, &p, 1)); FAILS(w->SyncAddSubBlock(sbInfo(c2, 1, 2, 0, 1, 1, &p, 1)), "a sub-block on another plane is rejected"); czi_done(); }
extern "C" void W_W06_other_c_greater(int c, int c2, unsigned char p) { ASSUME(c2 > c); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(c, 1, 2, 0, 1, 1, &p, 1)); FAILS(w->SyncAddSubBlock(sbInfo(c2, 1, 2, 0, 1, 1, &p, 1)), "a sub-block on another plane is rejected"); czi_done(); }
extern "C" void W_W06_other_m_less(int m, int m2, unsigned char p) { ASSUME(m2 < m && m2 >= 0); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(0, 1, 2, m, 1, 1, &p, 1)); FAILS(w->SyncAddSubBlock(sbInfo(0, 1, 2, m2, 1, 1, &p, 1)), "a sub-block with another M-index is rejected"); czi_done(); }
extern "C" void W_W06_other_m_greater(int m, int m2, unsigned char p) { ASSUME(m2 > m && m >= 0); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(0, 1, 2, m, 1, 1, &p, 1)); FAILS(w->SyncAddSubBlock(sbInfo(0, 1, 2, m2, 1, 1, &p, 1)), "a sub-block with another M-index is rejected"); czi_done(); }
extern "C" void W_W06_other_m_rw(int m, int m2, unsigned char p) { ASSUME(m != m2 && m >= 0 && m2 >= 0); czi_exceptions(); Bytes<8192> mem; auto w = mkRw(mem); w->SyncAddSubBlock(sbInfo(0, 1, 2, m, 1, 1, &p, 1)); FAILS(w->SyncAddSubBlock(sbInfo(0, 1, 2, m2, 1, 1, &p, 1)), "a sub-block with another M-index is rejected by an editor"); czi_done(); }
extern "C" void W_W06_other_layer(int c, unsigned char p) { czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(c, 1, 2, 0, 4, 4, &p, 1)); auto a = sbInfo(c, 1, 2, 0, 4, 4, &p, 1); a.physicalWidth = a.physicalHeight = 2; FAILS(w->SyncAddSubBlock(a), "a sub-block on another pyramid layer is rejected"); czi_done(); }
extern "C" void W_W06_allowed(int c, unsigned char p, unsigned char q) {
    czi_exceptions(); Bytes<8192> mem; CZIWriterOptions o; o.allow_duplicate_subblocks = true; auto w = libCZI::CreateCZIWriter(&o); w->Create(std::make_shared<Out<8192>>(&mem), wrInfo()); w->SyncAddSubBlock(sbInfo(c, 1, 2, 0, 1, 1, &p, 1)); FAILS(w->SyncAddSubBlock(sbInfo(c, 1, 2, 0, 1, 1, &q, 1)), "a duplicate is rejected although duplicates are allowed"); w->Close();
    auto r = mkReader(mem); int n; findC(r, c, n); REQUIRE(n == 2, "an allowed duplicate is not read back"); czi_done();
}
extern "C" void W_W06_duplicate_attachment(unsigned char d, unsigned g) {
    czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); auto a = attInfo("one", &d, 1); a.contentGuid.Data1 = g; w->SyncAddAttachment(a); REJECTS(w->SyncAddAttachment(a), "a second attachment with the same identification is accepted"); czi_done();
}
extern "C" void W_W06_other_attachment(unsigned char d, unsigned g, unsigned g2) {
    ASSUME(g != g2); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); auto a = attInfo("one", &d, 1); a.contentGuid.Data1 = g; w->SyncAddAttachment(a); a.contentGuid.Data1 = g2; FAILS(w->SyncAddAttachment(a), "an attachment with another GUID is rejected"); czi_done();
}
static inline std::shared_ptr<CCziWriterInfo> bounded(int start, int size, int m0, int m1) { CDimBounds b; b.Set(DimensionIndex::C, start, size); return std::make_shared<CCziWriterInfo>(GUID{1,2,3,{4,5,6,7,8,9,10,11}}, b, m0, m1); }
extern "C" void W_W06_bounds(int c, int start, int size, unsigned char p) {
    ASSUME(start > -0x10000000 && start < 0x10000000 && size > 0 && size < 0x10000000); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem, bounded(start, size, 0, 5)); bool ok = true; try { w->SyncAddSubBlock(sbInfo(c, 1, 2, 0, 1, 1, &p, 1)); } catch (...) { ok = false; }
    REQUIRE(!ok || (c >= start && c < start + size), "a coordinate outside the announced bounds is accepted"); REQUIRE(ok || c < start || c >= start + size, "a coordinate inside the announced bounds is rejected"); czi_done();
}
extern "C" void W_W06_bounds_m(int m, int lo, int hi, unsigned char p) {
    ASSUME(lo >= 0 && lo <= hi && m >= 0); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem, bounded(0, 3, lo, hi)); bool ok = true; try { w->SyncAddSubBlock(sbInfo(1, 1, 2, m, 1, 1, &p, 1)); } catch (...) { ok = false; }
    REQUIRE(!ok || (m >= lo && m <= hi), "an M-index outside the announced bounds is accepted"); REQUIRE(ok || m < lo || m > hi, "an M-index inside the announced bounds is rejected"); czi_done();
}
extern "C" void W_W06_bounds_missing(unsigned char p) { czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem, bounded(0, 3, 0, 5)); auto a = sbInfo(1, 1, 2, 0, 1, 1, &p, 1); a.coordinate.Clear(); REJECTS(w->SyncAddSubBlock(a), "a coordinate without an announced dimension is accepted"); a.coordinate.Set(DimensionIndex::T, 0); REJECTS(w->SyncAddSubBlock(a), "a coordinate without an announced dimension is accepted"); czi_done(); }
extern "C" void W_W06_bounds_unexpected(int t, unsigned char p) { czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem, bounded(0, 3, 0, 5)); auto a = sbInfo(1, 1, 2, 0, 1, 1, &p, 1); a.coordinate.Set(DimensionIndex::T, t); REJECTS(w->SyncAddSubBlock(a), "a coordinate with a dimension that was not announced is accepted"); czi_done(); }
extern "C" void W_W06_bounds_no_m(unsigned char p) { czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem, bounded(0, 3, 0, 5)); auto a = sbInfo(1, 1, 2, 0, 1, 1, &p, 1); a.mIndexValid = false; REJECTS(w->SyncAddSubBlock(a), "a sub-block without M-index is accepted although M-indices were announced"); czi_done(); }
template <class W> static inline void badArgs(W& w, int neg, unsigned n, const unsigned char* p) {
    AddSubBlockInfo a; a.Clear(); a.PixelType = PixelType::Gray8; a.coordinate.Set(DimensionIndex::C, 0); a.x = a.y = 0; a.logicalWidth = a.logicalHeight = a.physicalWidth = a.physicalHeight = 1;
    { auto b = a; b.sizeData = n; REJECTS(w->SyncAddSubBlock(b), "pixel data without a source are accepted"); } { auto b = a; b.sizeMetadata = n; REJECTS(w->SyncAddSubBlock(b), "sub-block metadata without a source are accepted"); } { auto b = a; b.sizeAttachment = n; REJECTS(w->SyncAddSubBlock(b), "a sub-block attachment without a source is accepted"); }
    { auto b = a; b.logicalWidth = neg; REJECTS(w->SyncAddSubBlock(b), "a negative width is accepted"); } { auto b = a; b.logicalHeight = neg; REJECTS(w->SyncAddSubBlock(b), "a negative height is accepted"); } { auto b = a; b.physicalWidth = neg; REJECTS(w->SyncAddSubBlock(b), "a negative stored width is accepted"); } { auto b = a; b.physicalHeight = neg; REJECTS(w->SyncAddSubBlock(b), "a negative stored height is accepted"); }
    { auto b = a; b.SetCompressionMode(CompressionMode::Invalid); REJECTS(w->SyncAddSubBlock(b), "an invalid compression is accepted"); }
    AddAttachmentInfo t = attInfo("one", nullptr, n); REJECTS(w->SyncAddAttachment(t), "an attachment without data is accepted");
    WriteMetadataInfo m; m.Clear(); m.szMetadataSize = n; REJECTS(w->SyncWriteMetadata(m), "metadata without data are accepted"); m.Clear(); m.attachmentSize = n; REJECTS(w->SyncWriteMetadata(m), "a metadata attachment without data is accepted");
    REQUIRE(w->GetStatistics().subBlockCount == 0, "a rejected sub-block is counted");
}
extern "C" void W_W06_arguments(int neg, unsigned n, unsigned char p) { ASSUME(neg < 0 && n > 0); czi_exceptions(); Bytes<8192> mem; auto w = mkWriter(mem); badArgs(w, neg, n, &p); czi_done(); }
extern "C" void W_W06_arguments_rw(int neg, unsigned n, unsigned char p) { ASSUME(neg < 0 && n > 0); czi_exceptions(); Bytes<8192> mem; auto w = mkRw(mem); badArgs(w, neg, n, &p); czi_done(); }
#define NOINDEX(N, COND) \
extern "C" void W_W06_no_remove_##N(int i, unsigned char p) { ASSUME(COND); czi_exceptions(); Bytes<8192> mem; auto w = mkRw(mem); w->SyncAddSubBlock(sbInfo(0, 1, 2, 0, 1, 1, &p, 1)); w->SyncAddAttachment(attInfo("one", &p, 1)); REJECTS(w->RemoveSubBlock(i), "a sub-block that does not exist can be removed"); REJECTS(w->RemoveAttachment(i), "an attachment that does not exist can be removed"); czi_done(); } \
extern "C" void W_W06_no_replace_##N(int i, unsigned char p) { ASSUME(COND); czi_exceptions(); Bytes<8192> mem; auto w = mkRw(mem); w->SyncAddSubBlock(sbInfo(0, 1, 2, 0, 1, 1, &p, 1)); REJECTS(w->ReplaceSubBlock(i, sbInfo(1, 1, 2, 0, 1, 1, &p, 1)), "a sub-block that does not exist can be replaced"); czi_done(); } \
extern "C" void W_W06_no_replace_att_##N(int i, unsigned char p) { ASSUME(COND); czi_exceptions(); Bytes<8192> mem; auto w = mkRw(mem); w->SyncAddAttachment(attInfo("one", &p, 1)); REJECTS(w->ReplaceAttachment(i, attInfo("one", &p, 1)), "an attachment that does not exist can be replaced"); czi_done(); } \
extern "C" void W_W06_no_query_##N(int i, unsigned char p) { ASSUME(COND); czi_exceptions(); Bytes<8192> mem; auto w = mkRw(mem); w->SyncAddSubBlock(sbInfo(0, 1, 2, 0, 1, 1, &p, 1)); SubBlockInfo inf; REQUIRE(!w->TryGetSubBlockInfo(i, &inf), "information about a sub-block that does not exist is given"); REQUIRE(!w->ReadSubBlock(i), "a sub-block that does not exist is read"); REQUIRE(!w->ReadAttachment(i), "an attachment that does not exist is read"); czi_done(); }
NOINDEX(negative, i < 0) NOINDEX(beyond, i > 0)
extern "C" void W_W06_reader_no_such_index(int i, unsigned char p) {
    ASSUME(i != 0); czi_exceptions(); Bytes<8192> mem; { auto w = mkWriter(mem); w->SyncAddSubBlock(sbInfo(0, 1, 2, 0, 1, 1, &p, 1)); w->SyncAddAttachment(attInfo("one", &p, 1)); w->Close(); } auto r = mkReader(mem);
    SubBlockInfo inf; REQUIRE(!r->TryGetSubBlockInfo(i, &inf), "information about a sub-block that does not exist is given"); REQUIRE(!r->ReadSubBlock(i), "a sub-block that does not exist is read"); REQUIRE(!r->ReadAttachment(i), "an attachment that does not exist is read"); AttachmentInfo ai; REQUIRE(!r->TryGetAttachmentInfo(i, &ai), "information about an attachment that does not exist is given"); REQUIRE(r->TryGetSubBlockInfo(0, &inf), "information about an existing sub-block is not given"); czi_done();
}
