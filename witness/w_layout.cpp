#include "w_flow.h"
// ---- R06: a document laid out as the file format prescribes is read with exactly its content, wherever its segments lie
typedef std::uint64_t U64;
template <U64 D, U64 S, U64 S2, U64 A, U64 T, U64 M> struct Far {   // positions of directory, two sub-blocks, attachment directory, attachment, metadata
    unsigned char h[544], d[32 + 128 + 2 * 300], s[700], s2[700], a[32 + 256 + 256], t[400], x[400];
    static void p32(unsigned char* o, std::uint32_t v) { std::memcpy(o, &v, 4); } static void p64(unsigned char* o, U64 v) { std::memcpy(o, &v, 8); }
    static void seg(unsigned char* o, const char* id, unsigned n, U64 alloc, U64 used) { std::memcpy(o, id, n); p64(o + 16, alloc); p64(o + 24, used); }
    static void dim(unsigned char* o, char c, std::uint32_t start, std::uint32_t size, std::uint32_t stored) { o[0] = c; p32(o + 4, start); p32(o + 8, size); p32(o + 16, stored); }
    static void entry(unsigned char* o, U64 pos, std::uint32_t pt, int n) { o[0] = 'D'; o[1] = 'V'; p32(o + 2, pt); p64(o + 6, pos); p32(o + 28, n); }
    static void clear(unsigned char* p, unsigned n) { for (unsigned i = 0; i < n; ++i) p[i] = 0; }
    void attEntry(unsigned char* o, U64 pos) { o[0] = 'A'; o[1] = '1'; p64(o + 12, pos); p32(o + 20, 0); for (int i = 0; i < 16; ++i) o[24 + i] = 0; o[24] = 9; std::memcpy(o + 40, "ABC", 3); std::memcpy(o + 48, "name", 4); }
    Far() {
        std::memset(h, 0, sizeof h); std::memset(d, 0, sizeof d); std::memset(s, 0, sizeof s); std::memset(s2, 0, sizeof s2); std::memset(a, 0, sizeof a); std::memset(t, 0, sizeof t); std::memset(x, 0, sizeof x);
        seg(h, "ZISRAWFILE", 10, 512, 512); p32(h + 32, 1); p32(h + 36, 7); p64(h + 84, D); p64(h + 92, M); p64(h + 104, A);
        seg(d, "ZISRAWDIRECTORY", 15, 128 + 112 + 92 + 64, 128 + 112 + 92); p32(d + 32, 2);
        unsigned char* e = d + 160; entry(e, S, 0, 4); dim(e + 32, 'X', 10, 2, 2); dim(e + 52, 'Y', 20, 1, 1); dim(e + 72, 'C', 3, 1, 1); dim(e + 92, 'M', 5, 1, 1); std::memcpy(s + 48, e, 112);
        e += 112; entry(e, S2, 1, 3); dim(e + 32, 'T', 4, 1, 1); dim(e + 52, 'Y', 21, 1, 1); dim(e + 72, 'X', 11, 1, 1); std::memcpy(s2 + 48, e, 92);
        seg(s, "ZISRAWSUBBLOCK", 14, 256 + 6, 256 + 6); p32(s + 32, 1); p32(s + 36, 3); p64(s + 40, 2); seg(s2, "ZISRAWSUBBLOCK", 14, 256 + 2, 256 + 2); p64(s2 + 40, 2);
        seg(a, "ZISRAWATTDIR", 12, 256 + 128, 256 + 128); p32(a + 32, 1); attEntry(a + 288, T);
        seg(t, "ZISRAWATTACH", 12, 256 + 2, 256 + 2); p64(t + 32, 2); attEntry(t + 48, T);
        seg(x, "ZISRAWMETADATA", 14, 256 + 5, 256 + 5); p32(x + 32, 3); p32(x + 36, 2);
    }
};
template <class F, U64 D, U64 S, U64 S2, U64 A, U64 T, U64 M> struct FarIn : IInputOutputStream {
    F* f; int writes = 0, dels = 0; U64 wmin = ~0ull, dpos = 0, wpos = 0, wsize = 0; unsigned char w[8]; FarIn(F* f) : f(f) {}
    static bool part(U64 offset, U64 base, const unsigned char* b, U64 n, void* pv, U64 size, U64* done) { if (offset < base || offset >= base + n) return false; U64 k = size; if (k > base + n - offset) k = base + n - offset; std::memcpy(pv, b + (offset - base), k); if (done) *done = k; return true; }
    void Read(U64 o, void* pv, U64 z, U64* done) override { if (part(o, 0, f->h, sizeof f->h, pv, z, done) || part(o, D, f->d, sizeof f->d, pv, z, done) || part(o, S, f->s, sizeof f->s, pv, z, done) || part(o, S2, f->s2, sizeof f->s2, pv, z, done) || part(o, A, f->a, sizeof f->a, pv, z, done) || part(o, T, f->t, sizeof f->t, pv, z, done) || part(o, M, f->x, sizeof f->x, pv, z, done)) return; if (done) *done = 0; }
    void Write(U64 o, const void* pv, U64 z, U64* done) override { ++writes; wpos = o; wsize = z; if (o < wmin) wmin = o; if (z >= 8) { std::memcpy(w, pv, 8); if (z <= 32 && w[0] == 'D' && w[6] == 'D') { ++dels; dpos = o; } } if (done) *done = z; }
    bool deleted(U64 at) const { return writes == 1 && wpos == at && wsize >= 16 && wsize <= 32 && w[0] == 'D' && w[1] == 'E' && w[2] == 'L' && w[3] == 'E' && w[4] == 'T' && w[5] == 'E' && w[6] == 'D' && w[7] == 0; }
};
template <U64 D, U64 S, U64 S2, U64 A, U64 T, U64 M> struct Where { typedef Far<D, S, S2, A, T, M> Doc; typedef FarIn<Doc, D, S, S2, A, T, M> Str; static const U64 posS = S, posS2 = S2, posT = T;
    static std::shared_ptr<ICZIReader> reader(Doc& d) { auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<Str>(&d), nullptr); return r; }
    static std::shared_ptr<ICziReaderWriter> rw(const std::shared_ptr<Str>& s) { auto r = libCZI::CreateCZIReaderWriter(); auto i = std::make_shared<CCziReaderWriterInfo>(); r->Create(s, i); return r; }
    static std::shared_ptr<ICziReaderWriter> rw(Doc& d) { auto r = libCZI::CreateCZIReaderWriter(); auto i = std::make_shared<CCziReaderWriterInfo>(); r->Create(std::make_shared<Str>(&d), i); return r; }
};
typedef Where<0x220, 0x1000, 0x2000, 0x3000, 0x4000, 0x5000> Near; typedef Where<0x140000000ull, 0x80000000ull, 0x100000000ull, 0x17fffffe0ull, 0x200000020ull, 0x1000000000000ull> Big; typedef Where<0x7000000000000000ull, 0x3fffffffffffffe0ull, 0x220, 0xffffffe0ull, 0x5000000000000000ull, 0x80000000ull> Huge; typedef Where<0x3000, 0x2000, 0x1000, 0x220, 0x800, 0x600> Reverse;
template <class R> static inline void subblocks(const R& r) {
    int n = 0, g = 0; SubBlockInfo i[2]; r->EnumerateSubBlocks([&](int k, const SubBlockInfo& f)->bool { if (k >= 0 && k < 2) i[k] = f; ++n; return true; }); REQUIRE(n == 2, "not all sub-blocks of the directory are listed");
    REQUIRE(i[0].logicalRect.x == 10 && i[0].logicalRect.y == 20 && i[0].logicalRect.w == 2 && i[0].logicalRect.h == 1 && i[0].mIndex == 5 && i[0].coordinate.TryGetPosition(DimensionIndex::C, &g) && g == 3 && i[0].pixelType == PixelType::Gray8, "an entry of the directory is not listed as it is stored");
    REQUIRE(i[1].logicalRect.x == 11 && i[1].logicalRect.y == 21 && i[1].logicalRect.w == 1 && i[1].logicalRect.h == 1 && !i[1].IsMindexValid() && i[1].coordinate.TryGetPosition(DimensionIndex::T, &g) && g == 4 && i[1].pixelType == PixelType::Gray16, "an entry behind another one of different length is not listed as it is stored");
}
#define FLAG extern "C" void
#define LAYOUT(L) \
    FLAG W_R06_list_##L() { L::Doc d; auto r = L::reader(d); subblocks(r); auto f = r->GetFileHeaderInfo(); REQUIRE(f.majorVersion == 1 && f.minorVersion == 7, "the version of the file is wrong"); czi_done(); } \
    FLAG W_R06_data_##L(unsigned char m0, unsigned char d0, unsigned char d1, unsigned char a0, unsigned char a1, unsigned char a2) { L::Doc d; d.s[288] = m0; d.s[289] = d0; d.s[290] = d1; d.s[291] = a0; d.s[292] = a1; d.s[293] = a2; auto s = L::reader(d)->ReadSubBlock(0); unsigned char e[2] = {d0, d1}, f[3] = {a0, a1, a2}; REQUIRE(bytesAre(s, ISubBlock::Metadata, 1, &m0), "the metadata of a sub-block are not those stored"); REQUIRE(bytesAre(s, ISubBlock::Data, 2, e), "the data of a sub-block are not those stored"); REQUIRE(bytesAre(s, ISubBlock::Attachment, 3, f), "the attachment of a sub-block is not that stored"); czi_done(); } \
    FLAG W_R06_second_##L(unsigned char d0, unsigned char d1) { L::Doc d; d.s2[288] = d0; d.s2[289] = d1; auto s = L::reader(d)->ReadSubBlock(1); unsigned char e[2] = {d0, d1}; REQUIRE(bytesAre(s, ISubBlock::Data, 2, e), "the data of a sub-block are not those stored"); czi_done(); } \
    FLAG W_R06_attachments_##L() { L::Doc d; auto r = L::reader(d); int n = 0; r->EnumerateAttachments([&](int, const AttachmentInfo&)->bool { ++n; return true; }); REQUIRE(n == 1, "not all attachments of the directory are listed"); czi_done(); } \
    FLAG W_R06_attachment_##L(unsigned char d0, unsigned char d1) { L::Doc d; d.t[288] = d0; d.t[289] = d1; auto t = L::reader(d)->ReadAttachment(0); const void* p; size_t z; t->DangerousGetRawData(p, z); REQUIRE(z == 2 && static_cast<const unsigned char*>(p)[0] == d0 && static_cast<const unsigned char*>(p)[1] == d1, "the data of an attachment are not those stored"); czi_done(); } \
    FLAG W_R06_metadata_##L(unsigned char d0, unsigned char d1, unsigned char d2, unsigned char a0, unsigned char a1) { L::Doc d; d.x[288] = d0; d.x[289] = d1; d.x[290] = d2; d.x[291] = a0; d.x[292] = a1; auto m = L::reader(d)->ReadMetadataSegment(); const void* p; size_t z; m->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, z); auto q = static_cast<const unsigned char*>(p); REQUIRE(z == 3 && q[0] == d0 && q[1] == d1 && q[2] == d2, "the XML of the metadata is not that stored"); m->DangerousGetRawData(IMetadataSegment::Attachment, p, z); q = static_cast<const unsigned char*>(p); REQUIRE(z == 2 && q[0] == a0 && q[1] == a1, "the attachment of the metadata is not that stored"); czi_done(); } \
    FLAG W_R06_rw_list_##L() { L::Doc d; auto r = L::rw(d); subblocks(r); czi_done(); } \
    FLAG W_R06_rw_data_##L(unsigned char m0, unsigned char d0, unsigned char d1, unsigned char a0, unsigned char a1, unsigned char a2) { L::Doc d; d.s[288] = m0; d.s[289] = d0; d.s[290] = d1; d.s[291] = a0; d.s[292] = a1; d.s[293] = a2; auto s = L::rw(d)->ReadSubBlock(0); unsigned char e[2] = {d0, d1}, f[3] = {a0, a1, a2}; REQUIRE(bytesAre(s, ISubBlock::Metadata, 1, &m0) && bytesAre(s, ISubBlock::Data, 2, e) && bytesAre(s, ISubBlock::Attachment, 3, f), "the parts of a sub-block read while editing are not those stored"); czi_done(); } \
    FLAG W_R06_rw_attachment_##L(unsigned char d0, unsigned char d1) { L::Doc d; d.t[288] = d0; d.t[289] = d1; auto t = L::rw(d)->ReadAttachment(0); const void* p; size_t z; t->DangerousGetRawData(p, z); REQUIRE(z == 2 && static_cast<const unsigned char*>(p)[0] == d0 && static_cast<const unsigned char*>(p)[1] == d1, "the data of an attachment read while editing are not those stored"); czi_done(); } \
    FLAG W_R06_rw_metadata_##L(unsigned char d0, unsigned char d1, unsigned char d2) { L::Doc d; d.x[288] = d0; d.x[289] = d1; d.x[290] = d2; auto m = L::rw(d)->ReadMetadataSegment(); const void* p; size_t z; m->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, z); auto q = static_cast<const unsigned char*>(p); REQUIRE(z == 3 && q[0] == d0 && q[1] == d1 && q[2] == d2, "the XML of the metadata read while editing is not that stored"); czi_done(); }
// what is removed is marked as deleted exactly where it lies
#define REMOVED(L) \
    FLAG W_W05_mark_first_##L() { L::Doc d; auto s = std::make_shared<L::Str>(&d); auto r = L::rw(s); r->RemoveSubBlock(0); REQUIRE(s->deleted(L::posS), "the segment of a removed sub-block is not marked as deleted, or something else is"); czi_done(); } \
    FLAG W_W05_mark_second_##L() { L::Doc d; auto s = std::make_shared<L::Str>(&d); auto r = L::rw(s); r->RemoveSubBlock(1); REQUIRE(s->deleted(L::posS2), "the segment of a removed sub-block is not marked as deleted, or something else is"); czi_done(); } \
    FLAG W_W05_mark_attachment_##L() { L::Doc d; auto s = std::make_shared<L::Str>(&d); auto r = L::rw(s); r->RemoveAttachment(0); REQUIRE(s->deleted(L::posT), "the segment of a removed attachment is not marked as deleted, or something else is"); czi_done(); }
REMOVED(Big) REMOVED(Reverse)
FLAG W_W05_mark_replaced_Near(unsigned char q) { Near::Doc d; auto s = std::make_shared<Near::Str>(&d); auto r = Near::rw(s); unsigned char big[64]; for (int i = 0; i < 64; ++i) big[i] = q; r->ReplaceSubBlock(0, sbInfo(0, 10, 20, 0, 64, 1, big, 64)); REQUIRE(s->dels == 1 && s->dpos == Near::posS, "the old segment of a sub-block that was moved is not marked as deleted, or something else is"); czi_done(); }
FLAG W_W05_mark_replaced_attachment_Near(unsigned char q) { Near::Doc d; auto s = std::make_shared<Near::Str>(&d); auto r = Near::rw(s); unsigned char big[64]; for (int i = 0; i < 64; ++i) big[i] = q; r->ReplaceAttachment(0, attInfo("one", big, 64)); REQUIRE(s->dels == 1 && s->dpos == Near::posT, "the old segment of an attachment that was moved is not marked as deleted, or something else is"); czi_done(); }
FLAG W_W05_mark_kept_Near(unsigned char q) { Near::Doc d; auto s = std::make_shared<Near::Str>(&d); auto r = Near::rw(s); r->ReplaceSubBlock(0, sbInfo(0, 10, 20, 0, 1, 1, &q, 1)); REQUIRE(s->dels == 0 && s->writes > 0, "a segment is marked as deleted though the sub-block is replaced in place"); czi_done(); }
// what is added lies behind everything that is there
typedef Where<0x220, 0x1000, 0x7000, 0x3000, 0x4000, 0x5000> LastSub; typedef Where<0x220, 0x7000, 0x2000, 0x3000, 0x4000, 0x5000> LastFirst; typedef Where<0x220, 0x1000, 0x2000, 0x7000, 0x4000, 0x5000> LastAttDir; typedef Where<0x220, 0x1000, 0x2000, 0x3000, 0x7000, 0x5000> LastAtt; typedef Where<0x7000, 0x1000, 0x2000, 0x3000, 0x4000, 0x5000> LastDir; typedef Where<0x220, 0x1000, 0x2000, 0x3000, 0x4000, 0x7000> LastMeta;
typedef Where<0x220, 0x1000, 0x2000, 0x3000, 0x4000, 0x700000000ull> FarMeta; typedef Where<0x220, 0x1000, 0x700000000ull, 0x3000, 0x4000, 0x5000> FarSub;
#define BEHIND(L, END) \
    FLAG W_W05_append_##L(unsigned char q) { L::Doc d; auto s = std::make_shared<L::Str>(&d); auto r = L::rw(s); r->SyncAddSubBlock(sbInfo(7, 10, 20, 0, 1, 1, &q, 1)); REQUIRE(s->writes > 0 && s->wmin >= END, "a sub-block is added where something else lies"); czi_done(); } \
    FLAG W_W05_append_attachment_##L(unsigned char q) { L::Doc d; auto s = std::make_shared<L::Str>(&d); auto r = L::rw(s); r->SyncAddAttachment(attInfo("one", &q, 1)); REQUIRE(s->writes > 0 && s->wmin >= END, "an attachment is added where something else lies"); czi_done(); }
BEHIND(LastSub, 0x7000 + 32 + 258) BEHIND(LastFirst, 0x7000 + 32 + 262) BEHIND(LastAttDir, 0x7000 + 32 + 384) BEHIND(LastAtt, 0x7000 + 32 + 258) BEHIND(LastDir, 0x7000 + 32 + 396) BEHIND(LastMeta, 0x7000 + 32 + 261) BEHIND(FarMeta, 0x700000000ull + 32 + 261) BEHIND(FarSub, 0x700000000ull + 32 + 258)
LAYOUT(Near) LAYOUT(Big) LAYOUT(Huge) LAYOUT(Reverse)
// early versions did not write the used size
FLAG W_R06_no_used_size() { Near::Doc d; Near::Doc::p64(d.d + 24, 0); subblocks(Near::reader(d)); czi_done(); }
FLAG W_R06_no_used_size_rw() { Near::Doc d; Near::Doc::p64(d.d + 24, 0); subblocks(Near::rw(d)); czi_done(); }
// a sub-block with so many dimensions that its description is longer than the reserved space
#define MANY(N) FLAG W_R06_many_dimensions_##N(unsigned char m0, unsigned char d0, unsigned char d1) { Near::Doc d; static const char L[] = "XYZCTRSIHVBM"; unsigned char* e = d.d + 160; std::memset(e, 0, 600); Near::Doc::entry(e, 0x1000, 0, N); for (int i = 0; i < N; ++i) Near::Doc::dim(e + 32 + 20 * i, L[i], 100 + i, i < 2 ? 2 - i : 1, i < 2 ? 2 - i : 1); Near::Doc::p32(d.d + 32, 1); Near::Doc::p64(d.d + 24, 128 + 32 + 20 * N); std::memcpy(d.s + 48, e, 32 + 20 * N); \
    unsigned o = 32 + (16 + 32 + 20 * N > 256 ? 16 + 32 + 20 * N : 256); d.s[o] = m0; d.s[o + 1] = d0; d.s[o + 2] = d1; auto r = Near::reader(d); auto s = r->ReadSubBlock(0); unsigned char f[2] = {d0, d1}; REQUIRE(bytesAre(s, ISubBlock::Metadata, 1, &m0) && bytesAre(s, ISubBlock::Data, 2, f), "the parts of a sub-block with many dimensions are not those stored"); auto i = s->GetSubBlockInfo(); int g = 0; REQUIRE(i.coordinate.GetNumberOfValidDimensions() == (N > 11 ? 9 : N - 2), "not all dimensions of a sub-block are read"); REQUIRE(i.coordinate.TryGetPosition(DimensionIndex::V, &g) && g == 109, "a coordinate of a sub-block with many dimensions is wrong"); czi_done(); }
MANY(10) MANY(11) MANY(12)
// no attachments, no metadata
FLAG W_R06_no_attachments() { Near::Doc d; Near::Doc::p64(d.h + 104, 0); auto r = Near::reader(d); int n = 0; r->EnumerateAttachments([&](int, const AttachmentInfo&)->bool { ++n; return true; }); REQUIRE(n == 0, "a document without attachments shows some"); subblocks(r); czi_done(); }
FLAG W_R06_empty_attachments() { Near::Doc d; Near::Doc::p32(d.a + 32, 0); auto r = Near::reader(d); int n = 0; r->EnumerateAttachments([&](int, const AttachmentInfo&)->bool { ++n; return true; }); REQUIRE(n == 0, "a document without attachments shows some"); subblocks(r); czi_done(); }
FLAG W_R06_no_metadata() { Near::Doc d; Near::Doc::p64(d.h + 92, 0); auto r = Near::reader(d); NEVER_RETURNS(r->ReadMetadataSegment(), "metadata of a document that has none are read"); }
FLAG W_R06_no_subblock(int i) { ASSUME(i < 0 || i > 1); Near::Doc d; auto r = Near::reader(d); auto s = r->ReadSubBlock(i); REQUIRE(!s, "a sub-block that does not exist is read"); czi_done(); }
