#include "witness.h"
#include "inc_libCZI_Config.h"
#include "libCZI.h"
#include "CziUtils.h"
using namespace libCZI; using namespace libCZI::detail;
// ---- F02: numeric codes of the file format
#define PIXELTYPE(NAME, CODE, BYTES) \
    extern "C" void W_F02_pixeltype_code_##NAME() { REQUIRE(CziUtils::IntFromPixelType(PixelType::NAME) == CODE, "pixel type " #NAME " is not written with code " #CODE); } \
    extern "C" void W_F02_pixeltype_back_##NAME() { REQUIRE(CziUtils::PixelTypeFromInt(CODE) == PixelType::NAME, "pixel type code " #CODE " is not read back as " #NAME); } \
    extern "C" void W_F02_pixeltype_bytes_##NAME() { REQUIRE(CziUtils::GetBytesPerPel(PixelType::NAME) == BYTES, "a pixel of type " #NAME " does not count as " #BYTES " bytes"); } \
    extern "C" void W_F02_pixeltype_publicbytes_##NAME() { REQUIRE(Utils::GetBytesPerPixel(PixelType::NAME) == BYTES, "public bytes-per-pixel of " #NAME " is not " #BYTES); }
PIXELTYPE(Gray8, 0, 1) PIXELTYPE(Gray16, 1, 2) PIXELTYPE(Gray32Float, 2, 4) PIXELTYPE(Bgr24, 3, 3) PIXELTYPE(Bgr48, 4, 6) PIXELTYPE(Bgr96Float, 8, 12)
PIXELTYPE(Bgra32, 9, 4) PIXELTYPE(Gray64ComplexFloat, 10, 16) PIXELTYPE(Bgr192ComplexFloat, 11, 24) PIXELTYPE(Gray32, 12, 4) PIXELTYPE(Gray64Float, 13, 8)
#define NOPIXELTYPE(CODE) extern "C" void W_F02_pixeltype_unknown_##CODE() { REQUIRE(CziUtils::PixelTypeFromInt(CODE) == PixelType::Invalid, "pixel type code " #CODE " (not defined by the format) is accepted"); }
NOPIXELTYPE(5) NOPIXELTYPE(6) NOPIXELTYPE(7) NOPIXELTYPE(14) NOPIXELTYPE(255)
#define COMPRESSION(NAME, CODE) \
    extern "C" void W_F02_compression_code_##NAME() { REQUIRE(Utils::CompressionModeToCompressionIdentifier(CompressionMode::NAME) == CODE, "compression " #NAME " is not written with code " #CODE); } \
    extern "C" void W_F02_compression_back_##NAME() { REQUIRE(Utils::CompressionModeFromRawCompressionIdentifier(CODE) == CompressionMode::NAME, "compression code " #CODE " is not read back as " #NAME); } \
    extern "C" void W_F02_compression_icode_##NAME() { REQUIRE(CziUtils::CompressionModeToInt(CompressionMode::NAME) == CODE, "compression " #NAME " is not converted to code " #CODE); } \
    extern "C" void W_F02_compression_iback_##NAME() { REQUIRE(CziUtils::CompressionModeFromInt(CODE) == CompressionMode::NAME, "compression code " #CODE " is not converted to " #NAME); }
COMPRESSION(UnCompressed, 0) COMPRESSION(Jpg, 1) COMPRESSION(JpgXr, 4) COMPRESSION(Zstd0, 5) COMPRESSION(Zstd1, 6)
#define NOCOMPRESSION(CODE) extern "C" void W_F02_compression_unknown_##CODE() { REQUIRE(Utils::CompressionModeFromRawCompressionIdentifier(CODE) == CompressionMode::Invalid, "compression code " #CODE " (not defined by the format) is accepted"); }
NOCOMPRESSION(2) NOCOMPRESSION(3) NOCOMPRESSION(7) NOCOMPRESSION(100)
#define PYRAMID(NAME, CODE) \
    extern "C" void W_F02_pyramid_code_##NAME() { REQUIRE(CziUtils::ByteFromPyramidType(SubBlockPyramidType::NAME) == CODE, "pyramid type " #NAME " is not written with code " #CODE); } \
    extern "C" void W_F02_pyramid_back_##NAME() { REQUIRE(CziUtils::PyramidTypeFromByte(CODE) == SubBlockPyramidType::NAME, "pyramid type code " #CODE " is not read back as " #NAME); }
PYRAMID(None, 0) PYRAMID(SingleSubBlock, 1) PYRAMID(MultiSubBlock, 2)
extern "C" void W_F02_pyramid_unknown() { REQUIRE(CziUtils::PyramidTypeFromByte(3) == SubBlockPyramidType::Invalid, "unknown pyramid type code is accepted"); }
// ---- F03: dimension letters
#define DIM(L, l) \
    extern "C" void W_F03_letter_##L() { REQUIRE(Utils::DimensionToChar(DimensionIndex::L) == #L[0], "dimension " #L " is not written with its letter"); } \
    extern "C" void W_F03_back_##L() { REQUIRE(Utils::CharToDimension(#L[0]) == DimensionIndex::L, "letter " #L " is not read as its dimension"); } \
    extern "C" void W_F03_lower_##L() { REQUIRE(Utils::CharToDimension(#l[0]) == DimensionIndex::L, "lower-case letter of " #L " is not read as its dimension"); }
DIM(Z, z) DIM(C, c) DIM(T, t) DIM(R, r) DIM(S, s) DIM(I, i) DIM(H, h) DIM(V, v) DIM(B, b)
#define NODIM(L) extern "C" void W_F03_invalid_##L() { REQUIRE(Utils::CharToDimension(#L[0]) == DimensionIndex::invalid, "letter " #L " is taken for a dimension index"); }
NODIM(X) NODIM(Y) NODIM(M) NODIM(A) NODIM(Q)
