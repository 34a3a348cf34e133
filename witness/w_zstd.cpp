// a model of the zstd library: the compressed form of a content is one byte (0: valid, others: kinds of damage) followed by the content
#include <cstddef>
extern "C" {
unsigned long long ZSTD_getFrameContentSize(const void* s, size_t n) noexcept { if (n < 1) return 0ULL - 2; switch (*static_cast<const unsigned char*>(s)) { case 1: return 0ULL - 2; case 2: return 0ULL - 1; default: return n - 1; } }
size_t ZSTD_decompress(void* d, size_t dn, const void* s, size_t n) noexcept { const unsigned char* p = static_cast<const unsigned char*>(s); if (n < 1 || n - 1 > dn || *p == 3) return static_cast<size_t>(-1); for (size_t i = 0; i + 1 < n; ++i) static_cast<unsigned char*>(d)[i] = p[i + 1]; return *p == 4 && n > 1 ? n - 2 : n - 1; }
size_t ZSTD_compress(void* d, size_t dn, const void* s, size_t n, int) noexcept { if (dn < n + 1) return static_cast<size_t>(-1); unsigned char* p = static_cast<unsigned char*>(d); p[0] = 0; for (size_t i = 0; i < n; ++i) p[i + 1] = static_cast<const unsigned char*>(s)[i]; return n + 1; }
unsigned ZSTD_isError(size_t r) noexcept { return r > static_cast<size_t>(-100); }
size_t ZSTD_compressBound(size_t n) noexcept { return n + 1; }
const char* ZSTD_getErrorName(size_t) noexcept { return "error"; }
int ZSTD_minCLevel() noexcept { return -131072; }
int ZSTD_maxCLevel() noexcept { return 22; }
}
