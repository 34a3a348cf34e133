// models of C library functions ("C" locale), so that constant propagation can see through them
extern "C" {
extern const char __libc_single_threaded; const char __libc_single_threaded = 1;   // both branches of the reference counting do the same
int isascii(int c) noexcept { return (c & ~0x7f) == 0; }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
__SIZE_TYPE__ strlen(const char* s) noexcept { __SIZE_TYPE__ n = 0; while (s[n]) ++n; return n; }
int strncmp(const char* a, const char* b, __SIZE_TYPE__ n) noexcept { for (__SIZE_TYPE__ i = 0; i < n; ++i) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) break; } return 0; }
int strcmp(const char* a, const char* b) noexcept { for (__SIZE_TYPE__ i = 0;; ++i) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } }
__SIZE_TYPE__ strnlen(const char* s, __SIZE_TYPE__ m) noexcept { __SIZE_TYPE__ n = 0; while (n < m && s[n]) ++n; return n; }
char* strstr(const char* a, const char* b) noexcept { for (;; ++a) { __SIZE_TYPE__ i = 0; while (b[i] && a[i] == b[i]) ++i; if (!b[i]) return const_cast<char*>(a); if (!*a) return nullptr; } }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
}
#include <string>
// the text of messages is irrelevant (used for stringstream::str in witnesses that follow exceptions)
std::string czi_empty_text(const void*) asm("czi_empty_text"); std::string czi_empty_text(const void*) { return std::string(); }
template class std::basic_string<char>; template class std::basic_string<wchar_t>;   // the runtime library's instantiation, with visible bodies
#include <cwchar>
#include <cerrno>
#include <cwctype>
extern "C" {
int iswdigit(wint_t c) noexcept { return c >= '0' && c <= '9'; }
int iswspace(wint_t c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
extern void czi_violation(const char*);
int isxdigit(int c) noexcept { if (c < -1 || c > 255) czi_violation("a character which is no byte is passed to a function for bytes (access outside of its table)"); return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int iswxdigit(wint_t c) noexcept { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
__SIZE_TYPE__ wcslen(const wchar_t* s) noexcept { __SIZE_TYPE__ n = 0; while (s[n]) ++n; return n; }
int wmemcmp(const wchar_t* a, const wchar_t* b, __SIZE_TYPE__ n) noexcept { for (__SIZE_TYPE__ i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, __SIZE_TYPE__ n) noexcept { __builtin_memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, __SIZE_TYPE__ n) noexcept { __builtin_memmove(d, s, n * sizeof(wchar_t)); return d; }
static const wchar_t* findw(const wchar_t* s, wchar_t c, __SIZE_TYPE__ n) { for (__SIZE_TYPE__ i = 0; i < n; ++i) if (s[i] == c) return s + i; return nullptr; }
const wchar_t* czi_wmemchr(const wchar_t* s, wchar_t c, __SIZE_TYPE__ n) asm("wmemchr"); const wchar_t* czi_wmemchr(const wchar_t* s, wchar_t c, __SIZE_TYPE__ n) { return findw(s, c, n); }
}
template <class C> static inline long long parseNumber(const C* s) { while (*s == ' ' || (*s >= 9 && *s <= 13)) ++s; bool neg = false; if (*s == '-' || *s == '+') { neg = *s == '-'; ++s; } long long v = 0; for (; *s >= '0' && *s <= '9'; ++s) { int d = *s - '0'; if (v > (0x7fffffffffffffffLL - d) / 10) { errno = ERANGE; return neg ? -0x7fffffffffffffffLL - 1 : 0x7fffffffffffffffLL; } v = v * 10 + d; } return neg ? -v : v; }
extern "C" long long czi_strtoll(const char* s, char**, int) asm("__isoc23_strtoll"); extern "C" long long czi_strtoll(const char* s, char**, int) { return parseNumber(s); }   // base 10, end not asked for
extern "C" long czi_wcstol(const wchar_t* s, wchar_t**, int) asm("__isoc23_wcstol"); extern "C" long czi_wcstol(const wchar_t* s, wchar_t**, int) { return parseNumber(s); }
static int theErrno; extern "C" int* __errno_location() noexcept { return &theErrno; }
