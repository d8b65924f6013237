// C library routines with symbolic data, written out so that the pass can instrument them ("C" locale semantics).
#include <cerrno>
#include <climits>
#include <cstddef>
extern "C" {
void* sxi_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*) p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char) c) return (void*) (s + i); return nullptr; }
int sxi_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int sxi_isdigit(int c) { return c >= '0' && c <= '9'; }
int sxi_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int sxi_islower(int c) { return c >= 'a' && c <= 'z'; }
int sxi_isalpha(int c) { return sxi_isupper(c) || sxi_islower(c); }
int sxi_isalnum(int c) { return sxi_isalpha(c) || sxi_isdigit(c); }
int sxi_tolower(int c) { return sxi_isupper(c) ? c + 32 : c; }
int sxi_toupper(int c) { return sxi_islower(c) ? c - 32 : c; }
int sxi_strcmp(const char* a, const char* b) { for (;; ++a, ++b) { if (*a != *b) return (unsigned char) *a < (unsigned char) *b ? -1 : 1; if (!*a) return 0; } }
static unsigned long long num(const char* s, char** end, int base, bool& neg, bool& over, bool& any) {
    const char* p = s; while (sxi_isspace((unsigned char) *p)) ++p;
    neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; any = over = false;
    for (;; ++p) {
        int d = sxi_isdigit((unsigned char) *p) ? *p - '0' : sxi_isalpha((unsigned char) *p) ? sxi_tolower(*p) - 'a' + 10 : 99;
        if (d >= base) break;
        any = true;
        if (v > (ULLONG_MAX - d) / base) over = true; else v = v * base + d;
    }
    if (end) *end = (char*) (any ? p : s);
    return v;
}
long sxi_strtol(const char* s, char** e, int b) {
    bool neg, over, any; unsigned long long v = num(s, e, b, neg, over, any);
    if (over || v > (neg ? (unsigned long long) LONG_MAX + 1 : LONG_MAX)) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? (long) (0 - v) : (long) v;
}
unsigned long sxi_strtoul(const char* s, char** e, int b) {
    bool neg, over, any; unsigned long long v = num(s, e, b, neg, over, any);
    if (over) { errno = ERANGE; return ULONG_MAX; }
    return neg ? 0 - v : v;
}
int sxi_atoi(const char* s) { return (int) sxi_strtol(s, nullptr, 10); }
}
