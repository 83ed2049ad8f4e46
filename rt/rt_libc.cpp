// Parts of the C library for the symbolic engine (not linked natively).
typedef decltype(sizeof 0) size_t;
extern int rt_errno;
// ---- C library pieces
extern "C" {
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c | 0) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isblank(int c) { return c == ' ' || c == 9; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) for (const char *q = a; *q; q++) if (*s == *q) return (char *)s; return nullptr; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) for (const char *q = a; *q; q++) if (s[n] == *q) return n; return n; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (!*q) return n; } return n; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *e = d; while (*e) e++; strcpy(e, s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d; while (*e) e++; for (; n && *s; n--) *e++ = *s++; *e = 0; return d; }
char *strdup(const char *s) { size_t n = __builtin_strlen(s) + 1; char *p = (char *)__builtin_malloc(n); __builtin_memcpy(p, s, n); return p; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return nullptr; }
char *strerror(int e) { static char b[24]; int k = 0; const char *t = "error "; while (*t) b[k++] = *t++; char d[12]; int j = 0; unsigned u = e < 0 ? 0u - (unsigned)e : (unsigned)e; if (e < 0) b[k++] = '-'; do d[j++] = (char)('0' + u % 10); while (u /= 10); while (j) b[k++] = d[--j]; b[k] = 0; return b; }
char *strerror_r(int e, char *, size_t) { return strerror(e); }
static unsigned long long rt_strto(const char *s, char **end, int base, bool sg, unsigned long long pos, unsigned long long neg) {
    const char *p = s; while (isspace((unsigned char)*p)) p++; bool n = *p == '-'; if (*p == '-' || *p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x') { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false, over = false; unsigned long long lim = n && sg ? neg : pos;
    for (;; p++) { int c = (unsigned char)*p, d = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99; if (d >= base) break; any = true; if (v > (lim - (unsigned)d) / (unsigned)base) over = true; else v = v * (unsigned)base + (unsigned)d; }
    if (end) *end = (char *)(any ? p : s); if (over) { rt_errno = 34; return n && sg ? 0 - neg : pos; } return n ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) { return (long)rt_strto(s, e, b, true, 0x7fffffffffffffffull, 0x8000000000000000ull); }
unsigned long strtoul(const char *s, char **e, int b) { return rt_strto(s, e, b, false, ~0ull, ~0ull); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
long atol(const char *s) { return strtol(s, nullptr, 10); }
long long atoll(const char *s) { return strtol(s, nullptr, 10); }
int usleep(unsigned); unsigned sleep(unsigned n) { usleep(n); return 0; }
}
