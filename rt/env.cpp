#include "env.h"
#include "sym.h"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <pthread.h>

extern int64_t rt_steady_ns;
namespace env {
unsigned fault_ops = 0; int faults = 0; bool sticky = false; int failed_calls = 0;
int errors = 0, writes_to_null = 0, fsyncs = 0;
static unsigned broken = 0;
void heal() { broken = 0; }
static bool fault(unsigned op) {
    if (broken & op) { failed_calls++; return true; }
    if (!(fault_ops & op) || faults <= 0) return false;
    if (!sym_choose("fault", 0, 1)) return false;
    faults--; failed_calls++;
    if (sticky) broken |= op;
    return true;
}
Std out, err; bool report_text = false;
bool io_points = false; std::atomic<int> tick;
static inline void point() { if (io_points) (void)tick.load(std::memory_order_relaxed); }
Ost ost; static void *osobj[40]; std::ostream &ostream() { return *(std::ostream *)osobj; }
int64_t now_ns = 1700000000123456789ll, step_ns = 1000;
int64_t (*now_hook)() = nullptr;
bool (*tm_hook)(time_t, struct tm *) = nullptr;
size_t pid_v = 4321; size_t (*tid_hook)() = nullptr;
const char *env_colorterm = nullptr, *env_term = nullptr;

struct Node { char *path; bool dir, live; unsigned char *data; size_t len, cap; };
struct Fd { int node; bool open; bool append; size_t pos; };
struct Stream { int fd; bool open; unsigned char *buf; size_t len, cap; };
static Node nodes[40]; static int nnodes = 0;
static Fd fds[48]; static int nfds = 0;
static Stream *streams[48]; static int nstreams = 0;

static char *norm(const char *p) {                 // canonical path; nullptr for ""
    size_t n = std::strlen(p);
    if (n == 0) return nullptr;
    char *r = (char *)std::malloc(n + 2); size_t k = 0;
    bool abs = p[0] == '/';
    if (abs) r[k++] = '/';
    size_t i = 0; bool any = false;
    while (i < n) {
        while (i < n && p[i] == '/') i++;
        size_t j = i; while (j < n && p[j] != '/') j++;
        size_t l = j - i;
        if (l == 0) break;
        if (!(l == 1 && p[i] == '.')) { if (any) r[k++] = '/'; std::memcpy(r + k, p + i, l); k += l; any = true; }
        i = j;
    }
    if (!any && !abs) r[k++] = '.';
    r[k] = 0;
    return r;
}
static int findn(const char *np) {
    for (int i = 0; i < nnodes; i++) if (nodes[i].live && std::strcmp(nodes[i].path, np) == 0) return i;
    return -1;
}
static bool rootdir(const char *np) { return (np[0] == '/' && !np[1]) || (np[0] == '.' && !np[1]); }
static bool parentOk(const char *np) {
    const char *s = nullptr;
    for (const char *q = np; *q; q++) if (*q == '/') s = q;
    if (!s || s == np) return true;
    size_t l = s - np; char *d = (char *)std::malloc(l + 1); std::memcpy(d, np, l); d[l] = 0;
    int k = findn(d); std::free(d);
    return k >= 0 && nodes[k].dir;
}
static int addNode(char *np, bool dir) {
    if (nnodes >= 40) sym_unsupported("too many files");
    nodes[nnodes] = {np, dir, true, nullptr, 0, 0};
    return nnodes++;
}
static void append(unsigned char *&d, size_t &len, size_t &cap, const void *p, size_t n) {
    if (len + n > cap) { cap = (len + n) * 2 + 64; unsigned char *q = (unsigned char *)std::malloc(cap); if (len) std::memcpy(q, d, len); std::free(d); d = q; }
    if (n) std::memcpy(d + len, p, n);
    len += n;
}
static int lookup(const char *p) { char *n = norm(p); if (!n) return -1; int k = rootdir(n) ? -2 : findn(n); std::free(n); return k; }
void mkfile(const char *p, const void *d, size_t n) { char *np = norm(p); int k = findn(np); if (k < 0) k = addNode(np, false); nodes[k].len = 0; append(nodes[k].data, nodes[k].len, nodes[k].cap, d, n); }
void erase(const char *p) { char *np = norm(p); int k = np ? findn(np) : -1; if (k >= 0) nodes[k].live = false; std::free(np); }
void mkdir(const char *p) { char *np = norm(p); if (findn(np) < 0) addNode(np, true); }
bool exists(const char *p) { return lookup(p) != -1; }
bool isdir(const char *p) { int k = lookup(p); return k == -2 || (k >= 0 && nodes[k].dir); }
size_t fsize(const char *p) { int k = lookup(p); if (k < 0) sym_fail("env-file-missing"); return nodes[k].len; }
const unsigned char *fdata(const char *p) { int k = lookup(p); if (k < 0) sym_fail("env-file-missing"); return nodes[k].data; }
bool has(const char *p, size_t off, const void *q, size_t n) { int k = lookup(p); if (k < 0 || off + n > nodes[k].len) return false; return sym_eq_mem(nodes[k].data + off, q, n); }
int nfiles() { int c = 0; for (int i = 0; i < nnodes; i++) c += nodes[i].live && !nodes[i].dir; return c; }
int open_fds() { int c = 0; for (int i = 0; i < nfds; i++) c += fds[i].open; return c; }
bool blind = false; const char *last_opened = nullptr;
int open_streams() { int c = 0; for (int i = 0; i < nstreams; i++) c += streams[i]->open; return c; }

static int openNode(const char *p, int flags) {
    if (fault(OPEN)) { errno = EACCES; return -1; }
    if (blind) {                                     // paths are not looked at: every directory exists, no file does
        size_t pl = std::strlen(p); char *c = (char *)std::malloc(pl + 1); std::memcpy(c, p, pl + 1); last_opened = c; char *b = (char *)std::malloc(8); std::memcpy(b, "/blind", 7);
        if (nfds >= 48) sym_unsupported("too many descriptors");
        int k = nnodes ? 0 : addNode(b, false); fds[nfds] = {k, true, true, 0}; return 100 + nfds++;
    }
    char *np = norm(p);
    if (!np) { errno = ENOENT; return -1; }
    if (rootdir(np)) { errno = EISDIR; return -1; }
    int k = findn(np);
    if (k >= 0 && nodes[k].dir) { errno = EISDIR; return -1; }
    if (k < 0) {
        if (!(flags & O_CREAT) || !parentOk(np) || p[std::strlen(p) - 1] == '/') { errno = ENOENT; return -1; }
        k = addNode(np, false);
    } else if (flags & O_EXCL) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) nodes[k].len = 0;
    if (nfds >= 48) sym_unsupported("too many descriptors");
    fds[nfds] = {k, true, (flags & O_APPEND) != 0, 0};
    return 100 + nfds++;
}
static Fd *fdof(int fd) { int i = fd - 100; if (i < 0 || i >= nfds || !fds[i].open) return nullptr; return &fds[i]; }
static Stream *mkStream(int fd) {
    Stream *s = (Stream *)std::malloc(sizeof(Stream)); *s = {fd, true, nullptr, 0, 0};
    if (nstreams >= 48) sym_unsupported("too many streams");
    streams[nstreams++] = s; return s;
}
static Stream *use(FILE *f) {
    for (int i = 0; i < nstreams; i++) if ((FILE *)streams[i] == f) { if (!streams[i]->open) sym_fail("io-on-closed-file"); return streams[i]; }
    if (!f) { writes_to_null++; sym_fail("io-on-null-file"); }
    sym_fail("io-on-invalid-file");
}
static void commit(Stream *s) {
    Fd *d = fdof(s->fd); if (!d) sym_fail("io-on-closed-descriptor");
    Node &n = nodes[d->node];
    if (d->append || d->pos == n.len) { append(n.data, n.len, n.cap, s->buf, s->len); d->pos = n.len; }
    else for (size_t i = 0; i < s->len; i++) {       // not in append mode: writes where the descriptor stands
        while (d->pos > n.len) { unsigned char z = 0; append(n.data, n.len, n.cap, &z, 1); }
        if (d->pos < n.len) n.data[d->pos] = s->buf[i]; else append(n.data, n.len, n.cap, s->buf + i, 1);
        d->pos++;
    }
    s->len = 0;
}
static bool isStd(FILE *f) { return f == stdout || f == stderr; }
static size_t doWrite(const void *p, size_t n, FILE *f) {
    point();
    if (n > ((size_t)1 << 22)) sym_fail("write-beyond-the-buffer");      // far more than any buffer here holds
    if (n) (void)*((const volatile char *)p + (n - 1));
    if (isStd(f)) {
        Std &s = f == stdout ? out : err;
        if (n && fault(FWRITE)) { errno = EIO; return 0; }
        append(s.data, s.len, s.cap, p, n); s.writes++;
        return n;
    }
    Stream *s = use(f);
    if (n && fault(FWRITE)) { errno = ENOSPC; return 0; }
    append(s->buf, s->len, s->cap, p, n);
    return n;
}
}
using namespace env;
extern "C" {
int __wrap_open(const char *p, int fl, ...) { return openNode(p, fl); }
int __wrap_open64(const char *p, int fl, ...) { return openNode(p, fl); }
FILE *__wrap_fopen(const char *p, const char *m) {
    int fl = m[0] == 'a' ? O_CREAT | O_APPEND : m[0] == 'w' ? O_CREAT | O_TRUNC : 0;
    int fd = openNode(p, fl); if (fd < 0) return nullptr;
    return (FILE *)mkStream(fd);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) {
    Fd *d = fdof(fd); if (!d) { errno = EBADF; return nullptr; }
    if (fault(FDOPEN)) { errno = ENOMEM; return nullptr; }
    if (m[0] == 'a') d->append = true;
    return (FILE *)mkStream(fd);
}
int __wrap_close(int fd) { Fd *d = fdof(fd); if (!d) sym_fail("close-of-closed-descriptor"); d->open = false; return 0; }
static void ostAppend(const void *p, size_t n) {
    size_t at = ost.len; append(ost.data, ost.len, ost.cap, p, n); size_t to = ost.len; if (io_points) { ost.len = at; point(); ost.len = to; } ost.writes++;
}
std::ostream *__wrap__ZNSo5writeEPKcl(std::ostream *o, const char *p, long n) { if ((void *)o != osobj) sym_unsupported("another ostream"); point(); ostAppend(p, (size_t)n); return o; }
std::ostream *__wrap__ZNSo3putEc(std::ostream *o, char c) { if ((void *)o != osobj) sym_unsupported("another ostream"); point(); ostAppend(&c, 1); return o; }
std::ostream *__wrap__ZNSo5flushEv(std::ostream *o) { if ((void *)o != osobj) sym_unsupported("another ostream"); point(); ost.flushes++; return o; }
int __wrap_fclose(FILE *f) {
    if (isStd(f)) sym_fail("close-of-standard-stream");
    Stream *s = use(f);
    bool bad = fault(FCLOSE);
    if (!bad) commit(s);
    s->open = false; Fd *d = fdof(s->fd); if (d) d->open = false;
    if (bad) { errno = EIO; return EOF; }
    return 0;
}
int __wrap_fflush(FILE *f) {
    point();
    if (!f) { for (int i = 0; i < nstreams; i++) if (streams[i]->open) commit(streams[i]); return 0; }
    if (isStd(f)) { Std &s = f == stdout ? out : err; if (fault(FFLUSH)) { errno = EIO; return EOF; } s.flushes++; s.flushed = s.len; return 0; }
    Stream *s = use(f);
    if (fault(FFLUSH)) { errno = EIO; return EOF; }
    commit(s); return 0;
}
size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *f) { if (sz == 0 || n == 0) { if (!isStd(f)) use(f); return 0; } return doWrite(p, sz * n, f) == sz * n ? n : 0; }
size_t __wrap_fwrite_unlocked(const void *p, size_t sz, size_t n, FILE *f) { return __wrap_fwrite(p, sz, n, f); }
int __wrap_fputs(const char *s, FILE *f) { size_t n = std::strlen(s); if (f == stderr) errors++; return doWrite(s, n, f) == n ? 1 : EOF; }
int __wrap_fputc(int c, FILE *f) { char ch = (char)c; return doWrite(&ch, 1, f) == 1 ? c : EOF; }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
struct Fmt { unsigned char *p; size_t len, cap; };
static void num(Fmt &o, uint64_t v, bool neg, unsigned base, bool zero, bool left, int width, int prec) {
    char b[24]; int k = 0; if (v || prec != 0) do { unsigned d = (unsigned)(v % base); b[k++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v);
    int z = prec > k ? prec - k : zero && !left && prec < 0 && width > k + neg ? width - k - neg : 0; int sp = width - k - z - neg; char c = ' ';
    if (!left) for (int i = 0; i < sp; i++) append(o.p, o.len, o.cap, &c, 1);
    if (neg) { c = '-'; append(o.p, o.len, o.cap, &c, 1); }
    c = '0'; for (int i = 0; i < z; i++) append(o.p, o.len, o.cap, &c, 1);
    while (k) append(o.p, o.len, o.cap, &b[--k], 1);
    c = ' '; if (left) for (int i = 0; i < sp; i++) append(o.p, o.len, o.cap, &c, 1);
}
static void vfmt(Fmt &o, const char *s, va_list ap) {
    for (; *s; s++) {
        if (*s != '%') { append(o.p, o.len, o.cap, s, 1); continue; }
        s++; if (*s == '%') { append(o.p, o.len, o.cap, s, 1); continue; }
        bool zero = false, left = false; int width = 0, prec = -1, lng = 0;
        for (;; s++) { if (*s == '0') zero = true; else if (*s == '-') left = true; else break; }
        if (*s == '*') { width = va_arg(ap, int); s++; } else while (*s >= '0' && *s <= '9') width = width * 10 + (*s++ - '0');
        if (*s == '.') { s++; prec = 0; if (*s == '*') { prec = va_arg(ap, int); s++; } else while (*s >= '0' && *s <= '9') prec = prec * 10 + (*s++ - '0'); }
        while (*s == 'l' || *s == 'z' || *s == 'j' || *s == 't' || *s == 'h') { if (*s != 'h') lng = 1; s++; }
        if (*s == 's') {
            const char *t = va_arg(ap, const char *); size_t n = 0; while ((prec < 0 || n < (size_t)prec) && t[n]) n++;
            char c = ' '; int sp = width - (int)n;
            if (!left) for (int i = 0; i < sp; i++) append(o.p, o.len, o.cap, &c, 1);
            if (n) append(o.p, o.len, o.cap, t, n);
            if (left) for (int i = 0; i < sp; i++) append(o.p, o.len, o.cap, &c, 1);
        } else if (*s == 'c') { char c = (char)va_arg(ap, int); append(o.p, o.len, o.cap, &c, 1); }
        else if (*s == 'd' || *s == 'i') { int64_t v = lng ? va_arg(ap, int64_t) : va_arg(ap, int); num(o, v < 0 ? 0 - (uint64_t)v : (uint64_t)v, v < 0, 10, zero, left, width, prec); }
        else if (*s == 'u' || *s == 'x') { uint64_t v = lng ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); num(o, v, false, *s == 'u' ? 10 : 16, zero, left, width, prec); }
        else if (*s == 'o' || *s == 'X') { uint64_t v = lng ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); size_t at = o.len; num(o, v, false, *s == 'o' ? 8 : 16, zero, left, width, prec); for (size_t i = at; i < o.len; i++) if (o.p[i] >= 'a') o.p[i] -= 32; }
        else sym_unsupported("printf conversion");
    }
}
int __wrap_vfprintf(FILE *f, const char *s, va_list ap) {
    if (f == stderr) { errors++; if (!report_text) return 1; }
    Fmt o = {nullptr, 0, 0}; vfmt(o, s, ap);
    size_t n = o.len ? doWrite(o.p, o.len, f) : 0; std::free(o.p); return (int)n;
}
int __wrap_vprintf(const char *s, va_list ap) { return __wrap_vfprintf(stdout, s, ap); }
int __wrap_printf(const char *s, ...) { va_list ap; va_start(ap, s); int r = __wrap_vfprintf(stdout, s, ap); va_end(ap); return r; }
int __wrap_puts(const char *s) { size_t n = std::strlen(s); doWrite(s, n, stdout); doWrite("\n", 1, stdout); return 1; }
int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
int __wrap_vsnprintf(char *b, size_t n, const char *s, va_list ap) {
    Fmt o = {nullptr, 0, 0}; vfmt(o, s, ap); size_t k = o.len < n ? o.len : n ? n - 1 : 0;
    if (k) std::memcpy(b, o.p, k); if (n) b[k] = 0; std::free(o.p); return (int)o.len;
}
int __wrap_snprintf(char *b, size_t n, const char *s, ...) { va_list ap; va_start(ap, s); int r = __wrap_vsnprintf(b, n, s, ap); va_end(ap); return r; }
int __wrap_sprintf(char *b, const char *s, ...) { va_list ap; va_start(ap, s); int r = __wrap_vsnprintf(b, (size_t)1 << 20, s, ap); va_end(ap); return r; }
void __wrap_perror(const char *) { errors++; }
int __wrap_fprintf(FILE *f, const char *s, ...) { va_list ap; va_start(ap, s); int r = __wrap_vfprintf(f, s, ap); va_end(ap); return r; }
size_t __wrap_strftime(char *b, size_t n, const char *s, const struct tm *t) {
    Fmt o = {nullptr, 0, 0};
    for (; *s; s++) {
        if (*s != '%') { append(o.p, o.len, o.cap, s, 1); continue; }
        switch (*++s) {
        case 'Y': num(o, (uint64_t)(t->tm_year + 1900), false, 10, true, false, 0, -1); break;
        case 'm': num(o, (uint64_t)(t->tm_mon + 1), false, 10, true, false, 2, -1); break;
        case 'd': num(o, (uint64_t)t->tm_mday, false, 10, true, false, 2, -1); break;
        case 'H': num(o, (uint64_t)t->tm_hour, false, 10, true, false, 2, -1); break;
        case 'M': num(o, (uint64_t)t->tm_min, false, 10, true, false, 2, -1); break;
        case 'S': num(o, (uint64_t)t->tm_sec, false, 10, true, false, 2, -1); break;
        case 'F': num(o, (uint64_t)(t->tm_year + 1900), false, 10, true, false, 0, -1); append(o.p, o.len, o.cap, "-", 1); num(o, (uint64_t)(t->tm_mon + 1), false, 10, true, false, 2, -1); append(o.p, o.len, o.cap, "-", 1); num(o, (uint64_t)t->tm_mday, false, 10, true, false, 2, -1); break;
        case 'T': num(o, (uint64_t)t->tm_hour, false, 10, true, false, 2, -1); append(o.p, o.len, o.cap, ":", 1); num(o, (uint64_t)t->tm_min, false, 10, true, false, 2, -1); append(o.p, o.len, o.cap, ":", 1); num(o, (uint64_t)t->tm_sec, false, 10, true, false, 2, -1); break;
        case 'y': num(o, (uint64_t)(t->tm_year % 100), false, 10, true, false, 2, -1); break;
        case 'j': num(o, (uint64_t)(t->tm_yday + 1), false, 10, true, false, 3, -1); break;
        case 'e': num(o, (uint64_t)t->tm_mday, false, 10, false, false, 2, -1); break;
        case 'a': append(o.p, o.len, o.cap, "SunMonTueWedThuFriSat" + 3 * t->tm_wday, 3); break;
        case 'b': case 'h': append(o.p, o.len, o.cap, "JanFebMarAprMayJunJulAugSepOctNovDec" + 3 * t->tm_mon, 3); break;
        case '%': append(o.p, o.len, o.cap, "%", 1); break;
        case 'n': append(o.p, o.len, o.cap, "\n", 1); break;
        default: sym_unsupported("strftime conversion");
        }
    }
    size_t r = o.len; if (r + 1 > n) { std::free(o.p); return 0; }
    std::memcpy(b, o.p, r); b[r] = 0; std::free(o.p); return r;
}
int __wrap_fileno(FILE *f) { if (f == stdout) return 1; if (f == stderr) return 2; return use(f)->fd; }
int __wrap_fsync(int fd) { if (!fdof(fd)) { errno = EBADF; return -1; } if (fault(FSYNC)) { errno = EIO; return -1; } fsyncs++; return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
static int statNode(int k, struct stat *b) {
    std::memset(b, 0, sizeof *b);
    if (k == -2) { b->st_mode = S_IFDIR | 0755; return 0; }
    if (k < 0) { errno = ENOENT; return -1; }
    b->st_mode = nodes[k].dir ? S_IFDIR | 0755 : S_IFREG | 0644; b->st_size = (off_t)nodes[k].len; b->st_nlink = 1; return 0;
}
int __wrap_stat(const char *p, struct stat *b) { if (fault(STAT)) { errno = EACCES; return -1; } if (blind) { errno = ENOENT; return -1; } return statNode(lookup(p), b); }
int __wrap_lstat(const char *p, struct stat *b) { return __wrap_stat(p, b); }
int __wrap_stat64(const char *p, struct stat64 *b) { return __wrap_stat(p, (struct stat *)b); }
int __wrap_fstat(int fd, struct stat *b) { if (fault(FSTAT)) { errno = EIO; return -1; } Fd *d = fdof(fd); if (!d) { errno = EBADF; return -1; } return statNode(d->node, b); }
int __wrap_fstat64(int fd, struct stat64 *b) { return __wrap_fstat(fd, (struct stat *)b); }
int __wrap_access(const char *p, int) { if (fault(STAT)) { errno = EACCES; return -1; } if (lookup(p) == -1) { errno = ENOENT; return -1; } return 0; }
int __wrap_mkdir(const char *p, mode_t) {
    if (fault(MKDIR)) { errno = EACCES; return -1; }
    if (blind) return 0;
    char *np = norm(p);
    if (!np) { errno = ENOENT; return -1; }
    if (rootdir(np) || findn(np) >= 0) { errno = EEXIST; return -1; }
    if (!parentOk(np)) { errno = ENOENT; return -1; }
    addNode(np, true); return 0;
}
int __wrap_remove(const char *p) { if (fault(REMOVE)) { errno = EACCES; return -1; } int k = lookup(p); if (k < 0) { errno = ENOENT; return -1; } nodes[k].live = false; return 0; }
int __wrap_unlink(const char *p) { return __wrap_remove(p); }
int __wrap_rename(const char *a, const char *b) {
    if (fault(RENAME)) { errno = EACCES; return -1; }
    int k = lookup(a); if (k < 0) { errno = ENOENT; return -1; }
    int t = lookup(b); if (t >= 0) nodes[t].live = false;
    nodes[k].path = norm(b); return 0;
}
long __wrap_ftell(FILE *f) { Stream *s = use(f); Fd *d = fdof(s->fd); return (long)(nodes[d->node].len + s->len); }
int __wrap_fseek(FILE *f, long, int) { Stream *s = use(f); commit(s); return 0; }
int __wrap_isatty(int fd) { return fd == 1 ? env::out.tty : fd == 2 ? env::err.tty : 0; }
char *__wrap_getenv(const char *n) {
    if (std::strcmp(n, "COLORTERM") == 0) return (char *)env_colorterm;
    if (std::strcmp(n, "TERM") == 0) return (char *)env_term;
    return nullptr;
}
char *__wrap_strstr(const char *h, const char *n) {
    size_t l = std::strlen(n);
    for (;; h++) { size_t i = 0; while (i < l && h[i] == n[i]) i++; if (i == l) return (char *)h; if (!*h) return nullptr; }
}
int __wrap_getpid() { return (int)pid_v; }
long __wrap_syscall(long n, ...) {
    if (n == SYS_gettid) return tid_hook ? (long)tid_hook() : 1000 + (long)(sym_is_symbolic() ? (long)pthread_self() : 0);
    errno = ENOSYS; return -1;
}
int __wrap_gettid() { return (int)__wrap_syscall(SYS_gettid); }
struct tm *__wrap_localtime_r(const time_t *t, struct tm *r) {
    std::memset(r, 0, sizeof *r);
    if (tm_hook && tm_hook(*t, r)) return r;
    r->tm_year = 124; r->tm_mon = 4; r->tm_mday = 6; r->tm_hour = 7; r->tm_min = 8; r->tm_sec = 9; r->tm_wday = 1; r->tm_yday = 126;
    return r;
}
static struct tm tm_static;
struct tm *__wrap_localtime(const time_t *t) { return __wrap_localtime_r(t, &tm_static); }
struct tm *__wrap_gmtime_r(const time_t *t, struct tm *r) { __wrap_localtime_r(t, r); r->tm_hour = r->tm_hour == 23 ? 0 : r->tm_hour + 1; r->tm_min = r->tm_min == 59 ? 0 : r->tm_min + 1; return r; }
struct tm *__wrap_gmtime(const time_t *t) { return __wrap_gmtime_r(t, &tm_static); }
int __wrap_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = now_ns / 1000000000; tv->tv_usec = now_ns % 1000000000 / 1000; now_ns += step_ns; return 0; }
ssize_t __wrap_write(int fd, const void *p, size_t n) {
    if (fd == 1 || fd == 2) { size_t k = doWrite(p, n, fd == 1 ? stdout : stderr); if (fd == 2) errors++; return k == n ? (ssize_t)n : -1; }
    Fd *d = fdof(fd); if (!d) { errno = EBADF; return -1; }
    if (n && fault(FWRITE)) { errno = ENOSPC; return -1; }
    Stream s = {fd, true, nullptr, 0, 0}; append(s.buf, s.len, s.cap, p, n); commit(&s); std::free(s.buf); return (ssize_t)n;
}
off_t __wrap_lseek(int fd, off_t o, int how) { Fd *d = fdof(fd); if (!d) { errno = EBADF; return -1; } off_t b = how == SEEK_SET ? 0 : how == SEEK_CUR ? (off_t)d->pos : (off_t)nodes[d->node].len; d->pos = (size_t)(b + o); return b + o; }
static int cut(int k, off_t n) { if (k < 0) { errno = ENOENT; return -1; } if ((size_t)n <= nodes[k].len) nodes[k].len = (size_t)n; else while (nodes[k].len < (size_t)n) { unsigned char z = 0; append(nodes[k].data, nodes[k].len, nodes[k].cap, &z, 1); } return 0; }
int __wrap_ftruncate(int fd, off_t n) { Fd *d = fdof(fd); if (!d) { errno = EBADF; return -1; } return cut(d->node, n); }
int __wrap_truncate(const char *p, off_t n) { return cut(lookup(p), n); }
int __wrap_setvbuf(FILE *f, char *, int, size_t) { if (!isStd(f)) use(f); return 0; }
void __wrap_setbuf(FILE *f, char *) { if (!isStd(f)) use(f); }
int __wrap_ferror(FILE *f) { if (!isStd(f)) use(f); return 0; }
int __wrap_feof(FILE *f) { if (!isStd(f)) use(f); return 0; }
void __wrap_clearerr(FILE *f) { if (!isStd(f)) use(f); }
void __wrap_rewind(FILE *f) { Stream *s = use(f); commit(s); fdof(s->fd)->pos = 0; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { if (now_hook) return now_hook(); int64_t r = now_ns; now_ns += step_ns; return r; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { int64_t n = c == CLOCK_MONOTONIC ? rt_steady_ns : now_ns; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
time_t __wrap_time(time_t *p) { time_t r = now_ns / 1000000000; if (p) *p = r; return r; }
}
