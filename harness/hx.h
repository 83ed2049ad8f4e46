// Shared harness pieces: recording sinks and helpers.  They use the library's public interface only.
#pragma once
#include "rt/sym.h"
#include "rt/env.h"
#include "learnlog.h"
#include "sinks/sink.h"
#include "sinks/basic_sink.h"
#include "base/null_mutex.h"
#include <cstring>
#include <string>
namespace hx {
using namespace learnlog;
typedef sys_clock::time_point tp_t;
struct Rec {
    int sink; char kind;             // 'm' message, 'f' flush, 'p' pattern, 'F' formatter
    level::level_enum lvl; tp_t time; size_t tid; source_loc loc;
    const char *text; size_t tlen; const char *name; size_t nlen;
    int thread;
};
static Rec recs[64]; static int nrec = 0;
static inline const char *dup(fmt_string_view v) { char *p = (char *)malloc(v.size() + 1); if (v.size()) memcpy(p, v.data(), v.size()); p[v.size()] = 0; return p; }
static inline Rec &add(int sink, char kind) { if (nrec >= 64) sym_fail("hx-too-many-records"); Rec &r = recs[nrec++]; r.sink = sink; r.kind = kind; r.text = r.name = ""; r.tlen = r.nlen = 0; return r; }
struct boom : std::exception { const char *what() const noexcept override { return "boom"; } };
class rec_sink : public sinks::sink {
public:
    int id, throw_log, throw_flush;  // throw on the k-th call (1-based), 0 never, -1 always
    int logs = 0, flushes = 0, ok_logs = 0;
    explicit rec_sink(int i, int tl = 0, int tf = 0) : id(i), throw_log(tl), throw_flush(tf) {}
    void log(const base::log_msg &m) override {
        logs++;
        if (throw_log == -1 || throw_log == logs) throw boom();
        Rec &r = add(id, 'm'); r.lvl = m.level; r.time = m.time; r.tid = m.tid; r.loc = m.loc;
        r.text = dup(m.msg); r.tlen = m.msg.size(); r.name = dup(m.logger_name); r.nlen = m.logger_name.size();
        ok_logs++;
    }
    void flush() override { flushes++; if (throw_flush == -1 || throw_flush == flushes) throw boom(); add(id, 'f'); }
    std::string pattern; int pats = 0, fmts = 0; formatter_uni_ptr fm;
    void set_pattern(const std::string &p) override { pattern = p; pats++; }
    void set_formatter(formatter_uni_ptr f) override { fm = std::move(f); fmts++; }
};
// a message sink that renders with whatever formatter was set, like the real ones
class fmt_sink : public sinks::basic_sink<base::null_mutex> {
public:
    fmt_memory_buf last; int n = 0;
protected:
    void output_(const base::log_msg &m) override { last.clear(); this->formatter_->format(m, last); n++; }
    void flush_() override {}
};
static inline int count(int sink, char kind) { int c = 0; for (int i = 0; i < nrec; i++) c += recs[i].sink == sink && recs[i].kind == kind; return c; }
static inline level::level_enum sym_level(const char *n) { return (level::level_enum)(int)sym_range(n, 0, 6); }
static inline level::level_enum choose_level(const char *n) { return (level::level_enum)(int)sym_choose(n, 0, 6); }
static inline bool eq(const char *p, size_t n, const char *q, size_t m) { return n == m && sym_eq_mem(p, q, n); }
static inline bool eq(const Rec &r, const char *q) { return eq(r.text, r.tlen, q, strlen(q)); }
static inline bool eq(const Rec &r, const std::string &s) { return eq(r.text, r.tlen, s.data(), s.size()); }
static inline std::string sym_text(const char *n, size_t len) { std::string s(len, 'x'); if (len) sym_bytes(n, &s[0], len); return s; }
// decimal digits, most significant first; the value is their weighted sum, which the solver folds through / and %
struct Dec { uint64_t v; int n; uint8_t d[20]; };
static inline Dec sym_dec(const char *name, int digits, bool lead_nonzero) {
    Dec r; r.n = digits; r.v = 0; uint64_t p = 1;
    for (int i = digits - 1; i >= 0; i--) { r.d[i] = (uint8_t)sym_range(name, i == 0 && lead_nonzero ? 1 : 0, 9); r.v += r.d[i] * p; p *= 10; }
    return r;
}
// the same, bounded digit by digit so that the value stays below max
static inline Dec sym_dec_max(const char *name, int digits, uint64_t mx) {
    int full = 0; for (uint64_t x = mx; x; x /= 10) full++;
    if (digits < full) return sym_dec(name, digits, digits > 1);
    Dec r; r.n = digits; r.v = 0; uint64_t p = 1; for (int i = 1; i < digits; i++) p *= 10;
    bool tight = true;
    for (int i = 0; i < digits; i++, p /= 10) {
        uint64_t top = (mx / p) % 10, lo = i == 0 && digits > 1 ? 1 : 0;
        if (!tight) r.d[i] = (uint8_t)sym_range(name, lo, 9);
        else if (top > lo) { r.d[i] = (uint8_t)sym_range(name, lo, top - 1); tight = false; }
        else r.d[i] = (uint8_t)top;
        r.v += r.d[i] * p;
    }
    return r;
}
static inline void put_dec(std::string &s, const Dec &d) { for (int i = 0; i < d.n; i++) s.push_back((char)('0' + d.d[i])); }
static inline void put_u(std::string &s, uint64_t v, int width) { char b[24]; int k = 0; do { b[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k < width) b[k++] = '0'; while (k) s.push_back(b[--k]); }
}
