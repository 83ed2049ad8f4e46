// Reference rendering of one message: what each documented flag means, written from the documentation.
#pragma once
#include "hx.h"
#include "sinks/formatters/pattern_formatter.h"
namespace fx {
using namespace hx;
static const char *const LV[7] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
static const char *const WD[7] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char *const MN[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
struct Ref {                                            // a message as text; every numeric field is given by its digits
    std::string name, text, file, func, line, tid, pid; int lvl = 2; bool loc = true;
    std::string y, m, d, H, M, S, ns9; int wday = 0, mon = 0;
    std::string el_ns, el_us, el_ms, el_s;
    size_t cs = 0, ce = 0; bool marked = false;         // colour marks, as offsets in the output
};
static inline bool is_flag(char f) { return f == '+' || f == 'n' || f == 'l' || f == 'a' || f == 'b' || f == 'c' || f == 'y' || f == 'm' || f == 'd' || f == 'H' || f == 'M' || f == 'S' || f == 'E' || f == 'F' || f == 'G' || f == 'T' || f == 'W' || f == 'X' || f == 'Y' || f == 'Z' || f == 'p' || f == 't' || f == 'v' || f == '@' || f == 'A' || f == 'B' || f == 'C'; }
static inline std::string pad0(std::string s, size_t n) { return s.size() >= n ? s : std::string(n - s.size(), '0') + s; }
static inline std::string field(const Ref &r, char f) {
    switch (f) {
    case 'n': return r.name;
    case 'l': return LV[r.lvl];
    case 'a': return WD[r.wday];
    case 'b': return MN[r.mon];
    case 'c': return std::string(WD[r.wday]) + " " + MN[r.mon] + " " + r.d + " " + r.H + ":" + r.M + ":" + r.S + " " + r.y;
    case 'y': return r.y;
    case 'm': return r.m;
    case 'd': return r.d;
    case 'H': return r.H;
    case 'M': return r.M;
    case 'S': return r.S;
    case 'E': return r.ns9.substr(0, 3);
    case 'F': return r.ns9.substr(0, 6);
    case 'G': return r.ns9;
    case 'T': return r.H + ":" + r.M + ":" + r.S;
    case 'W': return r.el_ns;
    case 'X': return r.el_us;
    case 'Y': return r.el_ms;
    case 'Z': return r.el_s;
    case 'p': return r.pid;
    case 't': return r.tid;
    case 'v': return r.text;
    case '@': return r.loc ? r.file + ":" + r.line : std::string();
    case 'A': return r.loc ? r.file : std::string();
    case 'B': return r.loc ? r.line : std::string();
    case 'C': return r.loc ? r.func : std::string();
    }
    return std::string();
}
static inline void full(Ref &r, std::string &o) {
    o += "[" + r.y + "-" + r.m + "-" + r.d + " " + r.H + ":" + r.M + ":" + r.S + "." + r.ns9.substr(0, 3) + "] ";
    if (!r.name.empty()) o += "[" + r.name + "] ";
    o += "["; r.cs = o.size(); o += LV[r.lvl]; r.ce = o.size(); r.marked = true; o += "] ";
    if (r.loc) o += "[" + r.file + ":" + pad0(r.line, 5) + "] ";
    o += r.text;
}
static inline std::string padded(const std::string &s, bool en, size_t w, char al, bool cut) {
    if (!en) return s;
    if (w > 64) w = 64;
    if (s.size() >= w) return cut ? s.substr(0, w) : s;
    size_t n = w - s.size(), l = al == '-' ? 0 : al == '=' ? n / 2 : n;
    return std::string(l, ' ') + s + std::string(n - l, ' ');
}
// the whole pattern; custom(flag) may supply fields of custom flags
template <typename P> static std::string render(Ref &r, const P &pat, size_t n, const std::string &eol, const char *cust = "", const char *const *ctext = nullptr, size_t base = 0) {
    std::string o(base, '@');
    for (size_t i = 0; i < n;) {
        char c = pat[i];
        if (c != '%') { o.push_back(c); i++; continue; }
        i++; bool en = false, cut = false; size_t w = 0; char al = 'r';
        if (i < n && (pat[i] == '-' || pat[i] == '=')) al = pat[i++];
        if (i < n && pat[i] >= '0' && pat[i] <= '9') {
            en = true;
            while (i < n && pat[i] >= '0' && pat[i] <= '9') { if (w <= 64) w = w * 10 + (size_t)(pat[i] - '0'); if (w > 64) w = 65; i++; }
            if (i < n && pat[i] == '!') { cut = true; i++; }
        }
        if (i >= n) break;                               // incomplete specification at the very end
        char f = pat[i++];
        bool done = false;
        for (int k = 0; cust[k]; k++) if (f == cust[k]) { o += padded(ctext[k], en, w, al, cut); done = true; break; }
        if (done) continue;
        if (f == '+') full(r, o);
        else if (f == '%') o.push_back('%');
        else if (f == '^') { r.cs = o.size(); r.marked = true; }
        else if (f == '$') { r.ce = o.size(); r.marked = true; }
        else if (is_flag(f)) { o += padded(field(r, (char)sym_concretize((uint8_t)f)), en, w, al, cut); }
        else { o.push_back('%'); o.push_back(f); }
    }
    o += eol;
    return o;
}
static inline bool same(const fmt_memory_buf &b, const std::string &w) { return b.size() == w.size() && sym_eq_mem(b.data(), w.data(), w.size()); }
// a fixed message and its reference
static inline void fixed(Ref &r) {
    r.name = "nm"; r.text = "hello"; r.file = "f.cpp"; r.func = "fun"; r.line = "42"; r.lvl = 3; r.tid = "1717"; r.pid = "321";
    r.y = "2024"; r.m = "09"; r.d = "07"; r.H = "03"; r.M = "05"; r.S = "08"; r.ns9 = "001002003"; r.wday = 6; r.mon = 8;
    r.el_ns = "1001002003"; r.el_us = "1001002"; r.el_ms = "1001"; r.el_s = "1";
}
static inline bool fixed_tm(time_t, struct tm *t) { memset(t, 0, sizeof *t); t->tm_year = 124; t->tm_mon = 8; t->tm_mday = 7; t->tm_hour = 3; t->tm_min = 5; t->tm_sec = 8; t->tm_wday = 6; t->tm_yday = 250; return true; }
static inline void fixed_env() { env::now_ns = 1725678307000000000ll; env::step_ns = 0; env::tm_hook = fixed_tm; env::pid_v = 321; env::tid_hook = [] () -> size_t { return 1717; }; }
static inline base::log_msg fixed_msg(const Ref &r) { return base::log_msg(tp_t(std::chrono::nanoseconds(1725678308001002003ll)), r.loc ? source_loc{"f.cpp", 42, "fun"} : source_loc{}, (level::level_enum)r.lvl, r.text, r.name); }

// symbolic calendar fields: digits and the struct tm they make
struct Cal { std::string y, m, d, H, M, S; int wday, mon; struct tm t; };
static inline char dg(int v) { return (char)('0' + v); }
static inline void two(std::string &s, int a, int b) { s.push_back(dg(a)); s.push_back(dg(b)); }
static inline int dsym(const char *n, int lo, int hi) { return lo == hi ? lo : (int)sym_range(n, (uint64_t)lo, (uint64_t)hi); }
// the first digits of year and month are the caller's (or symbolic when the ranges allow): yc 0: 197x..199x, 1: 2000..9999; mc 0: 01..09, 1: 10..12
static inline void sym_cal(Cal &c, int yc, int mc, int wday) {
    memset(&c.t, 0, sizeof c.t);
    int a = yc == 0 ? 1 : dsym("year0", 2, 9), b = yc == 0 ? 9 : dsym("year1", 0, 9), e = yc == 0 ? dsym("year2", 7, 9) : dsym("year2", 0, 9), f = dsym("year3", 0, 9);
    two(c.y, a, b); two(c.y, e, f); c.t.tm_year = a * 1000 + b * 100 + e * 10 + f - 1900;
    int mt = mc, mu = mc ? dsym("mon1", 0, 2) : dsym("mon1", 1, 9);
    two(c.m, mt, mu); c.t.tm_mon = mt * 10 + mu - 1; c.mon = c.t.tm_mon;
    int dt = dsym("day0", 0, 3), du = dsym("day1", 0, 9); two(c.d, dt, du); c.t.tm_mday = dt * 10 + du;
    int ht = dsym("hour0", 0, 2), hu = dsym("hour1", 0, 9); two(c.H, ht, hu); c.t.tm_hour = ht * 10 + hu;
    int nt = dsym("min0", 0, 5), nu = dsym("min1", 0, 9); two(c.M, nt, nu); c.t.tm_min = nt * 10 + nu;
    int st = dsym("sec0", 0, 6), su = dsym("sec1", 0, 9); two(c.S, st, su); c.t.tm_sec = st * 10 + su;
    c.wday = wday; c.t.tm_wday = wday; c.t.tm_yday = 200;
}
static inline void put(Ref &r, const Cal &c) { r.y = c.y; r.m = c.m; r.d = c.d; r.H = c.H; r.M = c.M; r.S = c.S; r.wday = c.wday; }
static inline std::string digits(const Dec &d) { std::string s; put_dec(s, d); return s; }
}
