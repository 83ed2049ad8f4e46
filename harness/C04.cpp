// C04: formatted arguments appear as their exact text; the integer appenders print the exact decimal text.
#include "hx.h"
#include "base/fmt_base.h"
#include <climits>
using namespace hx;
static std::shared_ptr<rec_sink> sk;
static std::string want;
static void check(const char *id) {
    sym_check(nrec == 1 && recs[0].kind == 'm', "delivered");
    if (nrec != 1) return;
    sym_check(recs[0].tlen == want.size(), id); sym_check(eq(recs[0], want), id);
    nrec = 0; want.clear(); sym_cover("formatted");
}
static void buf_is(const fmt_memory_buf &b, size_t from, const char *id) {
    sym_check(b.size() - from == want.size(), id);
    sym_check(eq(b.data() + from, b.size() - from, want.data(), want.size()), id);
    sym_cover("appended");
}
// a value of type T with its decimal text: nd symbolic digits, or one of the extreme values of the type
template <typename T> struct Num { T v; bool neg; std::string dig; int nd; };
template <typename T> static Num<T> number(int maxd, bool allow_neg) {
    Num<T> r; uint64_t mx = (uint64_t)std::numeric_limits<T>::max();
    r.neg = allow_neg && std::is_signed<T>::value && sym_choose("neg", 0, 1);
    int c = (int)sym_choose("digits", (uint64_t)sym_param("mind", 0), sym_param("mind", 0) ? (uint64_t)sym_param("mind", 0) : (uint64_t)maxd);
    if (c == 0) {                                          // extremes
        uint64_t a = (r.neg ? mx + 1 : mx) - sym_choose("below-extreme", 0, 3);
        r.v = r.neg ? (T)(0 - a) : (T)a; put_u(r.dig, a, 1); r.nd = (int)r.dig.size(); return r;
    }
    Dec d = sym_dec_max("d", c, mx); r.nd = c;
    if (r.neg) sym_assume(d.v >= 1);
    r.v = r.neg ? (T)(0 - d.v) : (T)d.v; put_dec(r.dig, d);
    return r;
}
template <typename T> static void fill(int maxd) {                     // fill_uint and digit count, any fill length
    Num<T> x = number<T>(maxd, false);
    size_t fl = (size_t)sym_choose("fill", 0, 22);
    fmt_memory_buf b; b.push_back('|');
    base::fmt_base::fill_uint(x.v, fl, b);
    for (size_t i = x.nd; i < fl; i++) want.push_back('0');
    want += x.dig; buf_is(b, 1, "fill_uint"); sym_check(b[0] == '|', "earlier-content-kept");
    sym_check(base::fmt_base::count_unsigned_digits(x.v) == (size_t)x.nd, "digit-count");
}
template <typename T> static void appint(int maxd) {
    Num<T> x = number<T>(maxd, true);
    fmt_memory_buf b; base::fmt_base::append_int(x.v, b);
    if (x.neg) want.push_back('-');
    want += x.dig; buf_is(b, 0, "append_int");
}
template <typename T> static void logint(logger &l, int maxd) {
    Num<T> x = number<T>(maxd, true); T v = x.v; bool neg = x.neg; std::string &dig = x.dig;
    std::string s = (neg ? "-" : "") + dig;
    switch (sym_choose("spec", (uint64_t)sym_param("s0", 0), (uint64_t)sym_param("s1", 8))) {
    case 0: l.log(level::info, "<{}>", v); want = "<" + s + ">"; break;
    case 1: l.info(v); want = s; break;
    case 2: l.log(level::info, "{:7}|", v); want = std::string(s.size() < 7 ? 7 - s.size() : 0, ' ') + s + "|"; break;
    case 3: l.log(level::info, "{:<7}|", v); want = s + std::string(s.size() < 7 ? 7 - s.size() : 0, ' ') + "|"; break;
    case 4: { l.log(level::info, "{:*^8}|", v); size_t p = s.size() < 8 ? 8 - s.size() : 0; want = std::string(p / 2, '*') + s + std::string(p - p / 2, '*') + "|"; break; }
    case 5: { l.log(level::info, "{:08d}|", v); size_t p = s.size() < 8 ? 8 - s.size() : 0; want = (neg ? "-" : "") + std::string(p, '0') + dig + "|"; break; }
    case 6: if (std::is_signed<T>::value) { l.log(level::info, "{:+}|{:>{}}", v, v, 9); want = neg ? s : "+" + s; } else { l.log(level::info, "{:-<1}|{:>{}}", v, v, 9); want = s; }
            want += "|" + std::string(s.size() < 9 ? 9 - s.size() : 0, ' ') + s; break;
    case 7: l.log(level::info, "{1} {0} {1}", v, 'k'); want = "k " + s + " k"; break;
    case 8: l.log(level::info, "{n}{n}", fmt::arg("n", v)); want = s + s; break;
    }
    check("integer-text");
}
static const char *hexd(bool up) { return up ? "0123456789ABCDEF" : "0123456789abcdef"; }
template <typename T> static void loghex(logger &l, int nib) {          // leading nibble non-zero, so the value has exactly n digits
    int n = (int)sym_choose("nibbles", 1, nib); uint64_t v = 0; uint8_t d[16];
    for (int i = 0; i < n; i++) { d[i] = (uint8_t)sym_range("nibble", i == 0 && n > 1 ? 1 : 0, 15); v = v << 4 | d[i]; }
    T x = (T)v; int sp = (int)sym_choose("spec", 0, 4);
    bool up = sp == 1 || sp == 3;
    std::string s; for (int i = 0; i < n; i++) s.push_back((char)(d[i] < 10 ? '0' + d[i] : (up ? 'A' : 'a') + (d[i] - 10)));
    switch (sp) {
    case 0: l.log(level::info, "{:x}", x); want = s; break;
    case 1: l.log(level::info, "{:X}", x); want = s; break;
    case 2: l.log(level::info, "{:#x}", x); want = "0x" + s; break;
    case 3: l.log(level::info, "{:#012X}", x); want = "0X" + std::string(s.size() < 10 ? 10 - s.size() : 0, '0') + s; break;
    case 4: { l.log(level::info, "{:b}", x);
        int lead = 0; for (int i = 0; i < n; i++) for (int k = 3; k >= 0; k--) { if (i == 0 && k > 0 && !lead) { if (!sym_concretize((d[0] >> k) & 1)) continue; } lead = 1; want.push_back((char)('0' + ((d[i] >> k) & 1))); }
        break; }
    }
    check("hex-text");
}
extern "C" void sym_main() {
    sym_config("clz", 1);
    int mode = (int)sym_param("mode", 0), ty = (int)sym_param("type", 0);
    sk = std::make_shared<rec_sink>(0); logger l("L", sk);
    want.reserve(64);
    if (mode == 0) {
        switch (ty) { case 0: fill<unsigned>(10); break; case 1: fill<size_t>(20); break; case 2: fill<unsigned char>(3); break; case 3: fill<unsigned short>(5); break; case 4: fill<int>(10); break; case 5: fill<long long>(19); break; }
    } else if (mode == 1) {
        switch (ty) { case 0: appint<int>(10); break; case 1: appint<unsigned>(10); break; case 2: appint<long long>(19); break; case 3: appint<unsigned long long>(20); break; case 4: appint<short>(5); break; case 5: appint<signed char>(3); break; }
    } else if (mode == 2) {
        switch (ty) { case 0: logint<int>(l, 10); break; case 1: logint<unsigned>(l, 10); break; case 2: logint<long long>(l, 19); break; case 3: logint<unsigned long long>(l, 20); break; case 4: logint<short>(l, 5); break; case 5: logint<signed char>(l, 3); break; case 6: logint<unsigned short>(l, 5); break; }
    } else if (mode == 3) {
        if (ty == 0) loghex<unsigned>(l, 8); else loghex<unsigned long long>(l, 16);
    } else if (mode == 4) {                              // strings, characters, booleans
        size_t n = (size_t)sym_choose("len", 0, (uint64_t)sym_param("len", 4));
        std::string s = sym_text("s", n);
        int sp = (int)sym_choose("spec", 0, 9);
        if (sp >= 3 && sp <= 6) for (size_t i = 0; i < n; i++) sym_assume((unsigned char)s[i] < 128);        // width counts code points: keep to one byte each
        switch (sp) {
        case 0: l.log(level::info, "a{}b", s); want = "a" + s + "b"; break;
        case 1: for (char c : s) sym_assume(c != 0); l.log(level::info, "{}{}", s.c_str(), fmt_string_view(s)); want = s + s; break;
        case 2: l.log(level::info, "{{{}}} }}{{", s); want = "{" + s + "} }{"; break;
        case 3: l.log(level::info, "[{:6}]", s); want = "[" + s + std::string(s.size() < 6 ? 6 - s.size() : 0, ' ') + "]"; break;
        case 4: l.log(level::info, "[{:->6}]", s); want = "[" + std::string(s.size() < 6 ? 6 - s.size() : 0, '-') + s + "]"; break;
        case 5: l.log(level::info, "[{:.2}]", s); want = "[" + s.substr(0, 2) + "]"; break;
        case 6: { l.log(level::info, "[{:^7.3}]", s); std::string c = s.substr(0, 3); size_t p = 7 - c.size(); want = "[" + std::string(p / 2, ' ') + c + std::string(p - p / 2, ' ') + "]"; break; }
        case 7: { char c = (char)sym_u8("c"); l.log(level::info, "{}{:>3}", c, c); sym_assume((unsigned char)c < 128); want = std::string(1, c) + "  " + std::string(1, c); break; }
        case 8: { bool b = sym_choose("b", 0, 1); l.log(level::info, "{} {:d} {:6}", b, b, b); want = b ? "true 1 true  " : "false 0 false "; break; }
        case 9: l.log(level::info, s); want = s; break;
        }
        check("string-text");
    } else {                                             // any format string of n bytes with one argument
        size_t n = (size_t)sym_param("len", 3);
        std::string f = sym_text("fmt", n);
        // oracle: literal text, {{, }} and {} ; anything else in braces is only required to be contained
        bool known = true; size_t i = 0; bool used = false;
        std::string w;
        while (i < n) {
            char c = f[i];
            if (c == '{') { if (i + 1 < n && f[i + 1] == '{') { w.push_back('{'); i += 2; } else if (i + 1 < n && f[i + 1] == '}' && !used) { w += "42"; used = true; i += 2; } else { known = false; break; } }
            else if (c == '}') { if (i + 1 < n && f[i + 1] == '}') { w.push_back('}'); i += 2; } else { known = false; break; } }
            else { w.push_back(c); i++; }
        }
        l.log(level::info, fmt::runtime(f), 42);
        if (known) { want = w; check("literal-text"); }
        else { sym_check(nrec == 1 || env::errors == 1, "malformed-is-reported"); sym_cover("other"); l.log(level::info, "next"); sym_check(nrec >= 1 && eq(recs[nrec - 1], "next"), "later-messages-unaffected"); }
    }
}
