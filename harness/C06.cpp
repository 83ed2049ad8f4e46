// C06: width, alignment and truncation of every field.
#include "fmtx.h"
using namespace fx;
static const char flags[] = "nlabcymdHMSEFGTWXYZptv@ABC";
static void one(const std::string &p, Ref r, const base::log_msg &m, size_t before) {
    sinks::pattern_formatter f(p, "\n"); fmt_memory_buf out;
    for (size_t i = 0; i < before; i++) out.push_back('=');
    f.format(m, out);
    std::string w = render(r, p, p.size(), "\n", "", nullptr, before);
    for (size_t i = 0; i < before; i++) w[i] = '=';
    sym_check(out.size() == w.size(), "padded-length");
    sym_check(same(out, w), "padded-text");
}
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0);
    sym_config("addr", 1); fixed_env(); Ref r; fixed(r); r.loc = sym_param("noloc", 0) == 0;
    base::log_msg m = fixed_msg(r);
    std::string p = "<";
    std::string text;
    int al = (int)sym_choose("align", 0, 2);
    auto spec = [&](int digits, int lo, int hi) {
        p.push_back('%'); if (al) p.push_back(al == 1 ? '-' : '=');
        for (int i = 0; i < digits; i++) p.push_back((char)sym_range("digit", (uint64_t)(i ? '0' : '0' + lo), (uint64_t)(i ? '9' : '0' + hi)));
        if (digits > 3) { unsigned w = 0; for (int i = 0; i < digits && w <= 64; i++) w = w * 10 + (unsigned)(sym_concretize((uint8_t)p[p.size() - (size_t)digits + (size_t)i]) - '0'); }
        if (sym_choose("cut", 0, 1)) p.push_back('!');
    };
    if (mode == 0 || mode == 1) {                 // message text of many lengths; widths of 1..3 digits, or very long ones
        static const int lens[] = {0, 1, 2, 3, 5, 7, 16, 63, 64, 65, 70, 300};
        size_t n = (size_t)lens[sym_choose("length", sym_param("l0", 0), sym_param("l1", 11))];
        text = sym_text("text", n); r.text = text; m.msg = r.text;
        int nd = (int)sym_param("digits", 2);
        spec(nd, mode == 1 && nd > 10, 9); p += "v>";
        one(p, r, m, 0);
        sym_cover("padded");
    } else if (mode == 2) {                       // every field
        char fl = flags[sym_choose("flag", sym_param("f0", 0), sym_param("f1", sizeof flags - 2))];
        spec(2, 0, 3); p.push_back(fl); p += ">%S";
        one(p, r, m, 0);
        sym_cover("padded");
    } else {                                      // two padded fields and colour marks between
        text = sym_text("text", 3); r.text = text; m.msg = r.text;
        p += "%^"; spec(1, 0, 9); p += "v%$"; spec(1, 0, 9); p += "n|%3!v"; 
        one(p, r, m, (size_t)sym_choose("before", 0, 1) * 498);
        Ref q = r; std::string w = render(q, p, p.size(), "\n");
        sym_cover("padded");
    }
}
