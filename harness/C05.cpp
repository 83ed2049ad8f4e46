// C05: any pattern string renders as documented.
#include "fmtx.h"
using namespace fx;
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0); size_t n = (size_t)sym_param("len", 3);
    sym_config("addr", 1); fixed_env(); Ref r; fixed(r);
    r.loc = sym_param("noloc", 0) == 0;
    char pat[16]; size_t len = 0;
    if (mode == 0) { sym_bytes("p", pat, n); len = n; }                                      // any bytes
    else if (mode == 1) { char b[4]; sym_bytes("p", b, 4); pat[0] = b[0]; pat[1] = '%'; pat[2] = b[1]; pat[3] = b[2]; pat[4] = '%'; pat[5] = b[3]; len = 6; }
    else if (mode == 2) { pat[0] = '%'; char b[4]; sym_bytes("p", b, 3); pat[1] = b[0]; pat[2] = b[1]; pat[3] = '%'; pat[4] = b[2]; len = 5; }
    else { pat[0] = '%'; char b[4]; sym_bytes("p", b, 4); pat[1] = b[0]; sym_assume(b[0] == '-' || b[0] == '='); pat[2] = b[1]; pat[3] = b[2]; pat[4] = b[3]; len = 5; }
    std::string p(pat, len);
    std::string eol = "\n";
    std::unique_ptr<sinks::pattern_formatter> f;
    int how = (int)sym_choose("how", 0, (uint64_t)sym_param("hows", 3));
    fmt_memory_buf out;
    base::log_msg m = fixed_msg(r);
    if (how == 0) f.reset(new sinks::pattern_formatter(p));
    else if (how == 1) { eol = "<E%v>"; f.reset(new sinks::pattern_formatter(p, eol)); }
    else if (how == 2) { f.reset(new sinks::pattern_formatter("%v%5!c")); f->set_pattern(p); }
    else { eol = ""; f.reset(new sinks::pattern_formatter(std::string("%+"), eol)); f->set_pattern(p); p.assign(len, '#'); }
    out.append("pre", (const char *)"pre" + 3); fmt_memory_buf o2;
    f->format(m, out);
    std::string w = render(r, pat, len, eol, "", nullptr, 3);
    w[0] = 'p'; w[1] = 'r'; w[2] = 'e';
    sym_check(out.size() == w.size(), "rendered-length");
    sym_check(same(out, w), "rendered");
    sym_check(m.color_index_start == r.cs && m.color_index_end == r.ce, "colour-marks");
    sym_cover("rendered");
    if (how == 0 && sym_param("again", 1)) {                                       // formatting again gives the same (elapsed time: same message, so zero)
        Ref q = r; q.cs = q.ce = 0; q.el_ns = q.el_us = q.el_ms = q.el_s = "0";
        f->format(m, o2);
        std::string w2 = render(q, pat, len, eol);
        sym_check(same(o2, w2), "rendered-again");
        auto c = f->clone(); fmt_memory_buf o3; Ref q2; fixed(q2); q2.loc = r.loc;
        c->format(m, o3); std::string w3 = render(q2, pat, len, eol);
        sym_check(same(o3, w3), "clone-renders-the-same");
    }
}
