// C09: source location fields.
#include "fmtx.h"
using namespace fx;
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0);
    sym_config("clz", 1); fixed_env(); Ref r; fixed(r);
    char file[8], func[8]; size_t fl = 0, ul = 0; source_loc loc{};
    const char *fp = nullptr, *up = nullptr;
    int fk = (int)sym_choose("file", 0, 4), uk = (int)sym_choose("function", 0, 3);        // 0: missing, k: k-1 characters
    if (fk) { fl = (size_t)fk - 1; for (size_t i = 0; i < fl; i++) file[i] = (char)sym_range("file-byte", 1, 255); file[fl] = 0; fp = file; }
    if (uk) { ul = (size_t)uk - 1; for (size_t i = 0; i < ul; i++) func[i] = (char)sym_range("func-byte", 1, 255); func[ul] = 0; up = func; }
    r.file.assign(file, fl); r.func.assign(func, ul);
    int nd = (int)sym_choose("digits", 0, 11), line;
    if (nd == 0) { line = (int)((uint32_t)sym_u32("line") | 0x80000000u); r.loc = false; }
    else if (nd == 11) { line = 0; r.loc = false; }
    else { Dec d = sym_dec_max("line", nd, 2147483647ull); sym_assume(d.v > 0); line = (int)d.v; r.line = digits(d); }
    base::log_msg m(tp_t(std::chrono::nanoseconds(5)), source_loc{fp, line, up}, level::info, r.text, r.name);
    if (mode == 1) { base::log_msg t(source_loc{fp, line, up}, level::info, r.text, r.name); sym_check(t.loc.line == line && t.loc.filename == fp && t.loc.funcname == up, "location-kept"); }
    static const char *const pats[] = {"%@|%A|%B|%C;", "%9@|%5A|%12B|%4C;", "%-20@|%-5A|%-2B|%-4C;", "%=17@|%=5A|%=12B|%=4C;", "%4!@|%2!A|%3!B|%-2!C;", "%0!@%0!A%0!B%0!C;"};
    std::string p = pats[mode == 0 ? 0 : sym_choose("pattern", 1, 5)];
    sinks::pattern_formatter f(p, ""); fmt_memory_buf out;
    f.format(m, out);
    std::string w = render(r, p, p.size(), "");
    sym_check(same(out, w), "location-text");
    sym_cover("rendered");
}
