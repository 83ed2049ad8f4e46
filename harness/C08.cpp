// C08: the default layout of any message, whatever the same formatter rendered before.
#include "fmtx.h"
using namespace fx;
static Cal cal[4]; static int64_t secs[4]; static int ncal = 0;
static bool hook(time_t t, struct tm *o) { for (int i = 0; i < ncal; i++) if ((int64_t)t == secs[i]) { *o = cal[i].t; return true; } sym_fail("calendar-asked-for-another-time"); }
extern "C" void sym_main() {
    int n = (int)sym_param("n", 2), rich = (int)sym_param("rich", 0), sub = (int)sym_param("how", 0);
    sym_config("clz", 1); fixed_env(); env::tm_hook = hook;
    std::unique_ptr<sinks::formatter> f;
    if (sub == 0) f.reset(new sinks::pattern_formatter()); else if (sub == 1) f.reset(new sinks::pattern_formatter("%+")); 
    else { sinks::pattern_formatter g; f = g.clone(); }
    for (int i = 0; i < n; i++) {
        Ref r; fixed(r);
        int same_as = i ? (int)sym_choose("same-second-as", 0, (uint64_t)ncal) : 0;
        int k;
        if (i == 0 || same_as == ncal) {
            k = ncal; secs[k] = (int64_t)sym_range("secs", 0, 9223372035ull); for (int j = 0; j < k; j++) sym_assume(secs[j] != secs[k]);
            sym_cal(cal[k], 1, rich ? (int)sym_choose("late-month", 0, 1) : 0, 2); ncal++;
        } else k = same_as;
        put(r, cal[k]);
        Dec ns = sym_dec("ns", 9, false); r.ns9 = digits(ns);
        r.text = sym_text("text", rich ? (size_t)sym_choose("text-length", 0, 2) * 2 : 2); r.name = sym_text("name", rich ? (size_t)sym_choose("name-length", 0, 2) : i == 1 ? 0 : 1);
        r.lvl = rich ? (int)sym_choose("level", 0, 6) : 2 + i; 
        source_loc loc{}; r.loc = false; int line = 0; static std::string file; 
        int lk = rich ? (int)sym_choose("location", 0, 10) : i == 0 ? 4 : 0;        // 0..1 none, 2 no file name, 3.. line of 1..8 digits
        if (lk == 1) { line = (int)sym_range("line", 0, 0x80000000ull) * -1; loc = source_loc{"g.cpp", line, "fun"}; }
        else if (lk >= 2) {
            Dec d = sym_dec("line", lk == 2 ? 3 : lk - 2, true); r.line = digits(d); line = (int)d.v; r.loc = true; r.file = lk == 2 ? "" : "f.cpp";
            if (lk == 3) sym_assume(line > 0);
            loc = source_loc{lk == 2 ? nullptr : "f.cpp", line, "fun"};
        }
        base::log_msg m(tp_t(std::chrono::nanoseconds(secs[k] * 1000000000ll + (int64_t)ns.v)), loc, (level::level_enum)r.lvl, r.text, r.name);
        fmt_memory_buf out; size_t base = (size_t)(i % 2) * 3; out.append("abc", (const char *)"abc" + base);
        f->format(m, out);
        std::string w = render(r, "%+", 2, "\n", "", nullptr, base); for (size_t q = 0; q < base; q++) w[q] = "abc"[q];
        sym_check(same(out, w), "layout");
        sym_check(m.color_index_start == r.cs && m.color_index_end == r.ce, "level-marked");
    }
    sym_cover("rendered");
}
