// C07: date, time, sub-second and elapsed fields of any timestamp.
#include "fmtx.h"
using namespace fx;
static Cal cal; static int64_t want_secs; static int asked = 0; static bool wrong = false;
static bool hook(time_t t, struct tm *o) { asked++; sym_check((int64_t)t == want_secs, "calendar-asked-for-the-message-time"); *o = cal.t; return true; }
static void run(const std::string &p, const base::log_msg &m, Ref &r, const char *id) {
    sinks::pattern_formatter f(p, ""); fmt_memory_buf out;
    f.format(m, out);
    std::string w = render(r, p, p.size(), "");
    sym_check(same(out, w), id);
}
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0);
    sym_config("clz", 1); fixed_env(); Ref r; fixed(r);
    if (mode == 0 || mode == 1) {                 // calendar fields (0) and names (1)
        int64_t secs = (int64_t)sym_range("secs", 0, 9223372035ull); want_secs = secs;
        Dec ns = sym_dec("ns", 9, false); r.ns9 = digits(ns);
        env::tm_hook = hook;
        base::log_msg m(tp_t(std::chrono::nanoseconds(secs * 1000000000ll + (int64_t)ns.v)), source_loc{}, level::info, r.text, r.name);
        r.loc = false; r.lvl = 2;
        if (mode == 0) {
            sym_cal(cal, (int)sym_choose("century", 0, 1), (int)sym_choose("late-month", 0, 1), 3); put(r, cal);
            run("%y-%m-%d %H:%M:%S|%T|%E,%F,%G", m, r, "date-and-time");
        } else {
            int mc = (int)sym_choose("month", 1, 12);
            sym_cal(cal, 1, 0, (int)sym_choose("weekday", 0, 6)); cal.t.tm_mon = mc - 1; cal.mon = mc - 1; put(r, cal); r.mon = mc - 1;
            run("%a,%b,%c", m, r, "names");
        }
        sym_check(asked > 0, "calendar-asked");
        sym_cover("rendered");
    } else if (mode == 2) {                       // sub-second parts of the whole range, time given digit by digit
        env::tm_hook = nullptr;
        int k = (int)sym_choose("top", 0, 2);
        int64_t v = 0, pw = 1000000000000000000ll; std::string s;
        for (int i = 0; i < 19; i++, pw /= 10) {
            int lo = 0, hi = 9;
            if (i == 0) { lo = k ? 9 : 0; hi = k ? 9 : 8; }
            if (i == 1 && k) { lo = k == 1 ? 0 : 2; hi = k == 1 ? 1 : 2; }
            if (i == 2 && k == 2) hi = 1;
            int d = dsym("t", lo, hi); v += (int64_t)d * pw; s.push_back(dg(d));
        }
        r.ns9 = s.substr(10); r.loc = false;
        base::log_msg m(tp_t(std::chrono::nanoseconds(v)), source_loc{}, level::info, r.text, r.name);
        run("%G %F %E|%E%F%G", m, r, "sub-second");
        sym_cover("rendered");
    } else {                                      // elapsed time since the previous message (since creation for the first)
        static const char fl[] = "WXYZ"; static const int cut[] = {0, 3, 6, 9};
        int u = (int)sym_param("unit", 0);
        int64_t t0 = (int64_t)sym_range("created", 0, 1ull << 61); env::now_ns = t0;
        std::string p = std::string("%") + fl[u];
        sinks::pattern_formatter f(p, "");
        int64_t t = t0; int n = (int)sym_param("n", 2);
        for (int i = 0; i < n; i++) {
            int back = (int)sym_choose("backwards", 0, 1); int dn = (int)sym_choose("digits", sym_param("dmin", 1), sym_param("digits", 19));
            Dec d = sym_dec_max("delta", dn, 2000000000000000000ull);
            sym_assume(!back || d.v > 0);
            std::string w = "0";
            if (back) { sym_assume((int64_t)d.v <= t); t -= (int64_t)d.v; }
            else { t += (int64_t)d.v; if (dn > cut[u]) { w = digits(d); w.resize((size_t)(dn - cut[u])); if (i == 0 && dn > 1) {} } }
            r.el_ns = w;
            base::log_msg m(tp_t(std::chrono::nanoseconds(t)), source_loc{}, level::info, r.text, r.name);
            fmt_memory_buf out; f.format(m, out);
            sym_check(same(out, w), "elapsed");
        }
        sym_cover("rendered");
    }
}
