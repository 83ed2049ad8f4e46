// C25: errors inside logging calls never escape, and only what failed is lost.
#include "hx.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
using namespace hx;
struct Bad { int v; bool fail; };
template <> struct fmt::formatter<Bad> {
    constexpr auto parse(format_parse_context &c) -> decltype(c.begin()) { return c.begin(); }
    auto format(const Bad &b, format_context &c) const -> decltype(c.out()) { auto o = c.out(); *o++ = 'B'; if (b.fail) throw boom(); *o++ = (char)('0' + b.v); return o; }
};
// every call may throw
static int thrown = 0, asked = 0;
struct may_sink : sinks::sink {
    int id; int nlog = 0, nflush = 0; bool tl[8] = {}, tf[8] = {};
    explicit may_sink(int i) : id(i) {}
    static bool coin(const char *n) { return sym_choose(n, 0, 1) != 0; }
    void log(const base::log_msg &m) override { int k = nlog++; asked++; if (k < 8 && tl[k]) { thrown++; throw boom(); } Rec &r = add(id, 'm'); r.lvl = m.level; r.text = dup(m.msg); r.tlen = m.msg.size(); }
    void flush() override { int k = nflush++; if (k < 8 && tf[k]) { thrown++; throw std::runtime_error("flush"); } add(id, 'f'); }
    void set_pattern(const std::string &) override {}
    void set_formatter(formatter_uni_ptr) override {}
};
static std::shared_ptr<may_sink> sk[3]; static int NS = 3;
static void coins(int msgs, int flushes) { for (int s = 0; s < NS; s++) { for (int k = 0; k < msgs; k++) sk[s]->tl[k] = may_sink::coin("throw-log"); for (int k = 0; k < flushes; k++) sk[s]->tf[k] = may_sink::coin("throw-flush"); } }
template <class F> static void safe(F f) { bool esc = false; try { f(); } catch (...) { esc = true; } sym_check(!esc, "nothing-escapes"); }
// the k-th message of each sink (text t) arrived unless that call threw; same for flushes
static void verify(const char *const *t, int n, int fl) {
    for (int s = 0; s < NS; s++) {
        sym_check(sk[s]->nlog == n, "every-sink-asked"); sym_check(sk[s]->nflush == fl, "every-sink-flushed");
        int k = 0, f = 0;
        for (int i = 0; i < nrec; i++) if (recs[i].sink == s) {
            if (recs[i].kind == 'f') { f++; continue; }
            while (k < n && sk[s]->tl[k]) k++;
            sym_check(k < n && eq(recs[i], t[k]), "later-messages-normal"); k++;
        }
        while (k < n && sk[s]->tl[k]) k++;
        sym_check(k == n, "only-that-message-lost");
        int fe = 0; for (int i = 0; i < fl; i++) fe += !sk[s]->tf[i]; sym_check(f == fe, "only-that-flush-lost");
    }
    sym_check(env::errors == thrown, "each-error-reported"); if (thrown) sym_cover("thrown");
}
struct bad_fmt : sinks::formatter {
    int fail; explicit bad_fmt(int f) : fail(f) {}
    void format(const base::log_msg &m, fmt_memory_buf &b) override { b.push_back('['); if (m.level == (level::level_enum)fail) throw boom(); b.append(m.msg.data(), m.msg.data() + m.msg.size()); }
    formatter_uni_ptr clone() const override { return formatter_uni_ptr(new bad_fmt(fail)); }
};
struct mt_sink : sinks::basic_sink<std::mutex> { fmt_memory_buf all; void output_(const base::log_msg &m) override { fmt_memory_buf b; formatter_->format(m, b); all.append(b.data(), b.data() + b.size()); } void flush_() override {} };
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0); env::step_ns = 0;
    for (int i = 0; i < 3; i++) sk[i] = std::make_shared<may_sink>(i);
    static const char *const T[4] = {"one", "n2", "three", "four"};
    if (mode == 0) {                                 // sinks that throw on any call
        NS = (int)sym_param("sinks", 3); int n = (int)sym_param("n", 2); coins(n, 1);
        std::vector<sink_shr_ptr> v; for (int i = 0; i < NS; i++) v.push_back(sk[i]);
        logger l("L", v.begin(), v.end()); int e = (int)sym_choose("entry", 0, 2);
        for (int k = 0; k < n; k++) safe([&] {
            if (k == 1) { l.info("n{}", 2); return; }
            if (e == 0) l.info(T[k]); else if (e == 1) l.log(level::error, fmt_string_view(T[k])); else l.log(tp_t(), source_loc{"f", 1, "g"}, level::warn, fmt_string_view(T[k])); });
        safe([&] { l.flush(); });
        verify(T, n, 1);
    } else if (mode == 1) {                          // flushing by level with sinks that throw
        NS = 2; coins(2, 2); logger l("L", {sk[0], sk[1]}); l.set_flush_level(level::info);
        safe([&] { l.info(T[0]); }); safe([&] { l.warn("n{}", 2); }); verify(T, 2, 2);
    } else if (mode == 2) {                          // arguments whose formatter throws; runtime format strings that do not match the arguments
        NS = 2; logger l("L", {sk[0], sk[1]}); bool bt = sym_choose("backtrace", 0, 1); if (bt) l.enable_backtrace_n(4);
        const char *w[4]; int got = 0, bad = 0;
        for (int k = 0; k < 3; k++) {
            int what = (int)sym_choose("what", 0, 5); bool ok = true; const char *text = "";
            safe([&] { switch (what) {
                case 0: l.info("x{}", Bad{1, false}); text = "xB1"; break;
                case 1: l.info("x{}", Bad{1, true}); ok = false; break;
                case 2: l.warn("{}{}", 7, Bad{2, true}); ok = false; break;
                case 3: l.error(fmt::runtime("{} {"), 5); ok = false; break;
                case 4: l.info(fmt::runtime("{}{}"), 5); ok = false; break;
                case 5: l.critical("n{}", 2); text = "n2"; break; } });
            if (ok) w[got++] = text; else bad++;
        }
        thrown = bad; verify(w, got, 0);
        if (bt) { nrec = 0; for (int i = 0; i < 2; i++) sk[i]->nlog = 0; safe([&] { l.dump_backtrace(); }); for (int s = 0; s < 2; s++) { int c = 0; for (int i = 0; i < nrec; i++) if (recs[i].sink == s) { if (c > 0 && c <= got) sym_check(eq(recs[i], w[c - 1]), "backtrace-holds-the-good-ones"); c++; } sym_check(c == got + 2, "backtrace-count"); } }
    } else if (mode == 3) {                          // any runtime format string: delivered to both sinks or reported once
        NS = 2; logger l("L", {sk[0], sk[1]}); size_t n = (size_t)sym_param("len", 3); std::string f = sym_text("f", n); for (char ch : f) sym_assume(ch != 'L'); int args = (int)sym_choose("args", 0, 2);
        safe([&] { if (args == 0) l.info(fmt::runtime(f), 42); else if (args == 1) l.info(fmt::runtime(f), "str", 7); else l.info(fmt::runtime(f), 'c'); });
        int c0 = count(0, 'm'), c1 = count(1, 'm'); sym_check(c0 == c1 && c0 + env::errors == 1, "delivered-or-reported"); sym_cover(c0 ? "delivered" : "reported");
        safe([&] { l.info("n{}", 2); }); sym_check(count(0, 'm') == c0 + 1 && eq(recs[nrec - 1], "n2"), "later-messages-normal");
    } else if (mode == 4) {                          // pool workers survive throwing sinks
        sym_config("det", 1); sym_config("preempt", 0); NS = 2; coins(2, 1);
        int kind = (int)sym_param("pool", 0); std::shared_ptr<base::thread_pool> tp;
        int stopped = 0; auto off = [&stopped] { stopped++; };
        if (kind == 0) tp = std::make_shared<base::lock_thread_pool>(4, 1, [] {}, off); else if (kind == 1) tp = std::make_shared<base::lockfree_thread_pool>(4, 1, [] {}, off); else tp = std::make_shared<base::lockfree_concurrent_thread_pool>(4, 1, [] {}, off);
        auto l = std::make_shared<async_logger>("L", sinks_init_list{sk[0], sk[1]}, tp); bool bylevel = sym_choose("flush-level", 0, 1);
        if (bylevel) l->set_flush_level(level::warn);
        safe([&] { l->info(T[0]); }); safe([&] { l->warn("n{}", 2); }); if (!bylevel) safe([&] { l->flush(); });
        l.reset(); tp.reset(); verify(T, 2, 1); sym_check(stopped == 1, "worker-ended-normally");
    } else if (mode == 5) {                          // dumping a backtrace through throwing sinks
        NS = 2; logger l("L", {sk[0], sk[1]}); l.set_log_level(level::off); l.enable_backtrace_n(2); safe([&] { l.info("one"); l.warn("n{}", 2); });
        coins(4, 0); static const char *D[4]; bool d = false; (void)d;
        safe([&] { l.dump_backtrace(); });
        static char s0[80], s1[80]; memset(s0, '*', 23); strcpy(s0 + 23, " Backtrace Start "); memset(s0 + 40, '*', 23); s0[63] = 0; memset(s1, '*', 24); strcpy(s1 + 24, " Backtrace End "); memset(s1 + 39, '*', 24); s1[63] = 0;
        D[0] = s0; D[1] = "one"; D[2] = "n2"; D[3] = s1; verify(D, 4, 0);
    } else if (mode == 6) {                          // a throwing formatter does not leave the sink locked, and writes nothing
        auto s = std::make_shared<mt_sink>(); logger l("L", {s, sk[0]}); NS = 1; int f = (int)sym_choose("fails-at", 0, 4); l.set_formatter(formatter_uni_ptr(new bad_fmt(f)));
        std::string w; const char *all[3]; int bad = 0; l.set_log_level(level::trace);
        for (int k = 0; k < 3; k++) { int lv = (int)sym_choose("level", 0, 4); safe([&] { l.log((level::level_enum)lv, fmt_string_view(T[k])); }); all[k] = T[k]; if (lv == f) bad++; else { w += "["; w += T[k]; } }
        safe([&] { l.flush(); }); thrown = bad; verify(all, 3, 1); sym_check(eq(s->all.data(), s->all.size(), w.data(), w.size()), "only-that-message-lost");
    } else if (mode == 7) {                          // flushing every registered logger, some of which throw; default-logger and registry calls
        NS = 3; coins(1, 1); for (int i = 0; i < 3; i++) { static const char *const N[3] = {"a", "b", "c"}; auto l = std::make_shared<logger>(N[i], sk[i]); register_logger(l); safe([&] { l->info(T[0]); }); }
        safe([&] { flush_all(); }); verify(T, 1, 1);
        int e = env::errors; safe([&] { register_logger(std::make_shared<logger>("a")); learnlog::set_pattern("zz", "%v"); learnlog::set_log_level("zz", level::off); learnlog::set_flush_level("zz", level::off); }); sym_check(env::errors == e + 4, "registry-errors-reported");
    }
    sym_cover("done");
}
