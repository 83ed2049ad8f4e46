// C21: backtrace keeps exactly the last n messages and dumps them once, in order, between a start and an end line.
#include "hx.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include <thread>
using namespace hx;
struct M { level::level_enum lv; std::string t; source_loc loc; tp_t tm; bool timed; };
static M all[12]; static int na = 0;
static int ring[12], nr = 0; static size_t cap = 0; static bool on = false;         // the model: indices into all, oldest first
static level::level_enum ll = level::info;
static void same(const Rec &r, const M &m) {
    sym_check(r.lvl == m.lv, "level"); sym_check(eq(r, m.t), "text"); sym_check(eq(r.name, r.nlen, "LOG", 3), "logger-name");
    sym_check(r.loc.line == m.loc.line && r.loc.filename == m.loc.filename && r.loc.funcname == m.loc.funcname, "source-location");
    if (m.timed) sym_check(r.time == m.tm, "time");
}
static int pos = 0;                                  // deliveries verified so far
static void expect_dump() {
    if (!on) { sym_check(nrec == pos, "dump-without-backtrace-is-a-no-op"); return; }
    sym_check(nrec == pos + nr + 2, "dump-count"); if (nrec != pos + nr + 2) return;
    sym_check(recs[pos].tlen > 16 && recs[pos].lvl == level::info && sym_eq_mem(recs[pos].text + 24, "Backtrace Start", 15), "start-line");
    for (int i = 0; i < nr; i++) same(recs[pos + 1 + i], all[ring[i]]);
    sym_check(recs[pos + nr + 1].tlen > 14 && sym_eq_mem(recs[pos + nr + 1].text + 25, "Backtrace End", 13), "end-line");
    pos = nrec; if (nr) sym_cover("dumped"); nr = 0;
}
static void push(int k) { if (!on || !cap) return; if ((size_t)nr == cap) { for (int i = 1; i < nr; i++) ring[i - 1] = ring[i]; nr--; } ring[nr++] = k; }
static const char *const FILES[2] = {"a.cpp", "bb.cpp"};
static void log_one(logger &l) {
    M &m = all[na]; m.lv = sym_level("level"); m.timed = false; m.loc = source_loc{};
    size_t n = (size_t)sym_param("tlen", 2); if (na % 3 == 2) n = (size_t)sym_param("long", 2);
    m.t = sym_text("text", n);
    switch (na % 3) {
    case 0: m.loc = source_loc{FILES[0], (int)sym_range("line", 1, 1000), "fn"}; m.tm = tp_t(nanoseconds((int64_t)sym_range("time", 0, 1ull << 62))); m.timed = true; l.log(m.tm, m.loc, m.lv, fmt_string_view(m.t)); break;
    case 1: l.log(m.lv, fmt::runtime("{}"), m.t); break;
    case 2: m.loc = source_loc{FILES[1], 3, "gn"}; l.log(m.loc, m.lv, fmt_string_view(m.t)); break;
    }
    push(na); na++;
    if (nrec != pos) { sym_check(nrec == pos + 1 && m.lv >= ll, "delivered-only-if-enabled"); same(recs[pos], m); pos = nrec; } else sym_check(m.lv < ll, "delivered-if-enabled");
}
static std::shared_ptr<logger> sh; static int N;
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), n = (int)sym_param("n", 5); N = n; env::step_ns = 0;
    auto s = std::make_shared<rec_sink>(0);
    if (mode == 0) {
        logger l("LOG", s); ll = sym_level("log-level"); l.set_log_level(ll);
        if (sym_param("pre", 0)) { size_t c = (size_t)sym_param("cap", 3); l.enable_backtrace_n(c); on = true; cap = c; int k = (int)sym_choose("fill", 0, c + 1); for (int i = 0; i < k; i++) log_one(l); }
        for (int k = 0; k < n; k++) switch (sym_choose("op", 0, 3)) {
            case 0: log_one(l); break;
            case 1: l.dump_backtrace(); expect_dump(); break;
            case 2: { size_t c = (size_t)sym_choose("n", 0, (uint64_t)sym_param("maxn", 3)); l.enable_backtrace_n(c); on = true; cap = c; nr = 0; break; }
            case 3: l.disable_backtrace(); on = false; nr = 0; break; }
        l.dump_backtrace(); expect_dump(); l.dump_backtrace(); expect_dump();
    } else if (mode == 1) {                          // asynchronous logger: the same, once the pool has handled everything
        sym_config("det", 1); sym_config("preempt", 0);
        int kind = (int)sym_param("pool", 0); std::shared_ptr<base::thread_pool> tp;
        if (kind == 0) tp = std::make_shared<base::lock_thread_pool>(8, 1); else if (kind == 1) tp = std::make_shared<base::lockfree_thread_pool>(8, 1); else tp = std::make_shared<base::lockfree_concurrent_thread_pool>(8, 1);
        auto l = std::make_shared<async_logger>("LOG", s, tp); l->set_log_level(level::off); ll = level::off;
        cap = (size_t)sym_choose("n", 0, 3); on = true; l->enable_backtrace_n(cap);
        int k = (int)sym_choose("logged", 0, 4); for (int i = 0; i < k; i++) { M &m = all[na]; m.lv = (level::level_enum)(int)sym_range("level", 0, 5); m.t = sym_text("text", 2); m.timed = false; m.loc = source_loc{}; l->log(m.lv, fmt_string_view(m.t)); push(na); na++; }
        l->dump_backtrace(); l.reset(); tp.reset(); expect_dump();
    } else if (mode == 2) {                          // logging, dumping, disabling from two threads
        sym_config("det", 0); sym_config("preempt", (int)sym_param("preempt", 2)); if (sym_param("merge", 1)) sym_config("merge", 1); else sym_config("race", 1);
        struct ser_sink : rec_sink { std::mutex m; ser_sink() : rec_sink(0) {} void log(const base::log_msg &q) override { std::lock_guard<std::mutex> g(m); rec_sink::log(q); } };
        auto z = std::make_shared<ser_sink>();
        sh = std::make_shared<logger>("LOG", z); sh->set_log_level(level::off); sh->enable_backtrace_n(4); int what = (int)sym_param("what", 0);
        { std::thread a([] { sh->info("A0"); if (N > 1) sh->info("A1"); });
          sh->info("B0"); if (what == 0) sh->dump_backtrace(); else if (what == 1) sh->disable_backtrace(); else sh->enable_backtrace_n(4);
          a.join(); }
        if (what == 0) sh->dump_backtrace();
        int a0 = 0, a1 = 0, b0 = 0, f = 0, la = -1; for (int i = 0; i < nrec; i++) { if (recs[i].tlen > 10) { f++; continue; } bool fst = recs[i].text[1] == '0'; if (recs[i].text[0] == 'A') { sym_check((fst ? 0 : 1) > la, "order"); la = fst ? 0 : 1; (fst ? a0 : a1)++; } else b0++; }
        if (what == 0) { sym_check(a0 == 1 && b0 == 1 && a1 == (N > 1), "dumped-exactly-once"); sym_check(f == 4, "start-and-end"); }
        else { int before = nrec; sh->dump_backtrace(); if (what == 1) sym_check(nrec == before, "disabled"); else sym_check(nrec <= before + 2 + 1 + N, "enabled-anew"); }
    } else if (mode == 3) {                          // levels of the sinks and no sinks at all
        auto s1 = std::make_shared<rec_sink>(1); level::level_enum sl = sym_level("sink-level"), lv = sym_level("level"); s1->set_level(sl);
        logger l("LOG", {s, s1}); l.set_log_level(level::off); l.enable_backtrace_n(1); l.log(lv, fmt_string_view("x")); l.dump_backtrace();
        bool marks = level::info >= sl; int want = (lv >= sl ? (lv == level::off ? 2 : 1) : 0) + (marks ? 2 : 0); sym_check(count(1, 'm') == want, "sink-level-applies"); 
        logger e("LOG", std::vector<sink_shr_ptr>().begin(), std::vector<sink_shr_ptr>().begin()); e.dump_backtrace(); e.enable_backtrace_n(1); e.info("x"); e.dump_backtrace(); e.disable_backtrace(); e.dump_backtrace();
    }
    sym_check(env::errors == 0, "no-error");
    sym_cover("done");
}
