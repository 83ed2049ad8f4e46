// C32: what the library reports when it catches an error.
#include "fmtx.h"
#include "base/exception.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include <thread>
using namespace fx;
static Cal cal; static int64_t want_secs; static int asked;
static bool hook(time_t t, struct tm *o) { asked++; sym_check((int64_t)t == want_secs, "the-current-time"); *o = cal.t; return true; }
struct told : std::exception { std::string s; explicit told(std::string t) : s(std::move(t)) {} ~told() noexcept override {} const char *what() const noexcept override { return s.c_str(); } };
struct bad_sink : rec_sink { std::string what; bool echo; explicit bad_sink(std::string w, bool e = false) : rec_sink(0), what(std::move(w)), echo(e) {} void log(const base::log_msg &m) override { throw told(echo ? std::string(m.msg.data(), m.msg.size()) : what); } void flush() override { throw told(what); } };
static std::string text(const char *n, size_t len) { std::string s = sym_text(n, len); for (size_t i = 0; i < len; i++) sym_assume(s[i] != 0); return s; }
static std::string stamp() { return cal.y + "-" + cal.m + "-" + cal.d + " " + cal.H + ":" + cal.M + ":" + cal.S; }
static std::string entry(unsigned k, const std::string &t) { std::string s = "[*** EXCEPTION #"; put_u(s, k, 4); return s + " ***] [" + stamp() + "] " + t + "\n"; }
static bool tail(const std::string &w, size_t from) { return env::err.len == from + w.size() && sym_eq_mem(env::err.data + from, w.data(), w.size()); }
static void plain_cal() { sym_config("merge", 0); cal.y = "2024"; cal.m = "05"; cal.d = "06"; cal.H = "07"; cal.M = "08"; cal.S = "09"; memset(&cal.t, 0, sizeof cal.t); cal.t.tm_year = 124; cal.t.tm_mon = 4; cal.t.tm_mday = 6; cal.t.tm_hour = 7; cal.t.tm_min = 8; cal.t.tm_sec = 9; }
static bool find(const std::string &w, size_t from) { if (w.size() > env::err.len - from) return false; bool f = false; for (size_t i = from; i + w.size() <= env::err.len; i++) f |= sym_eq_mem(env::err.data + i, w.data(), w.size()) != 0; return f; }
static int N; static std::shared_ptr<logger> lg[2];
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), len = (int)sym_param("len", 2); env::report_text = true; env::step_ns = 0;
    if (mode == 0) {                                 // one error, any text, at any time
        int64_t secs = (int64_t)sym_range("secs", 0, 9223372035ull); want_secs = secs; env::now_ns = secs * 1000000000ll + (int64_t)sym_range("ns", 0, 999999999);
        sym_cal(cal, (int)sym_choose("century", 0, 1), (int)sym_choose("late-month", 0, 1), 3); env::tm_hook = hook;
        std::string t = text("what", (size_t)len); logger l("L", std::make_shared<bad_sink>(t));
        if (sym_choose("flush", 0, 1)) l.flush(); else l.error("x");
        sym_check(tail(entry(1, t), 0) && asked > 0, "report"); sym_check(env::err.writes >= 1 && env::out.len == 0, "on-stderr");
    } else if (mode == 6) {                          // a second one at another time, also after the clock was set back
        plain_cal(); want_secs = 1700000000; env::now_ns = want_secs * 1000000000ll + 999999999; env::tm_hook = hook; std::string t = text("what", (size_t)len); logger l("L", std::make_shared<bad_sink>(t));
        l.info("x"); std::string w = entry(1, t);
        want_secs = (int64_t)sym_range("secs", 0, 9223372035ull); env::now_ns = want_secs * 1000000000ll + (int64_t)sym_range("ns", 0, 999999999); sym_assume(want_secs != 1700000000);
        sym_cal(cal = Cal(), 1, 0, 3); l.info("y"); w += entry(2, t); sym_check(tail(w, 0), "report");
    } else if (mode == 1) {                          // several in a row are numbered
        plain_cal(); int n = (int)sym_param("n", 12); std::string w; logger l("L", std::make_shared<bad_sink>("", true));
        for (int i = 0; i < n; i++) { char c = (char)sym_u8("c"); sym_assume(c != 0); std::string t(1, c); l.info(fmt_string_view(t.data(), 1)); w += entry((unsigned)i + 1, t); }
        sym_check(tail(w, 0), "report");
    } else if (mode == 2) {                          // reports of several threads: whole lines, each number once
        plain_cal(); sym_config("det", 0); if (sym_param("race", 0)) sym_config("race", 1); else { sym_config("merge", 1); env::io_points = true; } sym_config("preempt", (int)sym_param("preempt", -1)); N = (int)sym_param("n", 2);
        for (int i = 0; i < 2; i++) lg[i] = std::make_shared<logger>(i ? "b" : "a", std::make_shared<bad_sink>("", true));
        { std::thread t([] { for (int i = 0; i < N; i++) { char c[2] = {'b', (char)('0' + i)}; lg[1]->info(fmt_string_view(c, 2)); } });
          for (int i = 0; i < N; i++) { char c[2] = {'a', (char)('0' + i)}; lg[0]->info(fmt_string_view(c, 2)); } t.join(); }
        size_t ll = entry(1, "xx").size(); sym_check(env::err.len == ll * 2 * (size_t)N, "every-report"); unsigned num = 0; int nxt[2] = {0, 0};
        for (int i = 0; i < 2 * N; i++) {
            const unsigned char *p = env::err.data + (size_t)i * ll; int a = p[ll - 3], k = p[ll - 2] - '0', no = p[19] - '0'; 
            sym_check((a == 'a' || a == 'b') && k >= 0 && k < N && no >= 1 && no <= 2 * N, "whole-line");
            std::string w = entry((unsigned)no, std::string(1, (char)a) + (char)('0' + k)); sym_check(memcmp(p, w.data(), ll) == 0, "whole-line");
            sym_check(!(num >> no & 1), "number-once"); num |= 1u << no; sym_check(nxt[a - 'a'] == k, "in-order"); nxt[a - 'a']++;
        }
    } else if (mode == 3) {                          // the text of the library's own exceptions
        static const int E[] = {0, 2, 5, 13, 28}; std::string t = text("msg", (size_t)len); int e = E[sym_choose("errno", 0, 4)]; std::string se = std::generic_category().message(e);
        try { throw_learnlog_excpt(t); } catch (const std::exception &x) { sym_check(strlen(x.what()) == t.size() && sym_eq_mem(x.what(), t.data(), t.size()), "text"); }
        std::string w = t + ": " + se;
        try { throw_learnlog_excpt(t, e); } catch (const std::exception &x) { sym_check(strlen(x.what()) == w.size() && sym_eq_mem(x.what(), w.data(), w.size()), "text-and-system-error"); }
        Dec ln = sym_dec("line", (int)sym_choose("digits", 1, 8), true); source_loc loc("dir/file.cpp", (int)ln.v, "func");
        try { throw_learnlog_excpt(t, e, loc); } catch (const std::exception &x) {
            size_t n = strlen(x.what()); sym_check(n >= w.size() && sym_eq_mem(x.what(), w.data(), w.size()), "text-and-system-error");
            std::string q = "dir/file.cpp:"; put_dec(q, ln); bool at = false, fn = false;
            for (size_t i = w.size(); i < n; i++) { if (i + q.size() <= n && sym_eq_mem(x.what() + i, q.data(), q.size())) at = true; if (i + 4 <= n && memcmp(x.what() + i, "func", 4) == 0) fn = true; }
            sym_check(at && fn, "location");
        }
        try { std::exception_ptr p; try { throw learnlog_excpt(t); } catch (...) { p = std::current_exception(); } std::rethrow_exception(p); } catch (const learnlog_excpt &x) { learnlog_excpt y(x); sym_check(strlen(y.what()) == t.size() && sym_eq_mem(y.what(), t.data(), t.size()), "text-of-a-copy"); }
    } else if (mode == 4) {                          // errors of the registry name the logger
        plain_cal(); static const char *const NM[] = {"n", "%s%n", "a{}b", "", "a longer name of forty-odd characters, all told"}; std::string nm = NM[sym_choose("name", 0, 4)]; auto s = std::make_shared<rec_sink>(0); size_t at = 0; int k = 1;
        auto one = [&](const char *id) { sym_check(env::errors == k, "reported-once"); std::string head = entry((unsigned)k, ""); head.pop_back(); sym_check(env::err.len > at + head.size() && sym_eq_mem(env::err.data + at, head.data(), head.size()) && env::err.data[env::err.len - 1] == '\n', "report"); sym_check(find(nm, at), id); at = env::err.len; k++; };
        auto l = std::make_shared<logger>(nm, s);
        switch (sym_choose("what", 0, 4)) {
        case 0: register_logger(l); sym_check(env::errors == 0, "no-error"); register_logger(std::make_shared<logger>(nm, s)); one("names-the-duplicate"); initialize_logger(std::make_shared<logger>(nm, s)); one("names-the-duplicate"); break;
        case 1: learnlog::set_pattern(nm, "%v"); one("names-the-unknown"); break;
        case 2: learnlog::set_log_level(nm, level::info); one("names-the-unknown"); break;
        case 3: learnlog::set_flush_level(nm, level::info); one("names-the-unknown"); break;
        case 4: learnlog::remove_logger(nm); sym_check(env::errors == 0, "no-error"); break;
        }
    } else {                                         // errors in pool workers and calls on a dead pool
        plain_cal(); sym_config("det", 0); sym_config("merge", 1); sym_config("preempt", (int)sym_param("preempt", 1)); int kind = (int)sym_param("pool", 0); std::shared_ptr<base::thread_pool> tp;
        if (kind == 0) tp = std::make_shared<base::lock_thread_pool>(2, 1); else if (kind == 1) tp = std::make_shared<base::lockfree_thread_pool>(2, 1); else tp = std::make_shared<base::lockfree_concurrent_thread_pool>(2, 1);
        auto l = std::make_shared<async_logger>("L", std::make_shared<bad_sink>("", true), tp); std::string a(1, (char)sym_u8("a")), b(1, (char)sym_u8("b")); sym_assume(a[0] != 0 && b[0] != 0);
        l->info(fmt_string_view(a.data(), 1)); l->info(fmt_string_view(b.data(), 1)); tp.reset(); sym_check(tail(entry(1, a) + entry(2, b), 0), "report");
        size_t at = env::err.len; l->info("z"); l->flush(); sym_check(env::errors == 4 && env::err.len > at, "dead-pool-reported"); std::string h = "[*** EXCEPTION #0003 ***] [" + stamp() + "] ";
        sym_check(env::err.len > at + h.size() && memcmp(env::err.data + at, h.data(), h.size()) == 0 && env::err.data[env::err.len - 1] == '\n', "dead-pool-reported");
    }
    sym_cover("done");
}
