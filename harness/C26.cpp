// C26: periodic tasks run after each full interval, never concurrently, and stop promptly.
#include "hx.h"
#include "base/periodic_function.h"
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace hx;
extern int64_t rt_steady_ns;
typedef std::chrono::steady_clock sc;
static int64_t now() { return std::chrono::duration_cast<nanoseconds>(sc::now().time_since_epoch()).count(); }
static int runs, running; static bool alive_; static int64_t last, interval; static std::mutex mx; static std::condition_variable cv; static int want;
static void task() {
    sym_check(alive_, "never-after-destruction"); sym_check(running == 0, "never-concurrently"); running = 1;
    sym_check(now() - last >= interval, "after-a-full-interval");
    { std::lock_guard<std::mutex> g(mx); runs++; }
    cv.notify_one();
    sym_check(alive_, "never-after-destruction"); running = 0; last = now();
}
struct note_sink : rec_sink { int f = 0; explicit note_sink(int i) : rec_sink(i) {} void flush() override { { std::lock_guard<std::mutex> g(mx); f++; runs++; } cv.notify_one(); } };
static const int64_t IV[4] = {1, 5000000, 1000000000, 3600000000000ll};
static void wait_runs(int n) { std::unique_lock<std::mutex> g(mx); cv.wait(g, [n] { return runs >= n; }); }
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), n = (int)sym_param("n", 1); env::step_ns = 0;
    sym_config("det", 0); sym_config("timeouts", 0); if (sym_param("merge", 1)) sym_config("merge", 1); else sym_config("race", 1);
    sym_config("preempt", (int)sym_param("preempt", -1)); sym_config("spurious", (int)sym_param("spurious", 0));
    if (mode == 0 || mode == 1) {
        interval = IV[sym_choose("interval", 0, sym_param("ivs", 3))]; last = now(); alive_ = true;
        sym_config("timeouts", mode == 0 ? (int)sym_param("timeouts", 2) : 0);
        {
            std::unique_ptr<base::periodic_function> p(new base::periodic_function(task, nanoseconds(interval)));
            if (mode == 1) wait_runs(n);             // time passes only while everybody waits
            int64_t t0 = now();
            p.reset();
            int64_t t1 = now();
            if (mode == 1) { sym_check(t1 == t0, "destruction-does-not-wait-for-an-interval"); sym_check(runs <= n, "no-run-without-an-interval"); sym_check(runs >= n, "runs"); }
        }
        alive_ = false; int r = runs;
        sym_check(sym_nthreads() == 2 && sym_done(1), "thread-ended"); sym_check(running == 0 && runs == r, "finished");
        if (runs) sym_cover("ran"); else sym_cover("never-ran");
    } else if (mode == 2) {                          // no interval, no thread
        int64_t iv = (int64_t)sym_range("interval", 0, 1ull << 62); alive_ = true;
        { base::periodic_function p(task, nanoseconds(-iv)); base::periodic_function q(task, std::chrono::hours(0)); base::periodic_function r(task, milliseconds(-1)); }
        sym_check(runs == 0 && sym_nthreads() == 1, "not-at-all");
    } else if (mode == 3) {                          // flushing every registered logger, also through the default logger; replacing and stopping the flusher
        auto a = std::make_shared<note_sink>(0), b = std::make_shared<note_sink>(1), c = std::make_shared<note_sink>(2);
        register_logger(std::make_shared<logger>("a", a)); set_default_logger(std::make_shared<logger>("b", b)); auto un = std::make_shared<logger>("c", c);
        learnlog::flush_every(milliseconds(7)); int64_t t0 = now();
        wait_runs(2); sym_check(a->f == 1 && b->f == 1 && c->f == 0, "flushes-every-registered-logger"); sym_check(now() == t0 + 7000000, "after-the-interval");
        wait_runs(4); sym_check(a->f == 2 && b->f == 2, "again"); sym_check(now() == t0 + 14000000, "each-interval");
        int what = (int)sym_choose("then", 0, 2); int64_t t1 = now();
        if (what == 0) learnlog::flush_every(milliseconds(0)); else if (what == 1) learnlog::flush_every(seconds(1)); else learnlog::close();
        sym_check(now() == t1, "stops-promptly"); sym_check(sym_done(1), "old-one-ended");
        if (what == 1) { runs = 0; wait_runs(2); sym_check(now() == t1 + 1000000000, "new-interval"); }
        else { sym_check(runs == 4, "stopped"); sym_check(sym_nthreads() == 2, "no-new-thread"); }
        learnlog::close();
        sym_check(sym_done(sym_nthreads() - 1), "thread-ended");
    }
    else if (mode == 4) {                            // intervals of every kind of duration; a task that takes time
        std::unique_ptr<base::periodic_function> p; alive_ = true; int64_t t0 = now(); last = t0;
        int busy = (int)sym_choose("busy", 0, 1); auto f = [busy] { task(); if (busy) { rt_steady_ns += 40000000; last = now(); } };
        switch ((int)sym_choose("kind", 0, 8)) {
        case 0: interval = 1500000000; p.reset(new base::periodic_function(f, milliseconds(1500))); break;
        case 1: interval = 999000; p.reset(new base::periodic_function(f, microseconds(999))); break;
        case 2: interval = 1999999999; p.reset(new base::periodic_function(f, nanoseconds(1999999999))); break;
        case 3: interval = 2500000; p.reset(new base::periodic_function(f, std::chrono::duration<double>(0.0025))); break;
        case 4: interval = 250000000; p.reset(new base::periodic_function(f, std::chrono::duration<int, std::ratio<1, 4>>(1))); break;
        case 5: interval = 7200000000000ll; p.reset(new base::periodic_function(f, std::chrono::hours(2))); break;
        case 6: interval = 90000000000ll; p.reset(new base::periodic_function(f, std::chrono::duration<double, std::ratio<60>>(1.5))); break;
        case 7: interval = 86400000000000ll * 30; p.reset(new base::periodic_function(f, std::chrono::duration<short, std::ratio<86400>>(30))); break;
        default: interval = 3000000000ll * 1000000ll; p.reset(new base::periodic_function(f, milliseconds(3000000000ll))); break;
        }
        for (int i = 1; i <= n; i++) { wait_runs(i); int64_t t = t0 + i * interval + (i - 1) * (busy ? 40000000 : 0); sym_check(now() == t || (busy && now() == t + 40000000), "each-interval"); }
        p.reset(); alive_ = false; sym_check(runs == n && sym_done(1), "finished");
    } else if (mode == 5) {                          // flush_every with every kind of interval
        auto a = std::make_shared<note_sink>(0); register_logger(std::make_shared<logger>("a", a)); int64_t t0 = now(); learnlog::set_log_level("a", level::level_enum(sym_choose("level", 0, 6))); learnlog::set_flush_level("a", level::level_enum(sym_choose("flush-level", 0, 6)));
        switch ((int)sym_choose("kind", 0, 4)) {
        case 0: interval = 1500000000; learnlog::flush_every(milliseconds(1500)); break;
        case 1: interval = 999000; learnlog::flush_every(microseconds(999)); break;
        case 2: interval = 1; learnlog::flush_every(nanoseconds(1)); break;
        case 3: interval = 2500000; learnlog::flush_every(std::chrono::duration<double>(0.0025)); break;
        default: interval = 7200000000000ll; learnlog::flush_every(std::chrono::hours(2)); break;
        }
        for (int i = 1; i <= n; i++) { wait_runs(i); sym_check(a->f == i && now() == t0 + i * interval, "each-interval"); }
        // loggers that come, go or fail in between
        auto b = std::make_shared<note_sink>(1), c = std::make_shared<note_sink>(2); bool gone = sym_choose("gone", 0, 1);
        register_logger(std::make_shared<logger>("b", b)); if (gone) learnlog::remove_logger("a"); learnlog::set_default_logger(std::make_shared<logger>("c", c));
        wait_runs(n + (gone ? 2 : 3)); sym_check(a->f == n + !gone && b->f == 1 && c->f == 1, "flushes-every-registered-logger");
        learnlog::close();
    }
    sym_cover("done");
}
