// C31: leaving the program, or close(), delivers everything accepted, ends every thread and leaves the library usable.
#include "hx.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include <thread>
using namespace hx;
static std::shared_ptr<logger> HELD;                 // older than the registry, so destroyed after it
static int made, gone, kind, N, flushed;
struct s_sink : rec_sink { s_sink() : rec_sink(made++) {} ~s_sink() override { gone++; } void flush() override { flushed++; } };
template <class S, class... A> static std::shared_ptr<logger> async(const char *name, A &&...a) {
    if (kind == 0) return learnlog::create_async_lock<S>(name, a...); if (kind == 1) return learnlog::create_async_lockfree<S>(name, a...); return learnlog::create_async_lockfree_concurrent<S>(name, a...);
}
static std::shared_ptr<base::thread_pool> make(int k, size_t q, size_t t) {
    if (k == 0) return std::make_shared<base::lock_thread_pool>(q, t); if (k == 1) return std::make_shared<base::lockfree_thread_pool>(q, t); return std::make_shared<base::lockfree_concurrent_thread_pool>(q, t);
}
static char pay[2][8];
static void send(const std::shared_ptr<logger> &l, int p, int k) { char t[3] = {(char)('a' + p), (char)('0' + k), pay[p][k]}; l->info(fmt_string_view(t, 3)); }
static int got(int sink, int p, bool ordered) {      // messages of producer p at this sink: each once, right, in order
    int c = 0, last = -1; bool seen[8] = {};
    for (int i = 0; i < nrec; i++) {
        const Rec &r = recs[i]; if (r.sink != sink || r.kind != 'm' || r.text[0] != 'a' + p) continue;
        int k = r.text[1] - '0'; sym_check(r.tlen == 3 && k >= 0 && k < 8 && r.text[2] == pay[p][k], "content"); sym_check(!seen[k], "once"); seen[k] = true; c++;
        if (ordered) { sym_check(k > last, "order"); last = k; }
    }
    return c;
}
static void all_ended() { for (int i = 1; i < sym_nthreads(); i++) sym_check(sym_done(i), "threads-ended"); }
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), n = (int)sym_param("n", 2), w = (int)sym_param("workers", 1); N = n; kind = (int)sym_param("pool", 0); env::step_ns = 0;
    sym_config("det", 0); if (sym_param("merge", 1)) sym_config("merge", 1); else sym_config("race", 1);
    sym_config("preempt", (int)sym_param("preempt", 1)); sym_config("timeouts", (int)sym_param("timeouts", 0));
    for (int k = 0; k < n && k < 8; k++) pay[0][k] = (char)sym_u8("payload"), pay[1][k] = (char)sym_u8("payload");
    bool ordered = w == 1 || kind == 2;
    if (mode == 0) {                                 // the program ends without close()
        register_thread_pool(make(kind, 2, (size_t)w));
        int hold = (int)sym_choose("hold", 0, 2);
        {
            auto l = async<s_sink>("L"); auto s = learnlog::create<s_sink>("S");
            if (sym_param("every", 0)) learnlog::flush_every(milliseconds(5));
            if (sym_param("producer", 0)) { std::thread t([l] { for (int k = 0; k < N; k++) send(l, 1, k); }); t.join(); }
            for (int k = 0; k < n; k++) { send(l, 0, k); send(s, 0, k); }
            if (hold == 1) HELD = l;
            if (hold == 2) { static std::shared_ptr<logger> later = l; }
        }
        sym_run_exit();
        sym_check(got(0, 0, ordered) == n && got(1, 0, true) == n, "everything-delivered"); if (sym_param("producer", 0)) sym_check(got(0, 1, ordered) == n, "everything-delivered");
        sym_check(env::errors == 0, "no-error"); sym_check(gone == 2, "sinks-destroyed-once"); all_ended();
    } else if (mode == 1) {                          // close(), once or twice, and going on afterwards
        register_thread_pool(make(kind, 2, (size_t)w)); auto l = async<s_sink>("L"); auto s = learnlog::create<s_sink>("S");
        if (sym_param("every", 0)) learnlog::flush_every(milliseconds(5));
        for (int k = 0; k < n; k++) { send(l, 0, k); send(s, 0, k); }
        switch (sym_choose("before", 0, 2)) { case 1: learnlog::remove_all(); break; case 2: learnlog::set_default_logger(nullptr); learnlog::remove_logger("S"); break; }
        learnlog::close();
        sym_check(got(0, 0, ordered) == n && got(1, 0, true) == n, "everything-delivered"); all_ended();
        if (sym_choose("twice", 0, 1)) learnlog::close();
        sym_check(!get_logger("L") && !get_logger("S") && !get_default_logger() && !get_thread_pool(), "nothing-registered"); sym_check(env::errors == 0, "no-error");
        int f = flushed; learnlog::flush_all(); learnlog::exec_all([](std::shared_ptr<logger>) { sym_fail("nothing-to-visit"); }); learnlog::remove_logger("L"); sym_check(flushed == f && env::errors == 0, "harmless");
        send(l, 1, 0); sym_check(env::errors == 1, "reported-without-pool"); l->flush(); sym_check(env::errors == 2 && got(0, 1, true) == 0, "reported-without-pool");
        send(s, 1, 0); s->flush(); sym_check(got(1, 1, true) == 1 && env::errors == 2, "synchronous-logger-goes-on");
        kind = (int)sym_choose("next", 0, 2);        // the library can be used again
        auto m = async<s_sink>("L"); sym_check(get_logger("L") == m && get_thread_pool(), "registered-again"); send(m, 0, 0); m->flush(); sym_check(got(2, 0, true) == 1, "delivered-again");
        send(m, 1, 0); l.reset(); s.reset(); m.reset();
        sym_run_exit();
        sym_check(got(2, 1, true) == 1 && gone == 3 && env::errors == 2, "everything-delivered"); all_ended();
    } else if (mode == 2) {                          // files are complete and closed after the program ended
        register_thread_pool(make(kind, 2, (size_t)w));
        {
            auto l = async<sinks::basic_file_sink_mt>("L", std::string("/d/f.log"), false); l->set_pattern("%v");
            auto s = learnlog::create<sinks::rolling_file_sink_mt>("S", std::string("/d/r.log"), (size_t)8, (size_t)3); s->set_pattern("%v");
            for (int k = 0; k < n; k++) { send(l, 0, k); send(s, 0, k); }
            if (sym_choose("hold", 0, 1)) HELD = l;
        }
        sym_run_exit();
        char e[16]; for (int k = 0; k < n; k++) { e[4 * k] = 'a'; e[4 * k + 1] = (char)('0' + k); e[4 * k + 2] = pay[0][k]; e[4 * k + 3] = '\n'; }
        sym_check(env::fsize("/d/f.log") == 4 * (size_t)n && env::has("/d/f.log", 0, e, 4 * (size_t)n), "file-complete");
        sym_check(env::has("/d/r_1.log", 0, e, n >= 2 ? 8 : 4) && (n < 3 || env::has("/d/r_2.log", 0, e + 8, 4)), "file-complete");
        sym_check(env::open_streams() == 0 && env::open_fds() == 0, "files-closed"); sym_check(env::errors == 0, "no-error"); all_ended();
    } else if (mode == 3) {                          // close() while another thread logs
        register_thread_pool(make(kind, 2, (size_t)w)); static std::shared_ptr<logger> l; l = async<s_sink>("L");
        if (sym_param("every", 0)) learnlog::flush_every(milliseconds(5));
        send(l, 0, 0);
        std::thread t([] { for (int k = 0; k < N; k++) send(l, 1, k); });
        learnlog::close(); sym_check(!get_logger("L") && !get_thread_pool(), "nothing-registered");
        t.join();
        int g = got(0, 1, ordered); sym_check(g + env::errors == n, "delivered-or-reported"); sym_check(got(0, 0, true) == 1, "accepted-before");
        if (w == 1 || kind == 2) for (int i = 0, k = 0; i < nrec; i++) if (recs[i].kind == 'm' && recs[i].text[0] == 'b') { sym_check(recs[i].text[1] - '0' == k, "no-gap"); k++; }
        if (env::errors) sym_cover("reported"); if (g == n) sym_cover("all"); all_ended();
    } else if (mode == 4) {                          // close() by two threads
        register_thread_pool(make(kind, 2, (size_t)w)); { auto l = async<s_sink>("L"); for (int k = 0; k < n; k++) send(l, 0, k); }
        if (sym_param("every", 0)) learnlog::flush_every(milliseconds(5));
        static auto fn = [] { learnlog::close(); sym_check(got(0, 0, false) == N, "everything-delivered"); };
        std::thread t([] { fn(); }); fn(); t.join();
        sym_check(gone == 1 && env::errors == 0, "no-error"); got(0, 0, ordered); all_ended();
    }
    sym_cover("done");
}
