// C19: flush() on an asynchronous logger covers everything its thread logged before.
#include "hx.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include <thread>
using namespace hx;
static int N; static std::shared_ptr<async_logger> lg; static bool cover2; static int nsinks;
static void work(int p) {                            // log N messages, flush, look
    for (int k = 0; k < N; k++) { char t[2] = {(char)('A' + p), (char)('0' + k)}; lg->info(fmt_string_view(t, 2)); }
    int errs = env::errors;
    lg->flush();
    (void)errs;
    for (int s = 0; s < nsinks; s++) {
        int del = 0, lastm = -1, lastf = -1;
        for (int i = 0; i < nrec; i++) if (recs[i].sink == s) {
            if (recs[i].kind == 'f') lastf = i;
            else if (recs[i].text[0] == 'A' + p) { del++; lastm = i; }
        }
        if (cover2 && s == 0) continue;              // this sink throws: nothing to expect of it
        sym_check(del == N, "delivered-before-flush-returns");
        sym_check(lastf > lastm, "flushed-after-delivery");
    }
}
extern "C" void sym_main() {
    sym_config("merge", 1); sym_config("det", 0); sym_config("preempt", (int)sym_param("preempt", 1)); env::step_ns = 0;
    int kind = (int)sym_param("pool", 0), qs = (int)sym_param("qs", 2), mode = (int)sym_param("mode", 0); N = (int)sym_param("n", 2); nsinks = 2;
    cover2 = mode == 2;
    int tl = 0, tf = 0; if (mode == 2) { tl = sym_choose("throw-log", 0, 1) ? -1 : 0; tf = sym_choose("throw-flush", 0, 1) ? -1 : 0; }
    auto s0 = std::make_shared<rec_sink>(0, tl, tf), s1 = std::make_shared<rec_sink>(1);
    std::shared_ptr<base::thread_pool> tp;
    if (kind == 0) tp = std::make_shared<base::lock_thread_pool>(qs, 1); else if (kind == 1) tp = std::make_shared<base::lockfree_thread_pool>(qs, 1); else tp = std::make_shared<base::lockfree_concurrent_thread_pool>(qs, 1);
    lg = std::make_shared<async_logger>("L", sinks_init_list{s0, s1}, tp);
    if (mode == 0) { work(0); }
    else if (mode == 1) { std::thread a([] { work(1); }); work(0); a.join(); sym_check(count(0, 'm') == 2 * N && count(1, 'm') == 2 * N, "all-delivered"); }
    else if (mode == 2) { work(0); lg->info("zz"); lg->flush(); sym_check(count(1, 'm') == N + 1, "later-messages"); int want = (tl ? N + 1 : 0) + (tf ? 2 : 0); sym_check(env::errors == want, "errors-reported"); }
    else if (mode == 3) {                            // the pool is gone
        lg->info("aa"); tp.reset(); sym_check(count(0, 'm') == 1, "drained"); int f = count(0, 'f');
        lg->flush(); sym_check(env::errors == 1, "reported"); sym_check(count(0, 'f') == f, "no-flush"); lg->info("bb"); sym_check(env::errors == 2, "reported-2"); sym_check(count(0, 'm') == 1, "not-delivered");
    } else if (mode == 4) {                          // the pool goes away while another thread flushes
        std::thread a([] { lg->info("A0"); lg->flush(); });
        tp.reset(); a.join(); sym_check(env::errors <= 2, "returned"); 
        if (env::errors == 0) { sym_check(count(1, 'm') == 1 && count(1, 'f') == 1, "done-before-the-pool-goes"); sym_cover("flushed"); } else sym_cover("gone");
    } else if (mode == 5) { lg->flush(); sym_check(count(0, 'f') == 1 && count(1, 'f') == 1, "flush-of-nothing"); lg->flush(); lg->flush(); sym_check(count(0, 'f') == 3, "each-flush"); }
    if (mode != 3 && mode != 4) { int f = count(1, 'f'); lg.reset(); tp.reset(); sym_check(count(1, 'f') == f, "no-extra-flush"); sym_check(s1.use_count() == 1, "released"); }
    if (mode != 2 && mode != 3 && mode != 4) sym_check(env::errors == 0, "no-error");
    sym_cover("done");
}
