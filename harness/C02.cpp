// C02: a message at or above the flush level flushes every sink after it was delivered, and only then.
#include "hx.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
using namespace hx;
static std::shared_ptr<rec_sink> sk[2]; static level::level_enum ll, fl, sl[2], ml;
static void verify(int from, level::level_enum m) {
    bool taken = (int)m >= (int)ll, want = taken & ((int)m >= (int)fl) & (m != level::off);
    for (int i = 0; i < 2; i++) {
        int nf = 0, lastm = -1, lastf = -1;
        for (int k = from; k < nrec; k++) if (recs[k].sink == i) { if (recs[k].kind == 'f') { nf++; lastf = k; } else lastm = k; }
        if (nf) { sym_check(want, "flush-only-at-or-above-flush-level"); sym_check(lastf > lastm, "flush-after-delivery"); sym_cover("flushed"); }
        else { sym_check(!want, "flush-missing"); sym_cover("not-flushed"); }
    }
}
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0);
    for (int i = 0; i < 2; i++) { sk[i] = std::make_shared<rec_sink>(i); sl[i] = sym_level("sinklevel"); sk[i]->set_level(sl[i]); }
    ll = sym_level("loglevel"); fl = sym_level("flushlevel"); ml = sym_level("msglevel");
    if (mode == 0) {
        logger l("L", {sk[0], sk[1]});
        l.set_log_level(ll); l.set_flush_level(fl); sym_check(l.get_flush_level() == fl, "flush-level-readable");
        switch (sym_choose("entry", 0, 3)) {
        case 0: l.log(ml, "a{}", 1); break;
        case 1: l.log(source_loc{"f", 1, "g"}, ml, fmt_string_view("b")); break;
        case 2: l.log(tp_t(), source_loc{}, ml, fmt_string_view("c")); break;
        default: l.log(ml, std::string("d")); break;
        }
        verify(0, ml);
    } else if (mode == 1) {                   // a backtrace-only message is not a delivered one
        logger l("L", {sk[0], sk[1]});
        l.set_log_level(ll); l.set_flush_level(fl); l.enable_backtrace_n(2);
        l.log(ml, "a"); verify(0, ml);
        int n = nrec; auto m2 = sym_level("msglevel2");
        l.log(m2, fmt_string_view("b")); verify(n, m2);
    } else if (mode == 2) {                   // default flush level is off: nothing flushes by itself
        logger l("L", {sk[0], sk[1]}); l.set_log_level(ll);
        fl = level::off; l.log(ml, "a"); verify(0, ml);
        int n = nrec; l.flush(); int c0 = 0, c1 = 0; for (int k = n; k < nrec; k++) { c0 += recs[k].kind == 'f' && recs[k].sink == 0; c1 += recs[k].kind == 'f' && recs[k].sink == 1; }
        sym_check(c0 == 1 && c1 == 1, "explicit-flush-reaches-every-sink");
    } else {                                  // asynchronous
        sym_config("merge", sym_param("merge", 1)); sym_config("det", sym_param("det", 0)); sym_config("preempt", (int)sym_param("preempt", 0));
        int kind = (int)sym_param("pool", 0), nw = (int)sym_param("workers", 1);
        {
            std::shared_ptr<base::thread_pool> tp;
            if (kind == 0) tp = std::make_shared<base::lock_thread_pool>(4, nw);
            else if (kind == 1) tp = std::make_shared<base::lockfree_thread_pool>(4, nw);
            else tp = std::make_shared<base::lockfree_concurrent_thread_pool>(4, nw);
            auto l = std::make_shared<async_logger>("L", sinks_init_list{sk[0], sk[1]}, tp);
            l->set_log_level(ll); l->set_flush_level(fl);
            l->log(ml, "a");
            if (sym_param("two", 0)) { l->log(ml, "b"); }
            l.reset(); tp.reset();
        }
        verify(0, ml);
    }
}
