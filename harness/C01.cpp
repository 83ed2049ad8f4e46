// C01: a sink receives a message exactly when both level gates admit it.
#include "hx.h"
using namespace hx;
static void emit(logger &l, int entry, level::level_enum lv, std::string &want) {
    source_loc loc{"f.cpp", 3, "fn"};
    switch (entry) {
    case 0: l.log(loc, lv, "a{}", 7); want = "a7"; break;
    case 1: l.log(lv, "a{}b", 7); want = "a7b"; break;
    case 2: l.log(lv, 42); want = "42"; break;
    case 3: l.log(lv, "lit"); want = "lit"; break;
    case 4: l.log(loc, lv, 42u); want = "42"; break;
    case 5: l.log(tp_t(nanoseconds(5)), loc, lv, fmt_string_view("sv")); want = "sv"; break;
    case 6: l.log(loc, lv, fmt_string_view("{x")); want = "{x"; break;
    case 7: l.log(lv, fmt_string_view("sv")); want = "sv"; break;
    case 8: l.log(lv, std::string("str")); want = "str"; break;
    case 9: l.log(lv, "{} {}", std::string("p"), 'q'); want = "p q"; break;
    case 10: l.log(loc, lv, "plain"); want = "plain"; break;
    }
}
static void emit_named(logger &l, int entry, int lv, std::string &want) {
    bool f = entry == 0; want = f ? "n1" : "txt";
    switch (lv) {
    case 0: f ? l.trace("n{}", 1) : l.trace("txt"); break;
    case 1: f ? l.debug("n{}", 1) : l.debug("txt"); break;
    case 2: f ? l.info("n{}", 1) : l.info("txt"); break;
    case 3: f ? l.warn("n{}", 1) : l.warn("txt"); break;
    case 4: f ? l.error("n{}", 1) : l.error("txt"); break;
    case 5: f ? l.critical("n{}", 1) : l.critical("txt"); break;
    }
}
static void emit_free(int entry, int lv, std::string &want) {
    level::level_enum le = (level::level_enum)lv;
    source_loc loc{"f.cpp", 3, "fn"};
    if (entry == 2) { learnlog::log(le, "a{}", 5); want = "a5"; return; }
    if (entry == 3) { learnlog::log(loc, le, "a{}", 6); want = "a6"; return; }
    if (entry == 4) { learnlog::log(le, 77); want = "77"; return; }
    if (entry == 5) { learnlog::log(loc, le, 78); want = "78"; return; }
    bool f = entry == 0; want = f ? "n1" : "9";
    switch (lv) {
    case 0: f ? learnlog::trace("n{}", 1) : learnlog::trace(9); break;
    case 1: f ? learnlog::debug("n{}", 1) : learnlog::debug(9); break;
    case 2: f ? learnlog::info("n{}", 1) : learnlog::info(9); break;
    case 3: f ? learnlog::warn("n{}", 1) : learnlog::warn(9); break;
    case 4: f ? learnlog::error("n{}", 1) : learnlog::error(9); break;
    case 5: f ? learnlog::critical("n{}", 1) : learnlog::critical(9); break;
    }
}
static std::shared_ptr<rec_sink> sk[3];
static level::level_enum ll, sl[3], ml;
static int ns = 3;
static void verify(const std::string &want) {
    int pos = 0;
    for (int i = 0; i < ns; i++) {
        bool admit = ml >= ll && ml >= sl[i];
        int c = count(i, 'm');
        if (admit) {
            sym_check(c == 1, "delivered-exactly-once");
            if (c != 1) return;
            int k = 0; while (!(recs[k].sink == i && recs[k].kind == 'm')) k++;
            sym_check(k >= pos, "sinks-served-in-attachment-order"); pos = k;
            sym_check(recs[k].lvl == ml, "level-unchanged");
            sym_check(eq(recs[k], want), "text");
            sym_cover("delivered");
        } else { sym_check(c == 0, "rejected-message-not-delivered"); sym_cover("rejected"); }
    }
    sym_cover("done");
}
static void setup() {
    for (int i = 0; i < ns; i++) { sk[i] = std::make_shared<rec_sink>(i); sl[i] = sym_level("sinklevel"); }
    ll = sym_level("loglevel");
    for (int i = 0; i < ns; i++) { sk[i]->set_level(sl[i]); sym_check(sk[i]->get_level() == sl[i], "sink-level-readable"); }
}
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0);
    std::string want;
    if (mode == 0) {                         // synchronous logger, every entry point taking a level
        setup();
        logger l("L", {sk[0], sk[1], sk[2]});
        l.set_log_level(ll); sym_check(l.get_log_level() == ll, "log-level-readable");
        int e = (int)sym_choose("entry", 0, 10);
        ml = sym_level("msglevel");
        emit(l, e, ml, want); verify(want);
    } else if (mode == 1) {                  // named level functions
        setup();
        std::vector<sink_shr_ptr> v{sk[0], sk[1], sk[2]};
        logger l("L", v.begin(), v.end()); l.set_log_level(ll);
        int e = (int)sym_choose("entry", 0, 1);
        ml = (level::level_enum)sym_choose("msglevel", 0, 5);
        emit_named(l, e, ml, want); verify(want);
    } else if (mode == 2) {                  // free functions through the default logger
        ns = 1; setup();
        auto l = std::make_shared<logger>("L", sk[0]);
        l->set_log_level(ll);
        learnlog::set_default_logger(l);
        int e = (int)sym_choose("entry", 0, 5);
        ml = (level::level_enum)sym_choose("msglevel", 0, 5);
        emit_free(e, ml, want); verify(want);
    } else if (mode == 3) {                  // asynchronous logger on each pool kind
        ns = 2; setup();
        sym_config("det", sym_param("det", 1)); sym_config("merge", sym_param("merge", 0)); sym_config("preempt", (int)sym_param("preempt", 0));
        int kind = (int)sym_param("pool", 0);
        {
            std::shared_ptr<base::thread_pool> tp;
            if (kind == 0) tp = std::make_shared<base::lock_thread_pool>(4, 1);
            else if (kind == 1) tp = std::make_shared<base::lockfree_thread_pool>(4, 1);
            else tp = std::make_shared<base::lockfree_concurrent_thread_pool>(4, 1);
            auto l = std::make_shared<async_logger>("L", sinks_init_list{sk[0], sk[1]}, tp);
            l->set_log_level(ll);
            int e = (int)sym_choose("entry", 0, 10);
            ml = sym_level("msglevel");
            emit(*l, e, ml, want);
            l.reset(); tp.reset();
        }
        verify(want);
    } else if (mode == 4) {                  // changing levels between messages
        ns = 2; setup();
        logger l("L", {sk[0], sk[1]});
        l.set_log_level(ll);
        l.log(level::critical, "first");
        nrec = 0;
        ll = sym_level("loglevel2"); l.set_log_level(ll);
        sl[1] = sym_level("sinklevel2"); l.sinks()[1]->set_level(sl[1]);
        ml = sym_level("msglevel");
        l.log(ml, "x{}", 1); verify("x1");
    }
}
