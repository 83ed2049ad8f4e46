// C03: what a sink sees is byte for byte what the logging call got, also after queueing, copying and moving.
#include "hx.h"
#include <pthread.h>
#include "async_logger.h"
#include "base/log_msg_buf.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
using namespace hx;
static std::string text, nm; static tp_t t; static source_loc loc; static level::level_enum lv; static size_t tid;
static pthread_t main_thread;
static const char *fn = "file.cpp", *fu = "func";
static void setup(size_t tl, size_t nl) {
    text = sym_text("text", tl); nm = sym_text("name", nl);
    t = tp_t(std::chrono::nanoseconds((int64_t)sym_u64("time")));
    loc = source_loc{fn, (int)sym_u32("line"), fu};
    lv = sym_level("level");
}
static void same(const base::log_msg &m) {
    sym_check(eq(m.msg.data(), m.msg.size(), text.data(), text.size()), "text");
    sym_check(eq(m.logger_name.data(), m.logger_name.size(), nm.data(), nm.size()), "name");
    sym_check(m.time == t, "time"); sym_check(m.level == lv, "level"); sym_check(m.tid == tid, "thread-id");
    sym_check(m.loc.line == loc.line, "line"); sym_check(m.loc.filename == fn && m.loc.funcname == fu, "location");
}
static void same(const Rec &r, bool with_time, bool with_loc) {
    sym_check(eq(r.text, r.tlen, text.data(), text.size()), "text");
    sym_check(eq(r.name, r.nlen, nm.data(), nm.size()), "name");
    if (with_time) sym_check(r.time == t, "time");
    sym_check(r.lvl == lv, "level"); sym_check(r.tid == tid, "thread-id");
    if (with_loc) { sym_check(r.loc.line == loc.line, "line"); sym_check(r.loc.filename == fn && r.loc.funcname == fu, "location"); }
    else sym_check(r.loc.line == 0, "no-location");
}
static void scribble(std::string &s) { for (size_t i = 0; i < s.size(); i++) s[i] = '#'; }
// log through one of the entry points from buffers that are overwritten afterwards; returns what was given (bit0 time, bit1 loc)
static int emit(logger &l, int e) {
    std::string tmp(text.begin(), text.end());
    int r = 0;
    switch (e) {
    case 0: l.log(t, loc, lv, fmt_string_view(tmp)); r = 3; break;
    case 1: l.log(loc, lv, fmt_string_view(tmp)); r = 2; break;
    case 2: l.log(lv, fmt_string_view(tmp)); break;
    case 3: l.log(lv, "{}", tmp); break;
    case 4: l.log(loc, lv, "{}", fmt_string_view(tmp)); r = 2; break;
    }
    scribble(tmp);
    return r;
}
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0); tid = (size_t)sym_range("tid", 1, 4194304); main_thread = pthread_self(); env::tid_hook = [] () -> size_t { return pthread_self() == main_thread ? tid : 5000000; };
    size_t tl = (size_t)sym_param("tlen", 3), nl = (size_t)sym_param("nlen", 2);
    if (sym_param("vary", 0)) { tl = (size_t)sym_choose("tlen", 0, tl); nl = (size_t)sym_choose("nlen", 0, nl); }
    setup(tl, nl);
    if (mode == 0) {
        auto s = std::make_shared<rec_sink>(0), s2 = std::make_shared<rec_sink>(1);
        logger l(nm, {s, s2}); l.set_log_level(level::trace);
        int e = (int)sym_choose("entry", 0, 4);
        env::now_ns = (int64_t)sym_range("clock", 0, 4000000000000000000ull); env::step_ns = 0;
        int g = emit(l, e);
        sym_check(nrec == 2, "delivered");
        for (int i = 0; i < nrec; i++) { same(recs[i], g & 1, g & 2); if (!(g & 1)) sym_check(recs[i].time == tp_t(std::chrono::nanoseconds(env::now_ns)), "stamped-with-the-current-time"); }
        sym_cover("sync");
    } else if (mode == 1) {                          // the owning copy used by queues
        std::string tb(text.begin(), text.end()), nb(nm.begin(), nm.end());
        {
            base::log_msg m(t, loc, lv, tb, nb);
            same(m);
            base::log_msg_buf a(m);
            scribble(tb); scribble(nb); tb.assign(400, '!'); nb.clear();
            same(a);
            std::string ot(sym_choose("otherlen", 0, 1) ? 300 : 2, 'o');
            base::log_msg om(tp_t(), source_loc{"x", 1, "y"}, level::off, ot, "oo");
            base::log_msg_buf other(om), none;
            base::log_msg_buf *cur = &a; base::log_msg_buf *tmp[4]; int nt = 0;
            int steps = (int)sym_param("nops", 2);
            for (int k = 0; k < steps; k++) {
                base::log_msg_buf *n = nullptr;
                switch (sym_choose("op", 0, 6)) {
                case 0: n = new base::log_msg_buf(*cur); break;
                case 1: n = new base::log_msg_buf(std::move(*cur)); break;
                case 2: n = new base::log_msg_buf(); *n = *cur; break;
                case 3: n = new base::log_msg_buf(other); *n = *cur; *cur = other; break;
                case 4: n = new base::log_msg_buf(other); *n = std::move(*cur); *cur = none; break;
                case 5: { const base::log_msg_buf &self = *cur; *cur = self; n = cur; break; }
                case 6: n = new base::log_msg_buf(*cur); *cur = std::move(other); other = *n; break;
                }
                same(*n);
                if (n != cur) tmp[nt++] = n;
                cur = n;
            }
            same(*cur);
            for (int i = 0; i < nt; i++) if (tmp[i] != cur) { delete tmp[i]; same(*cur); }
            if (cur != &a) delete cur;
            sym_cover("copies");
        }
    } else if (mode == 2) {                          // queued on a pool; the caller reuses and frees its buffers
        sym_config("det", sym_param("det", 1)); sym_config("merge", sym_param("merge", 0)); sym_config("preempt", (int)sym_param("preempt", 0));
        int kind = (int)sym_param("pool", 0), n = (int)sym_param("n", 2);
        auto s = std::make_shared<rec_sink>(0);
        int g = 0;
        {
            std::shared_ptr<base::thread_pool> tp;
            if (kind == 0) tp = std::make_shared<base::lock_thread_pool>(4, 1);
            else if (kind == 1) tp = std::make_shared<base::lockfree_thread_pool>(4, 1);
            else tp = std::make_shared<base::lockfree_concurrent_thread_pool>(4, 1);
            auto l = std::make_shared<async_logger>(nm, s, tp); l->set_log_level(level::trace);
            int e = (int)sym_choose("entry", 0, 4);
            for (int i = 0; i < n; i++) g = emit(*l, e);
            l.reset(); tp.reset();
        }
        sym_check(nrec == n, "delivered");
        for (int i = 0; i < nrec; i++) same(recs[i], g & 1, g & 2);
        sym_cover("queued");
    }
}
