// C16-C18: thread pools deliver every accepted message once, in order where promised, and drain on destruction.
#include "hx.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include <thread>
using namespace hx;
static int started, stopped, kind, nw, qs, cbs;
alignas(64) static char arena[4096]; static bool taken, place;
template <class T> struct same_place {               // an allocator that hands out the same storage again
    typedef T value_type; same_place() {} template <class U> same_place(const same_place<U> &) {}
    T *allocate(size_t n) { if (taken || n * sizeof(T) > sizeof arena) sym_unsupported("arena"); taken = true; return reinterpret_cast<T *>(arena); } void deallocate(T *, size_t) { taken = false; }
    template <class U> bool operator==(const same_place<U> &) const { return true; } template <class U> bool operator!=(const same_place<U> &) const { return false; }
};
static std::shared_ptr<base::thread_pool> make() {
    if (place) {
        same_place<char> al;
        if (kind == 0) return std::allocate_shared<base::lock_thread_pool>(al, qs, nw); if (kind == 1) return std::allocate_shared<base::lockfree_thread_pool>(al, qs, nw); return std::allocate_shared<base::lockfree_concurrent_thread_pool>(al, qs, nw);
    }
    auto on = [] { started++; }; auto off = [] { stopped++; };
    if (!cbs) { if (kind == 0) return std::make_shared<base::lock_thread_pool>(qs, nw); if (kind == 1) return std::make_shared<base::lockfree_thread_pool>(qs, nw); return std::make_shared<base::lockfree_concurrent_thread_pool>(qs, nw); }
    if (cbs == 2) { if (kind == 0) return std::make_shared<base::lock_thread_pool>(qs, nw, on); if (kind == 1) return std::make_shared<base::lockfree_thread_pool>(qs, nw, on); return std::make_shared<base::lockfree_concurrent_thread_pool>(qs, nw, on); }
    if (kind == 0) return std::make_shared<base::lock_thread_pool>(qs, nw, on, off);
    if (kind == 1) return std::make_shared<base::lockfree_thread_pool>(qs, nw, on, off);
    return std::make_shared<base::lockfree_concurrent_thread_pool>(qs, nw, on, off);
}
static const int MP = 4, MM = 6;
static char pay[MP][MM]; static int sent[MP]; static bool ordered;
static std::shared_ptr<async_logger> lg[2]; static int nl;
static void send(int p, int k) {                     // message k of producer p
    char t[3] = {(char)('A' + p), (char)('0' + k), pay[p][k]};
    lg[(p + k) % nl]->info(fmt_string_view(t, 3)); sent[p]++;
}
static int seenCnt[MP];
struct fwd_sink : rec_sink { std::shared_ptr<async_logger> to; fwd_sink() : rec_sink(9) {} void log(const base::log_msg &m) override { to->info(fmt_string_view(m.msg.data(), m.msg.size())); } void flush() override {} };
static void verify(bool all) {
    static unsigned char seen[MP][MM]; memset(seen, 0, sizeof seen);
    int last[MP]; for (int p = 0; p < MP; p++) { last[p] = -1; seenCnt[p] = 0; }
    for (int i = 0; i < nrec; i++) {
        const Rec &r = recs[i]; if (r.kind != 'm') continue;
        sym_check(r.tlen == 3, "delivered-text-length");
        int p = r.text[0] - 'A', k = r.text[1] - '0';
        sym_check(p >= 0 && p < MP && k >= 0 && k < sent[p], "delivered-text");
        sym_check(r.text[2] == pay[p][k], "delivered-content"); sym_check(!seen[p][k], "delivered-once");
        seen[p][k] = 1; seenCnt[p]++;
        if (ordered) { sym_check(k > last[p], "producer-order"); last[p] = k; }
        sym_check(eq(r.name, r.nlen, (p + k) % nl ? "L1" : "L0", 2), "delivered-logger-name");
    }
    if (all) for (int p = 0; p < MP; p++) sym_check(seenCnt[p] == sent[p], "every-message-delivered");
}
extern "C" void sym_main() {
    sym_config("merge", 1); sym_config("det", 0); sym_config("preempt", (int)sym_param("preempt", 1)); env::step_ns = 0;
    kind = (int)sym_param("pool", 0); nw = (int)sym_param("workers", 1); qs = (int)sym_param("qs", 2); cbs = (int)sym_param("cbs", 1);
    int mode = (int)sym_param("mode", 0), n = (int)sym_param("n", 2), np = (int)sym_param("producers", 2);
    static int N; N = n; ordered = nw == 1 || kind == 2;
    for (int p = 0; p < MP; p++) for (int k = 0; k < MM; k++) pay[p][k] = (char)(p < np && k < n ? sym_u8("payload") : 0);
    auto sink = std::make_shared<rec_sink>(0);
    auto tp = make();
    lg[0] = std::make_shared<async_logger>("L0", sink, tp); nl = (int)sym_param("loggers", 1); if (nl == 2) lg[1] = std::make_shared<async_logger>("L1", sink, tp);
    if (mode == 0) {                                 // the destroying thread is the producer
        for (int k = 0; k < n; k++) send(0, k);
        tp.reset(); verify(true);
    } else if (mode == 1) {                          // producers in threads of their own, joined before the pool is destroyed
        { std::thread a([] { for (int k = 0; k < N; k++) send(1, k); }), b;
          if (np > 2) b = std::thread([] { for (int k = 0; k < N; k++) send(2, k); });
          if (sym_param("main", 1)) for (int k = 0; k < n; k++) send(0, k);
          a.join(); if (np > 2) b.join(); }
        tp.reset(); verify(true);
    } else if (mode == 2) {                          // the pool is destroyed while another thread goes on logging
        std::thread a([] { for (int k = 0; k < N; k++) send(1, k); });
        if (sym_param("main", 1)) send(0, 0);
        tp.reset(); a.join();
        verify(false);
        int got = 0, tot = 0; for (int p = 0; p < MP; p++) { got += seenCnt[p]; tot += sent[p]; }
        sym_check(got + env::errors == tot, "delivered-or-reported");
        if (nw == 1) for (int i = 0, k = 0; i < nrec; i++) if (recs[i].kind == 'm' && recs[i].text[0] == 'B') { sym_check(recs[i].text[1] - '0' == k, "accepted-until-the-pool-goes"); k++; }
        if (env::errors) sym_cover("reported"); if (seenCnt[1] == N) sym_cover("all");
    } else if (mode == 3) {                          // the logger is dropped before its messages are handled
        for (int k = 0; k < n; k++) send(0, k);
        lg[0].reset(); if (lg[1]) lg[1].reset();
        tp.reset(); verify(true); sym_check(sink.use_count() == 1, "loggers-released");
    } else if (mode == 4) {                          // one thread uses two pools one after the other
        for (int k = 0; k < n; k++) send(0, k);
        if (sym_choose("drop-first", 0, 1)) { tp.reset(); verify(true); }
        auto tp2 = make(); lg[0] = std::make_shared<async_logger>("L0", sink, tp2);
        ordered = ordered && !tp;
        for (int k = n; k < 2 * n; k++) { pay[0][k] = 'x'; send(0, k); }
        tp.reset(); tp2.reset(); verify(true); nw *= 2;
    } else if (mode == 6) {                          // a pool where another one was; two pools used in turn
        place = sym_param("place", 0);
        if (place) { lg[0].reset(); tp.reset(); started = stopped = 0; cbs = 0; tp = make(); lg[0] = std::make_shared<async_logger>("L0", sink, tp); }
        std::shared_ptr<base::thread_pool> tp2;
        for (int k = 0; k < n; k++) send(0, k);
        if (place) { lg[0].reset(); tp.reset(); verify(true); tp = make(); lg[0] = std::make_shared<async_logger>("L0", sink, tp); for (int k = n; k < 2 * n; k++) { pay[0][k] = 'x'; send(0, k); } }
        else { tp2 = make(); auto l1 = std::make_shared<async_logger>("L0", sink, tp2); ordered = false; for (int k = n; k < 2 * n + 1; k++) { pay[0][k] = 'x'; std::swap(lg[0], l1); send(0, k); } nw *= 2; }
        tp.reset(); tp2.reset(); verify(true);
    } else if (mode == 7) {                          // the worker of a pool logs into another one
        auto tp2 = make(); auto f = std::make_shared<fwd_sink>(); f->to = lg[0]; auto front = std::make_shared<async_logger>("F", f, tp2); ordered = ordered && nw == 1;
        for (int k = 0; k < n; k++) { char t[3] = {'A', (char)('0' + k), pay[0][k]}; front->info(fmt_string_view(t, 3)); sent[0]++; if (sym_param("both", 0)) { pay[1][k] = 'y'; send(1, k); } }
        tp2.reset(); tp.reset(); verify(true); nw *= 2;
    } else {                                         // idle pool
        tp.reset(); verify(true);
    }
    if (cbs) sym_check(started == nw && stopped == (cbs == 1 ? nw : 0), "worker-callbacks");
    if (mode != 2) sym_check(env::errors == 0, "no-error");
    for (int i = 1; i < sym_nthreads(); i++) sym_check(sym_done(i), "threads-joined");
    sym_cover("done");
}
