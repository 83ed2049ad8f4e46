// C24: replacing the thread pool never leaves a logger on a dead pool silently; what a pool accepted is delivered before it goes.
#include "hx.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include <thread>
using namespace hx;
static int made;
struct cnt_sink : rec_sink { cnt_sink() : rec_sink(made++) {} };
struct Pool { int kind; size_t q, t; std::shared_ptr<base::thread_pool> mine; std::weak_ptr<base::thread_pool> w; };
static Pool pools[12]; static int np = 0, cur = -1;           // the model: pools made, the registered one
struct Lg { std::shared_ptr<logger> l; int pool; bool reg; rec_sink *s; int sent; };
static Lg lgs[12]; static int nl = 0;
static const char *const NAME[12] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"};
static const base::msg_queue_type QT[3] = {base::msg_queue_type::lock, base::msg_queue_type::lockfree, base::msg_queue_type::lockfree_concurrent};
static bool alive(int p) { return p == cur || pools[p].mine; }
static std::shared_ptr<base::thread_pool> make(int k, size_t q, size_t t) {
    if (k == 0) return std::make_shared<base::lock_thread_pool>(q, t); if (k == 1) return std::make_shared<base::lockfree_thread_pool>(q, t); return std::make_shared<base::lockfree_concurrent_thread_pool>(q, t);
}
static void replace(int k, size_t q, size_t t) { cur = np; pools[np++] = Pool{k, q, t, nullptr, get_thread_pool()}; for (int i = 0; i < nl; i++) if (lgs[i].pool >= 0) lgs[i].reg = false; }
static void add(std::shared_ptr<logger> l, int pool) { lgs[nl++] = Lg{l, pool, true, static_cast<rec_sink *>(l->sinks()[0].get()), 0}; }
static std::shared_ptr<logger> async(int k, const char *name) {
    if (k == 0) return learnlog::create_async_lock<cnt_sink>(name); if (k == 1) return learnlog::create_async_lockfree<cnt_sink>(name); return learnlog::create_async_lockfree_concurrent<cnt_sink>(name);
}
static void verify() {
    auto tp = get_thread_pool();
    if (cur < 0) sym_check(tp == nullptr, "no-pool");
    else { sym_check(tp == pools[cur].w.lock() && tp, "registered-pool"); if (tp) sym_check(tp->message_queue_type() == QT[pools[cur].kind] && tp->message_queue_size() == pools[cur].q && tp->threads_size() == pools[cur].t, "pool-settings"); }
    for (int i = 0; i < np; i++) sym_check(pools[i].w.expired() == !alive(i), "pool-lifetime");
    for (int i = 0; i < nl; i++) {
        sym_check(get_logger(lgs[i].l->name()).get() == (lgs[i].reg ? lgs[i].l.get() : nullptr), "registered-loggers");
        if (lgs[i].pool < 0 || !alive(lgs[i].pool)) sym_check(lgs[i].s->logs == lgs[i].sent, "delivered-before-the-pool-goes");
    }
}
static void op(int o, int maxk, int t2) {
    int e0 = env::errors, want = 0;
    switch (o) {
    case 0: { int k = (int)sym_choose("kind", 0, 2); size_t q = 2 + (size_t)k, t = t2 ? (size_t)sym_choose("threads", 1, 2) : 1;
        if (k == 0) initialize_thread_pool<base::lock_thread_pool>(q, t); else if (k == 1) initialize_thread_pool<base::lockfree_thread_pool>(q, t); else initialize_thread_pool<base::lockfree_concurrent_thread_pool>(q, t);
        replace(k, q, t); break; }
    case 1: { int k = (int)sym_choose("kind", 0, (uint64_t)maxk); auto p = make(k, 3, 1); register_thread_pool(p); replace(k, 3, 1); pools[cur].mine = p; break; }
    case 2: { register_thread_pool(nullptr); cur = -1; for (int i = 0; i < nl; i++) if (lgs[i].pool >= 0) lgs[i].reg = false; break; }
    case 3: { int k = (int)sym_choose("kind", 0, 2); int before = cur; auto l = async(k, NAME[nl]);
        if (before < 0) replace(k, base::default_queue_size, base::default_threads_num); else if (pools[before].kind != k) replace(k, pools[before].q, pools[before].t);
        sym_check(l && l->is_async(), "async-logger"); add(l, cur); break; }
    case 4: { auto l = learnlog::create<cnt_sink>(NAME[nl]); sym_check(l && !l->is_async(), "sync-logger"); add(l, -1); break; }
    case 5: case 6: { if (!nl) break; int i = (int)sym_choose("who", 0, (uint64_t)nl - 1); Lg &g = lgs[i]; bool ok = g.pool < 0 || alive(g.pool); want = !ok;
        int f = g.s->flushes;
        if (o == 5) { g.l->info("m"); if (ok) g.sent++; if (!ok) sym_cover("reported"); }
        else { g.l->flush(); if (ok && (g.pool < 0 || pools[g.pool].t == 1)) sym_check(g.s->logs == g.sent && g.s->flushes == f + 1, "flush-covers"); if (!ok) sym_check(g.s->flushes == f, "no-flush-without-pool"); }
        break; }
    case 7: { int k = -1; for (int i = 0; i < np; i++) if (pools[i].mine) k = i; if (k >= 0) pools[k].mine.reset(); break; }
    case 8: { if (cur < 0) break; auto l = std::make_shared<async_logger>(NAME[nl], std::make_shared<cnt_sink>(), get_thread_pool()); register_logger(l); add(l, cur); break; }
    case 9: { auto l = get_default_logger(); learnlog::close(); cur = -1; for (int i = 0; i < nl; i++) lgs[i].reg = false; break; }
    }
    sym_check(env::errors - e0 == want, "error-reported");
}
static std::shared_ptr<logger> sh; static int sent; static std::shared_ptr<logger> two[2]; static int K[2], N;
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), n = (int)sym_param("n", 3), o0 = (int)sym_param("o0", 99), o1 = (int)sym_param("o1", 99); N = n;
    sym_config("det", 1); sym_config("preempt", 0); env::step_ns = 0;
    if (mode == 0) {
        for (int k = 0; k < n; k++) { op(k == 0 && o0 < 99 ? o0 : k == 1 && o1 < 99 ? o1 : (int)sym_choose("op", 0, 9), 2, (int)sym_param("t2", 0)); verify(); }
        learnlog::close(); cur = -1; for (int i = 0; i < np; i++) pools[i].mine.reset();
        for (int i = 0; i < nl; i++) lgs[i].reg = false;
        verify();
        for (int i = 0; i < nl; i++) sym_check(lgs[i].l.use_count() == 1, "loggers-released");
    } else {
        sym_config("det", 0); sym_config("merge", 1); sym_config("preempt", (int)sym_param("preempt", 1));
        int k0 = (int)sym_param("k0", 0), k1 = (int)sym_param("k1", 1); K[0] = k0; K[1] = k1;
        if (mode == 1) {                             // a thread goes on logging while the pool is replaced
            auto p = make(k0, 2, 1); register_thread_pool(p); p.reset(); sh = async(k0, "a");
            std::thread a([] { for (int i = 0; i < N; i++) { char t = (char)('0' + i); sh->info(fmt_string_view(&t, 1)); } });
            sh->info("x");
            auto q = make(k1, 2, 1); register_thread_pool(q); sym_check(get_logger("a") == nullptr, "unregistered");
            a.join(); sym_check(get_thread_pool() == q, "registered-pool"); learnlog::close(); q.reset();
            int got = count(0, 'm'); sym_check(got + env::errors == N + 1, "delivered-or-reported"); sym_check(got >= 1, "accepted-before");
            int last = -1; for (int i = 0; i < nrec; i++) if (recs[i].text[0] != 'x') { int k = recs[i].text[0] - '0'; sym_check(k == last + 1, "in-order-without-gap"); last = k; }
            if (env::errors) sym_cover("reported"); if (got == N + 1) sym_cover("all");
        } else {                                     // two factories at the same time
            if (sym_param("preset", 1)) { auto p = make(0, 2, 1); register_thread_pool(p); }
            { std::thread a([] { two[1] = async(K[1], "b"); }); two[0] = async(K[0], "a"); a.join(); }
            auto tp = get_thread_pool(); sym_check(tp && (tp->message_queue_type() == QT[k0] || tp->message_queue_type() == QT[k1]), "a-pool");
            tp.reset();
            for (int i = 0; i < 2; i++) {
                const char *nm = i ? "b" : "a"; int e = env::errors; two[i]->info("m"); bool dead = env::errors > e;
                sym_check(!(dead && get_logger(nm)), "registered-logger-has-a-pool");
                if (dead) sym_cover("reported");
            }
            learnlog::close(); sym_check(count(0, 'm') + count(1, 'm') + env::errors == 2, "delivered-or-reported");
        }
    }
    sym_cover("done");
}
