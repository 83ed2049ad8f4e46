// C29: the multi-producer multi-consumer queue: each item comes out exactly once, in order per producer, and nothing leaks.
#include "hx.h"
#include "base/concurrentqueue/blockingconcurrentqueue.h"
#include "base/concurrentqueue/concurrentqueue.h"
#include <cstdlib>
#include <iterator>
#include <memory>
#include <thread>
using namespace hx;
namespace mc = moodycamel;
static int live, memory; static bool counting = true; extern int64_t rt_steady_ns;
struct Item {                                        // counts its objects and notices double destruction and use of destroyed or moved-from ones
    int v; int st;
    Item() : v(-1), st(1) { live++; }
    Item(int x) : v(x), st(1) { live++; }
    Item(const Item &o) : v(o.get()), st(1) { live++; }
    Item(Item &&o) : v(o.get()), st(1) { o.st = 2; live++; }
    Item &operator=(const Item &o) { sym_check(st == 1 || st == 2, "assign-to-live-object"); v = o.get(); st = 1; return *this; }
    Item &operator=(Item &&o) { sym_check(st == 1 || st == 2, "assign-to-live-object"); v = o.get(); st = 1; o.st = 2; return *this; }
    ~Item() { sym_check(st == 1 || st == 2, "destroyed-once"); st = 3; live--; }
    int get() const { sym_check(st == 1, "item-is-live"); return v; }
};
static inline int val(const Item &i) { return i.get(); }
static inline int val(int i) { return i; }
struct T2 : mc::ConcurrentQueueDefaultTraits { static const size_t BLOCK_SIZE = 2, EXPLICIT_INITIAL_INDEX_SIZE = 2, IMPLICIT_INITIAL_INDEX_SIZE = 2, INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 1; static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 2; static const int MAX_SEMA_SPINS = 1; static void *malloc(size_t n) { if (counting) memory++; return std::malloc(n); } static void free(void *p) { if (p && counting) memory--; std::free(p); } };
struct T2c : T2 { static const size_t BLOCK_SIZE = 4, EXPLICIT_BLOCK_EMPTY_COUNTER_THRESHOLD = 2; static const bool RECYCLE_ALLOCATED_BLOCKS = true; };
struct T2r : T2 { static const bool RECYCLE_ALLOCATED_BLOCKS = true; };
struct T4 : T2 { static const size_t BLOCK_SIZE = 4, EXPLICIT_INITIAL_INDEX_SIZE = 4, IMPLICIT_INITIAL_INDEX_SIZE = 4, MAX_SUBQUEUE_SIZE = 8; };
struct T5 : T2 { static const size_t MAX_SUBQUEUE_SIZE = 6; };
// --- one thread: the queue as three lists, one per producer (0 implicit, 1 and 2 explicit)
static int lst[3][64], nl[3], hd[3], next_; static int limit;
static int total() { return nl[0] - hd[0] + nl[1] - hd[1] + nl[2] - hd[2]; }
static void take(int v, int only) {                  // v came out: it must be at the front of a producer's list
    int at = -1; for (int p = 0; p < 3; p++) if (hd[p] < nl[p] && lst[p][hd[p]] == v) at = p;
    sym_check(at >= 0, "front-of-a-producer"); if (at < 0) sym_end(); sym_check(only < 0 || at == only, "from-that-producer"); hd[at]++;
}
static void put(int p, int k) { for (int i = 0; i < k; i++) lst[p][nl[p]++] = next_ - k + i; }
template <class Q> struct Seq {
    std::unique_ptr<Q> q; std::unique_ptr<mc::ProducerToken> t[3]; std::unique_ptr<mc::ConsumerToken> c;
    void enq(int p, int k, bool bulk, bool grow, bool mv) {
        Item a[4]; for (int i = 0; i < k; i++) a[i] = Item(next_++);
        bool ok; mc::ProducerToken *pt = p ? t[p].get() : nullptr;
        if (bulk) { if (mv) { auto it = std::make_move_iterator(a); ok = pt ? (grow ? q->enqueue_bulk(*pt, it, k) : q->try_enqueue_bulk(*pt, it, k)) : (grow ? q->enqueue_bulk(it, k) : q->try_enqueue_bulk(it, k)); } else ok = pt ? (grow ? q->enqueue_bulk(*pt, (const Item *)a, k) : q->try_enqueue_bulk(*pt, (const Item *)a, k)) : (grow ? q->enqueue_bulk((const Item *)a, k) : q->try_enqueue_bulk((const Item *)a, k)); }
        else if (mv) ok = pt ? (grow ? q->enqueue(*pt, std::move(a[0])) : q->try_enqueue(*pt, std::move(a[0]))) : (grow ? q->enqueue(std::move(a[0])) : q->try_enqueue(std::move(a[0])));
        else ok = pt ? (grow ? q->enqueue(*pt, (const Item &)a[0]) : q->try_enqueue(*pt, (const Item &)a[0])) : (grow ? q->enqueue((const Item &)a[0]) : q->try_enqueue((const Item &)a[0]));
        bool mightfill = limit && nl[p] - hd[p] + k > limit - (limit == 8 ? 4 : 2);           // blocks partly used count against the limit
        if (grow && !mightfill) sym_check(ok, "enqueue-succeeds");
        if (ok) put(p, k); else { sym_cover("full"); for (int i = 0; i < k; i++) sym_check(a[i].st == 1 || mv, "refused-item-not-moved"); }
        if (limit) sym_check(nl[p] - hd[p] <= limit, "not-beyond-the-limit");
    }
    void deq(int how, int k) {                       // how: 0 plain, 1 consumer token, 2/3 explicit producer 1/2, 4 not interleaved
        int avail = how == 2 ? nl[1] - hd[1] : how == 3 ? nl[2] - hd[2] : total(), only = how == 2 ? 1 : how == 3 ? 2 : -1;
        if (k == 1) {
            Item x(-7); bool ok = how == 0 ? q->try_dequeue(x) : how == 1 ? q->try_dequeue(*c, x) : how == 4 ? q->try_dequeue_non_interleaved(x) : q->try_dequeue_from_producer(*t[how - 1], x);
            sym_check(ok == (avail > 0), "dequeue-succeeds-iff-available"); if (ok) take(x.get(), only); else sym_check(x.get() == -7, "untouched");
        } else {
            Item x[4]; size_t n = how == 1 ? q->try_dequeue_bulk(*c, x, k) : how == 2 || how == 3 ? q->try_dequeue_bulk_from_producer(*t[how - 1], x, k) : q->try_dequeue_bulk(x, k);
            sym_check(n == (size_t)(avail < k ? avail : k), "bulk-takes-all-available"); if (n > 4) sym_end(); for (size_t i = 0; i < n; i++) take(x[i].get(), only); for (int i = (int)n; i < 4; i++) sym_check(x[i].get() == -1, "untouched");
        }
    }
    void reuse() {                                   // a drained queue with one producer takes nearly its capacity without allocating
        int p = -1, others = 0; for (int k = 0; k < 3; k++) if (nl[k]) { if (p >= 0) others++; p = k; }
        if (p < 0 || others || reset) return;
        int bs = (int)Q::BLOCK_SIZE, cap = (int)sym_param("capacity", 2), n = (cap + bs - 1) / bs * bs - bs + 1, m = memory;
        for (int k = 0; k < n; k++) { Item x(next_++); bool ok = p ? q->try_enqueue(*t[p], std::move(x)) : q->try_enqueue(std::move(x)); sym_check(ok, "memory-reused"); if (!ok) return; put(p, 1); }
        sym_check(memory == m, "no-allocation"); sym_cover("reused"); while (total() > 0) deq(0, 1);
    }
    bool reset = false;
    void size() { sym_check(q->size_approx() == (size_t)total(), "size"); sym_check(live == total(), "objects"); }
    void make() { q.reset(new Q((size_t)sym_param("capacity", 2))); t[1].reset(new mc::ProducerToken(*q)); t[2].reset(new mc::ProducerToken(*q)); c.reset(new mc::ConsumerToken(*q)); }
    void run() {
        make(); int set = (int)sym_param("set", 0), n = (int)sym_param("n", 3); size();
        // any reachable position within the blocks
        if (sym_param("pre", 1)) for (int p = 0; p < 3; p++) { if (!(sym_param("pmask", 3) >> p & 1)) continue; int e = (int)sym_choose("put", 0, sym_param("maxput", 3)), d = (int)sym_choose("taken", 0, (uint64_t)e); for (int i = 0; i < e; i++) enq(p, 1, false, true, true); for (int i = 0; i < d; i++) { if (p) deq(p + 1, 1); else deq(0, 1); } }
        size();
        for (int k = 0; k < n; k++) {
            if (set == 0) {                           // one explicit producer
                switch (sym_choose("op", 0, 5)) { case 0: enq(1, 1, false, true, false); break; case 1: enq(1, 1, false, false, true); break; case 2: enq(1, (int)sym_choose("k", 2, 3), true, true, false); break; case 3: enq(1, (int)sym_choose("k", 1, 3), true, false, true); break; case 4: deq(2, 1); break; case 5: deq(2, (int)sym_choose("k", 2, 4)); break; }
            } else if (set == 1) {                    // the implicit producer
                switch (sym_choose("op", 0, 5)) { case 0: enq(0, 1, false, true, false); break; case 1: enq(0, 1, false, false, true); break; case 2: enq(0, (int)sym_choose("k", 2, 3), true, true, true); break; case 3: enq(0, (int)sym_choose("k", 1, 3), true, false, false); break; case 4: deq(0, 1); break; case 5: deq(0, (int)sym_choose("k", 2, 4)); break; }
            } else if (set == 2) {                    // all producers, every way to take
                switch (sym_choose("op", 0, 7)) { case 0: enq(0, 1, false, true, true); break; case 1: enq(1, 2, true, true, true); break; case 2: enq(2, 1, false, true, true); break; case 3: deq(0, 1); break; case 4: deq(1, 1); break; case 5: deq((int)sym_choose("how", 0, 1), 3); break; case 6: deq(4, 1); break; case 7: deq(3, 1); break; }
            } else {                                  // tokens come and go, the queue is moved and swapped
                switch (sym_choose("op", 0, 7)) {
                case 0: enq(2, 1, false, true, true); break; case 1: enq(0, 1, false, true, true); break; case 2: deq(0, 1); break; case 3: reset = true; t[2].reset(); t[2].reset(new mc::ProducerToken(*q)); break;
                case 4: c.reset(new mc::ConsumerToken(*q)); break; case 5: { reset = true; std::unique_ptr<Q> m(new Q(std::move(*q))); { Item x; sym_check(!q->try_dequeue(x) && q->size_approx() == 0, "moved-from-is-empty"); } q = std::move(m); c.reset(new mc::ConsumerToken(*q)); break; }
                case 6: { Q o(2); q->swap(o); sym_check(q->size_approx() == 0 && o.size_approx() == (size_t)total(), "swapped"); q->enqueue(Item(5000)); swap(*q, o); Item x; sym_check(o.try_dequeue(x) && x.get() == 5000, "other-kept"); c.reset(new mc::ConsumerToken(*q)); break; }
                case 7: deq(1, 1); break; }
            }
            size();
        }
        int rest = (int)sym_choose("drain", 0, 1); if (rest) { while (total() > 0) deq(0, 1); deq(0, 1); size(); reuse(); }
        if (sym_choose("tokens-first", 0, 1)) { t[1].reset(); t[2].reset(); c.reset(); q.reset(); } else { t[1]->swap(*t[2]); mc::ProducerToken z(std::move(*t[1])); q.reset(); t[1].release(); t[2].release(); c.release(); sym_check(live == 0, "all-destroyed"); sym_check(memory == 0, "memory-given-back"); sym_cover("done"); sym_end(); }
        sym_check(live == 0, "all-destroyed"); sym_check(memory == 0, "memory-given-back");
    }
};
// --- two or three threads
struct Op { char op; }; static const char *prog[3]; static int nthr;
struct Deq { bool ok; int v, start, end, asked; }; static Deq dq[16]; static int ndq; static int est[64], een[64], clk;        // start/end of each enqueue by item
static const char *const PROGS[] = {"E|D", "T|D", "EE|D", "TT|D", "B|DD", "b|K", "EE|DD", "TT|DD", "E|E|D", "T|T|D", "E|T|C", "ED|ED", "TD|TD", "E|ED", "TT|CC", "TT|F", "bT|K", "EEE|D", "TTT|D", "BE|K", "E|D|D", "TT|D|D", "EE|D|D", "b|F|D", "X|D", "XT|DD", "EDED|D", "TDTD|D", "EED|EDD", "TTD|TDD", "XX|X|D", "bD|K|D", "EX|ED|D", "TTTTT|KK", "ETET|CD|D", "ee|eeK", "e|K", "e|e|K", "eK|eK", "ee|K|K", "eeK|e|e", "K|K|e"};
template <class Q, class V> struct Par {
    static Q *q; static mc::ProducerToken *tok[3];
    static void run(int t) {
        int item = t * 10; std::unique_ptr<mc::ConsumerToken> c;
        for (const char *p = prog[t]; *p; p++) switch (*p) {
            case 'E': { int i = item++; est[i] = ++clk; q->enqueue(V(i)); een[i] = ++clk; break; }
            case 'T': { int i = item++; est[i] = ++clk; q->enqueue(*tok[t], V(i)); een[i] = ++clk; break; }
            case 'e': { int i = item; item += 2; V a[2] = {V(i), V(i + 1)}; est[i] = est[i + 1] = ++clk; q->enqueue_bulk(a, 2); een[i] = een[i + 1] = ++clk; break; }
            case 'B': case 'b': { int i = item; item += 3; V a[3] = {V(i), V(i + 1), V(i + 2)}; for (int k = 0; k < 3; k++) est[i + k] = clk + 1; ++clk; if (*p == 'B') q->enqueue_bulk(a, 3); else q->enqueue_bulk(*tok[t], a, 3); ++clk; for (int k = 0; k < 3; k++) een[i + k] = clk; break; }
            case 'X': { mc::ProducerToken x(*q); int i = item++; est[i] = ++clk; q->enqueue(x, V(i)); een[i] = ++clk; break; }          // a token of its own, given back
            default: {
                int k = *p == 'K' ? 2 : 1; Deq &d0 = dq[ndq]; (void)d0; int at = ndq; ndq += k; for (int j = 0; j < k; j++) { dq[at + j].start = clk + 1; dq[at + j].end = 1000; dq[at + j].ok = false; dq[at + j].asked = j; } ++clk;
                V x[2] = {V(-1), V(-1)}; size_t n;
                if (*p == 'C') { if (!c) c.reset(new mc::ConsumerToken(*q)); n = q->try_dequeue(*c, x[0]); } else if (*p == 'F') n = q->try_dequeue_from_producer(*tok[0], x[0]); else if (*p == 'K') n = q->try_dequeue_bulk(x, 2); else n = q->try_dequeue(x[0]);
                ++clk; for (int j = 0; j < k; j++) { dq[at + j].end = clk; dq[at + j].ok = (size_t)j < n; dq[at + j].v = (size_t)j < n ? val(x[j]) : -1; }
            } }
    }
    static int prod(int t, const char *p0, int i) { int n = t * 10; for (const char *p = p0; *p; p++) { int k = *p == 'E' || *p == 'T' || *p == 'X' ? 1 : *p == 'B' || *p == 'b' ? 3 : *p == 'e' ? 2 : 0; if (i < n + k) return *p == 'X' ? 100 + i : t * 3 + (*p == 'T' || *p == 'b'); n += k; } return -1; }
    static void go(bool race) {
        Q qq((size_t)sym_param("cap", 6)); q = &qq; std::unique_ptr<mc::ProducerToken> ts[3]; for (int t = 0; t < nthr; t++) { bool need = false; for (const char *p = prog[t]; *p; p++) if (*p == 'T' || *p == 'b') need = true; if (t == 0) for (int u = 0; u < nthr; u++) for (const char *p = prog[u]; *p; p++) need = need || *p == 'F'; if (need) { ts[t].reset(new mc::ProducerToken(qq)); tok[t] = ts[t].get(); } }
        if (sym_param("shift", 0)) { V x(0); for (int k = 0; k < (int)sym_param("shift", 0); k++) { if (tok[0]) { qq.enqueue(*tok[0], V(1)); qq.try_dequeue(x); } qq.enqueue(V(2)); qq.try_dequeue(x); } }
        if (sym_param("fill", 0)) { int n = 2 * (int)sym_param("fill", 0); for (int k = 0; k < n; k++) qq.enqueue(V(1)); V x(0); for (int k = 0; k < n; k++) qq.try_dequeue(x); }      // blocks on the free list
        int nitems[3]; for (int t = 0; t < nthr; t++) { nitems[t] = 0; for (const char *p = prog[t]; *p; p++) nitems[t] += *p == 'E' || *p == 'T' || *p == 'X' ? 1 : *p == 'B' || *p == 'b' ? 3 : *p == 'e' ? 2 : 0; }
        { std::thread a([] { run(1); }), b; if (nthr > 2) b = std::thread([] { run(2); }); run(0); a.join(); if (nthr > 2) b.join(); }
        if (race) return;
        bool seen[32] = {}; int first = ndq;
        for (;;) { V x(-1); Deq &d = dq[ndq]; d.start = ++clk; bool ok = qq.try_dequeue(x); d.end = ++clk; d.ok = ok; if (!ok) break; d.v = val(x); d.asked = 0; if (++ndq >= 16) sym_fail("more-items-than-enqueued"); }
        (void)first; int got = 0, all = 0; for (int t = 0; t < nthr; t++) all += nitems[t];
        for (int i = 0; i < ndq; i++) if (dq[i].ok) { int v = dq[i].v; sym_check(v >= 0 && v < nthr * 10 && v % 10 < nitems[v / 10], "only-enqueued-items"); if (v < 0 || v >= 30) sym_end(); sym_check(!seen[v], "dequeued-once"); seen[v] = true; sym_check(est[v] < dq[i].end, "not-before-its-enqueue"); got++; }
        sym_check(got == all, "none-lost");
        // per producer order: an item whose dequeue began after the dequeue of another item of its producer ended is the later one
        for (int i = 0; i < ndq; i++) for (int j = 0; j < ndq; j++) if (dq[i].ok && dq[j].ok && i != j && (dq[i].end < dq[j].start || (i + 1 == j && dq[j].asked == 1))) { int a = dq[i].v, b = dq[j].v; if (prod(a / 10, prog[a / 10], a) == prod(b / 10, prog[b / 10], b)) sym_check(a < b, "order-per-producer"); }
        // nothing is reported missing while an item enqueued before is there and no other dequeue is under way (one under way may hold the count for a moment)
        for (int i = 0; i < ndq; i++) if (!dq[i].ok && dq[i].asked == 0) { bool from0 = false; for (int u = 0; u < nthr; u++) for (const char *p = prog[u]; *p; p++) from0 = from0 || *p == 'F';
            sym_cover("empty"); bool alone = !from0; for (int j = 0; j < ndq; j++) alone = alone && (j == i || dq[j].end < dq[i].start || dq[j].start > dq[i].end); if (!alone) continue;
            for (int v = 0; v < nthr * 10; v++) if (v % 10 < nitems[v / 10] && een[v] && een[v] < dq[i].start) { bool taken = false; for (int j = 0; j < ndq; j++) taken = taken || (dq[j].ok && dq[j].v == v && dq[j].start < dq[i].end); sym_check(taken, "empty-only-if-nothing-was-there"); } }
        sym_check(qq.size_approx() == 0, "empty-at-the-end");
    }
};
template <class Q, class V> Q *Par<Q, V>::q; template <class Q, class V> mc::ProducerToken *Par<Q, V>::tok[3];
// --- blocking queue and semaphore
static const char *const BP[] = {"E|W", "EE|WW", "E|E|WW", "EE|W|W", "E|t", "B|M", "EE|M", "E|tt", "EE|WE|W", "EE|W|t", "T|W", "tE|E", "B|W|M", "E|D|t"};
template <class Q> struct Blk {
    static Q *q; static int out[16], nout; static bool none;
    static void run(int t) {
        int item = t * 10; mc::ProducerToken *tk = nullptr; std::unique_ptr<mc::ProducerToken> own; (void)tk;
        for (const char *p = prog[t]; *p; p++) switch (*p) {
            case 'E': sym_check(q->enqueue(item), "accepted"); item++; break;
            case 'T': own.reset(new mc::ProducerToken(*q)); q->enqueue(*own, item++); break;
            case 'B': { int a[3] = {item, item + 1, item + 2}; item += 3; q->enqueue_bulk(a, 3); break; }
            case 'W': { int v = -1; q->wait_dequeue(v); out[nout++] = v; break; }
            case 'D': { int v = -1; if (q->try_dequeue(v)) out[nout++] = v; break; }
            case 't': { int v = -1; int64_t b = rt_steady_ns; if (q->wait_dequeue_timed(v, std::chrono::milliseconds(5))) out[nout++] = v; else { sym_check(v == -1, "untouched"); sym_check(rt_steady_ns - b >= 5000000, "full-timeout"); sym_cover("timed-out"); } break; }
            case 'M': { int v[4]; size_t n = q->wait_dequeue_bulk(v, 2); sym_check(n >= 1 && n <= 2, "bulk-count"); for (size_t i = 0; i < n; i++) out[nout++] = v[i]; break; }
        }
    }
    static void go() {
        Q qq(6); q = &qq; int n[3], all = 0; for (int t = 0; t < nthr; t++) { n[t] = 0; for (const char *p = prog[t]; *p; p++) n[t] += *p == 'E' || *p == 'T' ? 1 : *p == 'B' ? 3 : 0; all += n[t]; }
        { std::thread a([] { run(1); }), b; if (nthr > 2) b = std::thread([] { run(2); }); run(0); a.join(); if (nthr > 2) b.join(); }
        sym_check(qq.size_approx() == (size_t)(all - nout), "size-at-the-end"); int left = all - nout;
        for (int i = 0; i < left; i++) { int v = -1; sym_check(qq.try_dequeue(v), "rest-available"); out[nout++] = v; }
        int v; sym_check(!qq.try_dequeue(v) && !qq.wait_dequeue_timed(v, 0), "nothing-more");
        bool seen[32] = {}; for (int i = 0; i < nout; i++) { int x = out[i]; sym_check(x >= 0 && x < 30 && x % 10 < n[x / 10], "only-enqueued-items"); if (x < 0 || x >= 30) sym_end(); sym_check(!seen[x], "dequeued-once"); seen[x] = true; } sym_check(nout == all, "none-lost");
    }
};
template <class Q> Q *Blk<Q>::q; template <class Q> int Blk<Q>::out[16]; template <class Q> int Blk<Q>::nout; template <class Q> bool Blk<Q>::none;
static const char *const SP[] = {"s|w", "ss|ww", "s|s|ww", "ss|w|w", "s|t", "2|m", "s|tt", "s|y", "2|w|y", "2|w|t", "s|t|t", "3|m|w", "ws|s"};
static mc::LightweightSemaphore *sem; static int given, taken;
static void srun(int t) {
    for (const char *p = prog[t]; *p; p++) switch (*p) {
        case 's': given++; sem->signal(); break; case '2': given += 2; sem->signal(2); break; case '3': given += 3; sem->signal(3); break;
        case 'w': { bool r = sem->wait(); sym_check(r, "wait-succeeds"); taken++; break; } case 'y': if (sem->tryWait()) taken++; break;
        case 't': { int64_t b = rt_steady_ns; if (sem->wait((std::int64_t)5000)) taken++; else { sym_cover("timed-out"); sym_check(rt_steady_ns - b >= 5000000, "full-timeout"); } break; } case 'm': { mc::LightweightSemaphore::ssize_t k = sem->waitMany(2); sym_check(k >= 1 && k <= 2, "many-count"); taken += (int)k; break; }
    }
    sym_check(taken <= given, "never-more-than-signalled");
}
static void parse(const char *s) { static char b[32]; int i = 0; do b[i] = s[i]; while (s[i++]); nthr = 0; char *p = b; prog[nthr++] = p; for (; *p; p++) if (*p == '|') { *p = 0; prog[nthr++] = p + 1; } }
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), tr = (int)sym_param("traits", 0);
    if (mode == 0) {
        if (tr == 0) { Seq<mc::ConcurrentQueue<Item, T2>> s; s.run(); } else if (tr == 1) { Seq<mc::ConcurrentQueue<Item, T2c>> s; s.run(); } else if (tr == 2) { limit = 8; Seq<mc::ConcurrentQueue<Item, T4>> s; s.run(); } else { limit = 6; Seq<mc::ConcurrentQueue<Item, T5>> s; s.run(); }
    } else {
        bool race = !sym_param("merge", 1); counting = !race; sym_config("det", 0); sym_config(race ? "race" : "merge", 1); sym_config("preempt", (int)sym_param("preempt", 1)); sym_config("timeouts", (int)sym_param("timeouts", 0)); env::step_ns = 0;
        if (mode == 1) {
            parse(PROGS[sym_param("prog", 0)]);
            if (race) { if (tr == 4) Par<mc::ConcurrentQueue<int, T2r>, int>::go(true); else if (tr == 1) Par<mc::ConcurrentQueue<int, T2c>, int>::go(true); else Par<mc::ConcurrentQueue<int, T2>, int>::go(true); }
            else if (tr == 1) { Par<mc::ConcurrentQueue<Item, T2c>, Item>::go(false); } else if (tr == 4) Par<mc::ConcurrentQueue<Item, T2r>, Item>::go(false); else Par<mc::ConcurrentQueue<Item, T2>, Item>::go(false);
            sym_check(live == 0, "all-destroyed"); sym_check(memory == 0 || race, "memory-given-back");
        } else if (mode == 2) {
            parse(BP[sym_param("prog", 0)]); Blk<mc::BlockingConcurrentQueue<int, T2>>::go();
        } else {
            parse(SP[sym_param("prog", 0)]); mc::LightweightSemaphore s(0, (int)sym_param("spins", 1)); sem = &s;
            { std::thread a([] { srun(1); }), b; if (nthr > 2) b = std::thread([] { srun(2); }); srun(0); a.join(); if (nthr > 2) b.join(); }
            sym_check(s.availableApprox() == (size_t)(given - taken), "rest-available"); for (int i = given - taken; i > 0; i--) sym_check(s.tryWait(), "rest-can-be-taken"); sym_check(!s.tryWait() && !s.wait((std::int64_t)0), "nothing-more");
        }
    }
    sym_cover("done");
}
