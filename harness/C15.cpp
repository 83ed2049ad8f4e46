// C15: the blocking queue under every interleaving, decided by a linearizability check against a bounded list.
#include "hx.h"
#include "base/block_queue.h"
#include <thread>
using namespace hx;
typedef base::block_queue<uint32_t> BQ;
struct OpR { char k; uint8_t inv, res; uint8_t ok; uint32_t v; };   // value put or got
static OpR ops[10]; static int nops; static uint8_t clk; static size_t cap; static BQ *q;
static uint32_t vals[10];
static void one(int i) {
    OpR &o = ops[i]; o.inv = ++clk;
    switch (o.k) {
    case 'E': { uint32_t v = o.v; q->enqueue(std::move(v)); break; }
    case 'N': { uint32_t v = o.v; q->enqueue_nowait(std::move(v)); break; }
    case 'R': { uint32_t v = o.v; q->enqueue_if_have_room(std::move(v)); break; }
    case 'D': { uint32_t v = 0; q->dequeue(v); o.v = v; break; }
    case 'T': { uint32_t v = 0; o.ok = q->dequeue_for(v, std::chrono::milliseconds(5)); o.v = v; break; }
    case 'Z': { uint32_t v = 0; o.ok = q->dequeue_for(v, std::chrono::milliseconds(0)); o.v = v; break; }
    case 'S': o.v = (uint32_t)q->size(); break;
    }
    o.res = ++clk;
}
struct List { uint32_t v[10]; int n; size_t ov, disc; };
static size_t endOv, endDisc, endSize;
static bool lin(unsigned done, const List &l) {
    if (done == (1u << nops) - 1) return l.ov == endOv && l.disc == endDisc && (size_t)l.n == endSize;
    int first = 256; for (int i = 0; i < nops; i++) if (!(done >> i & 1) && ops[i].res < first) first = ops[i].res;
    for (int i = 0; i < nops; i++) {
        if ((done >> i & 1) || ops[i].inv > first) continue;
        const OpR &o = ops[i]; List m = l;
        if (o.k == 'E') { if ((size_t)m.n >= cap) continue; m.v[m.n++] = o.v; }
        else if (o.k == 'N') { if ((size_t)m.n >= cap) { m.ov++; for (int j = 1; j < m.n; j++) m.v[j - 1] = m.v[j]; if (m.n) m.v[m.n - 1] = o.v; } else m.v[m.n++] = o.v; }
        else if (o.k == 'R') { if ((size_t)m.n >= cap) m.disc++; else m.v[m.n++] = o.v; }
        else if (o.k == 'S') { if (o.v != (uint32_t)m.n) continue; }
        else if ((o.k == 'T' || o.k == 'Z') && !o.ok) { if (m.n) continue; }
        else { if (!m.n || m.v[0] != o.v) continue; for (int j = 1; j < m.n; j++) m.v[j - 1] = m.v[j]; m.n--; }
        if (lin(done | 1u << i, m)) return true;
    }
    return false;
}
static const char *const progs[] = {
    "EE|DD", "E|E|DD", "EE|D|D", "E|E|D|D", "EEE|DDD",           // 0-4 blocking only
    "NN|D", "N|N|D", "NNN|T", "NN|TT",                           // 5-8 overwriting (what is left is drained by main)
    "RR|T", "R|R|T", "RR|TT",                                    // 9-11 dropping
    "E|R|N|D", "EN|RT", "E|T|T", "EE|T|D", "N|S|Z", "R|EZ",      // 12-17 mixed
    "EE|ED|DD", "EE|EE|DDDD", "E|E|E|DDD", "D|D|EE", "D|D|E|E", "D|D|NR", "NE|DD", "RE|DD", // 18-25
    "E", "T",                                                      // 26-27 (main adds dequeues)
};
static int segFrom[5], segTo[5];
static void seg(int t) { for (int i = segFrom[t]; i < segTo[t]; i++) one(i); }
extern "C" void sym_main() {
    cap = (size_t)sym_param("cap", 1);
    sym_config("merge", 1); sym_config("det", 0); sym_config("preempt", (int)sym_param("preempt", 2)); sym_config("timeouts", (int)sym_param("timeouts", 1)); sym_config("spurious", (int)sym_param("spurious", 0));
    const char *p = progs[sym_param("prog", 0)];
    BQ queue(cap); q = &queue;
    int pre = (int)sym_param("pre", 0); List start; start.n = 0; start.ov = start.disc = 0;
    for (int i = 0; i < pre; i++) { uint32_t v = 90 + (uint32_t)i; start.v[start.n++] = v; queue.enqueue_nowait(std::move(v)); }
    int nt = 0; segFrom[0] = 0;
    for (; *p; p++) { if (*p == '|') { segTo[nt++] = nops; segFrom[nt] = nops; } else { ops[nops].k = *p; ops[nops].v = 10 * ((uint32_t)nt + 1) + (uint32_t)nops; nops++; } }
    segTo[nt++] = nops;
    {
        std::thread a([] { seg(0); }), b, c; std::thread *ts[3] = {&a, &b, &c};
        if (nt > 2) b = std::thread([] { seg(1); });
        if (nt > 3) c = std::thread([] { seg(2); });
        if (nt > 1) seg(nt - 1);
        for (auto t : ts) if (t->joinable()) t->join();
    }
    endOv = queue.get_override_count(); endDisc = queue.get_discard_count(); endSize = queue.size();
    for (; nops < 10;) {                                         // drain
        ops[nops].k = 'Z'; int i = nops++; one(i); if (!ops[i].ok) break; endSize--;
    }
    sym_check(endSize == 0, "size-when-drained");
    sym_check(queue.size() == 0 && queue.get_override_count() == endOv && queue.get_discard_count() == endDisc, "dequeue-changes-no-count");
    bool ok = lin(0, start); sym_check(ok, "linearizable");
    queue.reset_override_count(); queue.reset_discard_count(); sym_check(queue.get_override_count() == 0 && queue.get_discard_count() == 0, "reset-counts");
    sym_cover("done");
}
