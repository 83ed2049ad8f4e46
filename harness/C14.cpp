// C14: the ring buffer against a list.
#include "hx.h"
#include "base/circular_queue.h"
using namespace hx;
// an item that owns heap memory, so that a lost, doubled or stale element is a memory error or a wrong value
struct Own {
    uint32_t *p;
    Own() : p(nullptr) {}
    explicit Own(uint32_t v) : p(new uint32_t(v)) {}
    Own(const Own &o) : p(o.p ? new uint32_t(*o.p) : nullptr) {}
    Own(Own &&o) noexcept : p(o.p) { o.p = nullptr; }
    Own &operator=(const Own &o) { if (this != &o) { delete p; p = o.p ? new uint32_t(*o.p) : nullptr; } return *this; }
    Own &operator=(Own &&o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    ~Own() { delete p; }
    uint32_t get() const { if (!p) sym_fail("element-without-content"); return *p; }
};
static uint32_t val(const Own &o) { return o.get(); }
static uint32_t val(const uint32_t &o) { return o; }
template <class T> T mk(uint32_t v) { return T(v); }
template <class T> using Q = base::circular_queue<T>;
struct Ref { uint32_t v[16]; int n = 0; size_t cap = 0; bool usable = false; size_t ov = 0; };       // unusable: cleared, moved from or default
template <class T> static void agree(Q<T> &q, const Ref &r, const char *) {
    const Q<T> &c = q;
    sym_check(c.size() == (size_t)r.n, "size"); sym_check(c.empty() == (r.n == 0), "empty");
    if (r.usable) sym_check(c.full() == ((size_t)r.n == r.cap), "full");
    sym_check(c.override_count() == r.ov, "override-count");
    for (int i = 0; i < r.n; i++) sym_check(val(c.at((size_t)i)) == r.v[i], "at");
    if (r.n) { sym_check(val(c.front()) == r.v[0], "front"); sym_check(val(q.front()) == r.v[0], "front"); }
}
template <class T> static void push(Q<T> &q, Ref &r, uint32_t v) {
    q.push_back(mk<T>(v));
    if (!r.usable) return;
    if ((size_t)r.n == r.cap) { r.ov++; if (!r.n) return; for (int i = 1; i < r.n; i++) r.v[i - 1] = r.v[i]; r.n--; }
    r.v[r.n++] = v;
}
template <class T> static void pop(Q<T> &q, Ref &r) {
    q.pop_front();
    if (r.n) { for (int i = 1; i < r.n; i++) r.v[i - 1] = r.v[i]; r.n--; }
}
template <class T> static void reach(Q<T> &q, Ref &r, int cap, uint32_t &next) {      // every reachable shape of a ring of this capacity
    r.cap = (size_t)cap; r.usable = true;
    int rot = (int)sym_choose("rotate", 0, (uint64_t)cap), fill = (int)sym_choose("fill", 0, (uint64_t)cap + 1);
    if (cap) for (int i = 0; i < rot; i++) { push(q, r, sym_u32("v")); pop(q, r); }
    for (int i = 0; i < fill; i++) push(q, r, sym_u32("v"));
    (void)next;
}
template <class T> static void run() {
    int cap = (int)sym_choose("cap", sym_param("c0", 0), sym_param("c1", 3)); uint32_t next = 1;
    int cap2 = (int)sym_param("cap2", 2);
    Q<T> a((size_t)cap), b((size_t)cap2); Ref ra, rb; rb.cap = (size_t)cap2; rb.usable = true;
    reach(a, ra, cap, next); agree(a, ra, "start");
    int nb = (int)sym_choose("b-holds", 0, (uint64_t)sym_param("nb", 1)); for (int i = 0; i < nb; i++) push(b, rb, sym_u32("v"));
    int steps = (int)sym_param("n", 3);
    for (int s = 0; s < steps; s++) {
        switch (sym_choose("op", 0, 11)) {
        case 0: push(a, ra, sym_u32("v")); break;
        case 1: if (ra.usable && ra.cap) sym_assume(ra.n > 0); pop(a, ra); break;
        case 2: a.clear(); ra = Ref(); break;
        case 3: a.reset_override_count(); ra.ov = 0; break;
        case 4: { Q<T> c(a); Ref rc = ra; agree(c, rc, "copy"); if (rc.n) pop(c, rc); push(c, rc, sym_u32("v")); agree(c, rc, "copy"); } break;
        case 5: { Q<T> c(std::move(a)); Ref rc = ra; ra = Ref(); agree(c, rc, "moved"); agree(a, ra, "source"); push(c, rc, sym_u32("v")); agree(c, rc, "moved"); } break;
        case 6: b = a; rb = ra; break;
        case 7: b = std::move(a); rb = ra; ra = Ref(); break;
        case 8: a = std::move(b); ra = rb; rb = Ref(); break;
        case 9: push(b, rb, sym_u32("v")); break;
        case 10: if (rb.usable && rb.cap) sym_assume(rb.n > 0); pop(b, rb); break;
        default: std::swap(a, b); { Ref t = ra; ra = rb; rb = t; } break;
        }
        agree(a, ra, "a"); agree(b, rb, "b");
    }
    if (sym_param("drain", 1)) {                             // everything comes out, oldest first
        while (ra.n) { sym_check(!a.empty() && val(a.front()) == ra.v[0], "drain"); pop(a, ra); }
        sym_check(a.empty() && a.size() == 0, "drained");
        for (int i = 0; i < cap + 2; i++) push(a, ra, sym_u32("v"));
        agree(a, ra, "again");
    }
    sym_cover("done"); if (!ra.usable) sym_cover("unusable");
}
// a log message kept in a ring (as the backtracer does)
static void defaults() {
    Q<uint32_t> d; Ref r; agree(d, r, "default"); d.push_back(1); d.pop_front(); agree(d, r, "default");
    Q<uint32_t> e(d); agree(e, r, "copy"); d = Q<uint32_t>(2); r.cap = 2; r.usable = true; push(d, r, sym_u32("v")); agree(d, r, "assigned");
    uint32_t v = sym_u32("v"); d.front() = v; r.v[0] = v; agree(d, r, "front-assign");
    sym_cover("done");
}
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0);
    if (mode == 0) run<uint32_t>(); else if (mode == 1) run<Own>(); else defaults();
}
