// C22: the registry is a faithful map from names to loggers.
#include "hx.h"
#include "sinks/null_sink.h"
using namespace hx;
static const int NN = 4; static std::string names[NN];
static logger *map_[NN]; static logger *dflt; static bool autoreg = true;           // the model
static std::shared_ptr<logger> keep[16]; static int nkeep;
static int idx(const std::string &n) { for (int i = 0; i < NN; i++) if (names[i] == n) return i; return -1; }
static std::shared_ptr<logger> fresh(int name) { auto l = std::make_shared<logger>(names[name], std::make_shared<rec_sink>(0)); keep[nkeep++] = l; return l; }
static void verify() {
    int present = 0;
    for (int i = 0; i < NN; i++) { sym_check(get_logger(names[i]).get() == map_[i], "lookup"); present += map_[i] != nullptr; }
    sym_check(get_logger("no such logger") == nullptr, "lookup-of-unknown");
    sym_check(get_default_logger().get() == dflt, "default-logger");
    static int seen[NN]; memset(seen, 0, sizeof seen); int visited = 0, wrong = 0;
    exec_all([&](logger_shr_ptr l) { visited++; int k = l ? idx(l->name()) : -1; if (k < 0 || map_[k] != l.get()) wrong++; else seen[k]++; });
    sym_check(visited == present && !wrong, "iteration-visits-the-registered");
    for (int i = 0; i < NN; i++) sym_check(seen[i] == (map_[i] ? 1 : 0), "iteration-once-each");
}
static void add(logger *l, int name) { int e = env::errors; (void)e; if (!map_[name]) map_[name] = l; }
static void op(int o, int name) {
    int errs = env::errors; bool err = false;
    switch (o) {
    case 0: { auto l = fresh(name); register_logger(l); err = map_[name] != nullptr; add(l.get(), name); break; }
    case 1: { auto l = fresh(name); initialize_logger(l); err = autoreg && map_[name]; if (autoreg) add(l.get(), name); break; }
    case 2: { auto l = create<sinks::null_sink_st>(names[name]); keep[nkeep++] = l; sym_check(l && l->name() == names[name] && l->sinks().size() == 1, "factory-result"); err = autoreg && map_[name]; if (autoreg) add(l.get(), name); break; }
    case 3: { auto l = fresh(name); set_default_logger(l); dflt = map_[name] = l.get(); break; }
    case 4: { auto l = get_logger(names[name]); set_default_logger(l); dflt = map_[name]; break; }            // possibly null
    case 5: { remove_logger(names[name]); if (dflt && dflt->name() == names[name]) dflt = nullptr; map_[name] = nullptr; break; }
    case 6: { set_auto_register_logger(name & 1); autoreg = name & 1; break; }
    case 7: { remove_all(); for (int i = 0; i < NN; i++) map_[i] = nullptr; dflt = nullptr; break; }
    case 8: { learnlog::close(); for (int i = 0; i < NN; i++) map_[i] = nullptr; dflt = nullptr; break; }
    }
    sym_check(env::errors - errs == (err ? 1 : 0), "duplicate-reported");
    if (err) sym_cover("duplicate");
}
// ---- several threads: the calls take effect in some order (no data race, no deadlock, nothing freed early)
#include <thread>
static const int TO = 2;
struct Call { int op; std::shared_ptr<logger> l; logger *got; int visited; };
static Call calls[3][TO]; static int nops;
struct Model { logger *a, *d, *b; };
static void fill(int t) { for (int k = 0; k < nops; k++) if (calls[t][k].op <= 2) calls[t][k].l = std::make_shared<logger>("a", std::make_shared<rec_sink>(t)); }
static void perform(int t) {
    for (int k = 0; k < nops; k++) {
        Call &c = calls[t][k];
        switch (c.op) {
        case 0: register_logger(c.l); break;
        case 1: initialize_logger(c.l); break;
        case 2: set_default_logger(c.l); break;
        case 3: { auto l = get_logger("a"); c.got = l.get(); if (l) { l->set_log_level(level::warn); l->warn("x"); } break; }
        case 4: remove_logger("a"); break;
        case 5: remove_all(); break;
        case 6: { int v = 0; exec_all([&](logger_shr_ptr l) { v += l->name() == "a"; }); c.visited = v; break; }
        case 7: { auto l = get_default_logger(); c.got = l.get(); break; }
        case 8: flush_all(); break;
        case 9: set_pattern("a", "%v"); break;
        case 10: set_global_log_level(level::error); break;
        case 11: set_global_pattern("%l"); break;
        }
    }
}
static int orders = 0, fitting = 0;
static void explore(Model m, int i, int j, int errs, bool ok, logger *fa, logger *fd) {
    if (i == nops && j == nops) { orders++; if (ok && errs == env::errors && m.a == fa && m.d == fd) fitting++; return; }
    for (int t = 0; t < 2; t++) {
        int k = t ? j : i; if (k == nops) continue;
        Call &c = calls[t][k]; Model q = m; int e = errs; bool o = ok;
        switch (c.op) {
        case 0: case 1: if (q.a) e++; else q.a = c.l.get(); break;
        case 2: q.a = q.d = c.l.get(); break;
        case 3: o = o && c.got == q.a; break;
        case 4: if (q.d && q.d == q.a) q.d = nullptr; else if (q.d && q.d != q.b) q.d = nullptr; q.a = nullptr; break;
        case 5: q.a = q.d = nullptr; break;
        case 6: o = o && c.visited == (q.a != nullptr); break;
        case 7: o = o && c.got == q.d; break;
        case 9: if (!q.a) e++; break;
        }
        explore(q, i + !t, j + t, e, o, fa, fd);
    }
}
static void threads() {
    sym_config("det", 0); sym_config("preempt", (int)sym_param("preempt", 1)); env::step_ns = 0;
    if (sym_param("merge", 1)) sym_config("merge", 1); else sym_config("race", 1);
    nops = (int)sym_param("n", 2);
    auto d = get_default_logger(); std::shared_ptr<logger> pre;
    if (sym_choose("pre", 0, 1)) { pre = std::make_shared<logger>("a", std::make_shared<rec_sink>(2)); register_logger(pre); }
    int o0 = (int)sym_param("o0", 99);
    for (int t = 0; t < 2; t++) { for (int k = 0; k < nops; k++) calls[t][k].op = t == 0 && k == 0 && o0 < 99 ? o0 : (int)sym_choose("op", 0, (uint64_t)sym_param("ops", 11)); fill(t); }
    Model m{pre.get(), d.get(), d.get()};
    { std::thread a([] { perform(1); }); perform(0); a.join(); }
    auto fa = get_logger("a"), fd = get_default_logger();
    explore(m, 0, 0, 0, true, fa.get(), fd.get());
    sym_check(fitting > 0, "some-order-explains-the-results");
    sym_cover("done");
}
extern "C" void sym_main() {
    if (sym_param("threads", 0)) { threads(); return; }
    int n = (int)sym_param("n", 3), all = (int)sym_param("ops", 8);
    auto d = get_default_logger();
    sym_check(d && d->sinks().size() == 1 && !d->is_async(), "initial-default"); dflt = d.get(); keep[nkeep++] = d;
    int set = (int)sym_choose("names", 0, sym_param("sets", 1));
    if (set == 0) { names[0] = "a"; names[1] = "b"; names[2] = d->name(); } else { names[0] = ""; names[1] = "a longer name than the small string"; names[2] = d->name(); }
    names[3] = "ab"; map_[2] = dflt;
    verify();
    for (int k = 0; k < n; k++) {
        int o = (int)sym_choose("op", 0, (uint64_t)all); int name = o < 6 ? (int)sym_choose("name", 0, 2) : o == 6 ? (int)sym_choose("flag", 0, 1) : 0;
        op(o, name); verify();
    }
    // a registered logger is shared with the registry, an unregistered one is not
    for (int i = 0; i < nkeep; i++) { long held = 0; for (int j = 0; j < NN; j++) held += map_[j] == keep[i].get(); held += dflt == keep[i].get(); long mine = 0; for (int j = 0; j < nkeep; j++) mine += keep[j].get() == keep[i].get(); if (i == 0) mine++; sym_check(keep[i].use_count() == held + mine, "released"); }
    sym_cover("done");
}
