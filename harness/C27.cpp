// C27: cloned loggers and formatters behave as their originals, independently; swap exchanges everything.
#include "fmtx.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include "sinks/formatters/filler.h"
using namespace fx;
struct cust : sinks::custom_flag_formatter {
    std::string t; explicit cust(std::string s) : t(std::move(s)) {}
    void format(const base::log_msg &, const std::tm &, fmt_memory_buf &b) override { sinks::filler f(t.size(), spaces_info_, b); f.fill_msg(fmt_string_view(t)); }
    std::unique_ptr<sinks::custom_flag_formatter> clone() const override { return std::unique_ptr<sinks::custom_flag_formatter>(new cust(t)); }
};
static const char *CT[2] = {"<custom>", "c2"}; static char cs[4];
static void expect(sinks::formatter &f, const base::log_msg &m, Ref r, const char *pat, size_t n, const std::string &eol, const char *cu, bool first, const char *id) {
    if (!first) { r.el_ns = r.el_us = r.el_ms = r.el_s = "0"; }
    fmt_memory_buf o; m.color_index_start = m.color_index_end = 0; r.cs = r.ce = 0;
    f.format(m, o); std::string w = render(r, pat, n, eol, cu, CT);
    sym_check(same(o, w), id); sym_check(m.color_index_start == r.cs && m.color_index_end == r.ce, id);
}
static void formatters(int mode, size_t n) {
    sym_config("addr", 1); fixed_env(); Ref r; fixed(r); base::log_msg m = fixed_msg(r);
    char pat[8]; sym_bytes("p", pat, n); if (sym_param("flagged", 0)) pat[0] = '%';
    cs[0] = (char)sym_u8("flag"); cs[1] = 0; sym_assume(cs[0] != 0);
    if (sym_param("known", 0)) sym_assume(cs[0] == '^' || cs[0] == 'v' || cs[0] == '%' || cs[0] == 'x');
    std::string p(pat, n), eol = "\n";
    int how = (int)sym_choose("how", 0, (uint64_t)sym_param("hows", 3)); std::unique_ptr<sinks::pattern_formatter> f;
    if (how == 0) { sinks::pattern_formatter::cust_flag_table t; t[cs[0]] = std::unique_ptr<sinks::custom_flag_formatter>(new cust(CT[0])); eol = "E"; f.reset(new sinks::pattern_formatter(p, eol, std::move(t))); }
    else if (how == 1) { f.reset(new sinks::pattern_formatter(p)); f->add_custom_flag<cust>(cs[0], CT[0]); }
    else if (how == 2) { f.reset(new sinks::pattern_formatter()); f->add_custom_flag<cust>(cs[0], CT[0]); f->set_pattern(p); }
    else { f.reset(new sinks::pattern_formatter(p)); f->add_custom_flag<cust>(cs[0], std::string("old")); f->add_custom_flag<cust>(cs[0], CT[0]); }
    if (sym_param("used", 1)) expect(*f, m, r, pat, n, eol, cs, true, "original-renders");
    auto c = f->clone(); auto *pc = static_cast<sinks::pattern_formatter *>(c.get());
    expect(*c, m, r, pat, n, eol, cs, true, "clone-renders-the-same");
    auto d = c->clone();
    pc->set_pattern("other"); pc->add_custom_flag<cust>(cs[0], std::string("zzz"));
    if (sym_choose("drop", 0, 1)) { f.reset(); c.reset(); }
    else { expect(*f, m, r, pat, n, eol, cs, !sym_param("used", 1), "original-not-affected"); expect(*c, m, r, "other", 5, eol, "", true, "clone-changed"); }
    expect(*d, m, r, pat, n, eol, cs, true, "clone-of-clone"); expect(*d, m, r, pat, n, eol, cs, false, "clone-again");
}
static void expect_log(logger &l, const char *name, level::level_enum lv, level::level_enum fl, std::initializer_list<std::shared_ptr<rec_sink>> to, std::initializer_list<std::shared_ptr<rec_sink>> notTo, const char *id) {
    int n0 = nrec; level::level_enum ml = sym_level("message"); l.log(ml, fmt_string_view("t"));
    for (auto &s : to) {
        int c = 0, f = 0; for (int i = n0; i < nrec; i++) if (recs[i].sink == s->id) { if (recs[i].kind == 'f') f++; else { c++; sym_check(eq(recs[i].name, recs[i].nlen, name, strlen(name)) && recs[i].lvl == ml, id); } }
        if (c) sym_check(c == 1 && ml >= lv, id); else sym_check(ml < lv, id);
        bool fw = (ml >= lv) & (ml >= fl) & (ml != level::off); if (f) sym_check(fw && f == 1, id); else sym_check(!fw, id);
    }
    for (auto &s : notTo) for (int i = n0; i < nrec; i++) sym_check(recs[i].sink != s->id, id);
}
static std::shared_ptr<base::thread_pool> mk(int kind) { if (kind == 0) return std::make_shared<base::lock_thread_pool>(4, 1); if (kind == 1) return std::make_shared<base::lockfree_thread_pool>(4, 1); return std::make_shared<base::lockfree_concurrent_thread_pool>(4, 1); }
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0); env::step_ns = 0;
    if (mode == 0) { formatters(mode, (size_t)sym_param("len", 2)); sym_cover("done"); return; }
    auto a = std::make_shared<rec_sink>(0), b = std::make_shared<rec_sink>(1), x = std::make_shared<rec_sink>(2);
    level::level_enum l1 = sym_level("log"), f1 = sym_level("flush"), l2 = sym_level("log2"), f2 = sym_level("flush2");
    if (mode == 1) {                                 // clone of a synchronous logger, then either changes
        auto o = std::make_shared<logger>("orig", sinks_init_list{a, b}); o->set_log_level(l1); o->set_flush_level(f1); o->set_pattern("P%v");
        std::string nn = sym_text("name", (size_t)sym_param("nlen", 2)); for (char &ch : nn) sym_assume(ch != 0);
        auto c = o->clone(nn);
        sym_check(c && c.get() != o.get() && c->name() == nn && o->name() == "orig" && !c->is_async(), "new-name"); sym_check(c->sinks().size() == 2 && c->sinks()[0] == a && c->sinks()[1] == b, "same-sinks");
        sym_check(c->get_log_level() == l1 && c->get_flush_level() == f1, "same-levels"); sym_check(c->get_pattern() == "P%v" && o->get_pattern() == "P%v", "same-pattern");
        expect_log(*c, nn.c_str(), l1, f1, {a, b}, {}, "clone-logs");
        bool which = sym_choose("which", 0, 1); logger &ch = which ? *c : *o, &st = which ? *o : *c; const std::string &stn = which ? "orig" : nn, &chn = which ? nn : "orig";
        ch.set_log_level(l2); ch.set_flush_level(f2); ch.sinks().pop_back(); ch.sinks().push_back(x); ch.get_pattern() = "Q";
        sym_check(st.get_log_level() == l1 && st.get_flush_level() == f1 && st.get_pattern() == "P%v", "other-not-affected"); sym_check(ch.get_log_level() == l2 && ch.get_flush_level() == f2, "changed");
        expect_log(st, stn.c_str(), l1, f1, {a, b}, {x}, "other-not-affected"); expect_log(ch, chn.c_str(), l2, f2, {a, x}, {b}, "changed");
        if (which) { o.reset(); expect_log(*c, nn.c_str(), l2, f2, {a, x}, {b}, "clone-outlives"); }
    } else if (mode == 2) {                          // asynchronous
        sym_config("det", 1); sym_config("preempt", 0); auto tp = mk((int)sym_param("pool", 0)), tp2 = mk(0);
        auto o = std::make_shared<async_logger>("orig", sinks_init_list{a, b}, tp); o->set_log_level(l1); o->set_flush_level(f1);
        auto c = o->clone("copy"); sym_check(c && c->is_async() && c->name() == "copy" && o->name() == "orig", "kind-and-name"); sym_check(c->sinks().size() == 2 && c->sinks()[0] == a && c->sinks()[1] == b, "same-sinks");
        sym_check(c->get_log_level() == l1 && c->get_flush_level() == f1, "same-levels");
        bool which = sym_choose("which", 0, 1); (which ? *c : *o).set_log_level(l2); (which ? *c : *o).set_flush_level(f2);
        bool drop = sym_choose("drop", 0, 1); if (drop) o.reset();
        level::level_enum ml = sym_level("message"); c->log(ml, fmt_string_view("c")); if (o) o->log(ml, fmt_string_view("o"));
        tp2.reset(); tp.reset();
        auto lc = which ? l2 : l1, lo = which ? l1 : l2; int nc = 0, no = 0;
        for (int i = 0; i < nrec; i++) if (recs[i].kind == 'm' && recs[i].sink == 1) { if (recs[i].text[0] == 'c') { nc++; sym_check(eq(recs[i].name, recs[i].nlen, "copy", 4), "clone-logs"); } else { no++; sym_check(eq(recs[i].name, recs[i].nlen, "orig", 4), "original-logs"); } }
        if (nc) sym_check(ml >= lc && nc == 1, "clone-logs"); else sym_check(ml < lc, "clone-logs"); if (o) { if (no) sym_check(ml >= lo && no == 1, "original-logs"); else sym_check(ml < lo, "original-logs"); }
        sym_check(env::errors == 0, "no-error"); c->set_log_level(level::trace); c->info("late"); sym_check(env::errors == 1, "same-pool"); c->flush(); sym_check(env::errors == 2, "same-pool");
        o.reset(); c.reset(); sym_check(a.use_count() == 1 && b.use_count() == 1, "released");
    } else if (mode == 3) {                          // swap, member and free, also with itself, with backtraces
        logger p("pp", {a, b}), q("qqq", x); p.set_log_level(l1); p.set_flush_level(f1); q.set_log_level(l2); q.set_flush_level(f2); p.set_pattern("1"); q.set_pattern("2");
        p.enable_backtrace_n(3); p.log(level::off, fmt_string_view("bt"));
        int how = (int)sym_choose("how", 0, 3); bool sw = how < 2; int n0;
        if (how == 0) p.swap(q); else if (how == 1) learnlog::swap(p, q); else if (how == 2) p.swap(p); else { learnlog::swap(p, q); q.swap(p); }
        logger &P = sw ? q : p, &Q = sw ? p : q;
        sym_check(P.name() == "pp" && Q.name() == "qqq", "names"); sym_check(P.sinks().size() == 2 && P.sinks()[0] == a && P.sinks()[1] == b && Q.sinks().size() == 1 && Q.sinks()[0] == x, "sinks");
        sym_check(P.get_log_level() == l1 && P.get_flush_level() == f1 && Q.get_log_level() == l2 && Q.get_flush_level() == f2, "levels"); sym_check(P.get_pattern() == "1" && Q.get_pattern() == "2", "patterns");
        P.set_flush_level(level::off); n0 = nrec; P.dump_backtrace(); P.set_flush_level(f1); sym_check(nrec == n0 + 6 && eq(recs[n0 + 2], "bt"), "backtrace"); nrec = 0; Q.dump_backtrace(); sym_check(nrec == 0, "no-backtrace"); P.disable_backtrace();
        expect_log(P, "pp", l1, f1, {a, b}, {x}, "swapped-logs"); expect_log(Q, "qqq", l2, f2, {x}, {a, b}, "swapped-logs");
    } else if (mode == 4) {                          // copy and move construction
        std::unique_ptr<logger> p(new logger("pp", {a, b})); p->set_log_level(l1); p->set_flush_level(f1); p->set_pattern("1");
        std::unique_ptr<logger> q(sym_choose("move", 0, 1) ? new logger(std::move(*p)) : new logger(*p)); p.reset();
        sym_check(q->name() == "pp" && q->sinks().size() == 2 && q->get_log_level() == l1 && q->get_flush_level() == f1 && q->get_pattern() == "1", "settings"); expect_log(*q, "pp", l1, f1, {a, b}, {x}, "copy-logs");
    }
    sym_cover("done");
}
