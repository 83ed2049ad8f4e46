// C23: global settings reach every registered logger and every later one; per-logger settings reach that one only.
#include "hx.h"
#include "sinks/null_sink.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
using namespace hx;
static const char *const PAT[4] = {"%v", "1%v", "2%v.%v", "%l:%v"};
// what a sink renders with: a pattern (index) or a custom formatter (number)
class my_fmt : public sinks::formatter {
public:
    int id; explicit my_fmt(int i) : id(i) {}
    void format(const base::log_msg &m, fmt_memory_buf &b) override { char t[3] = {'F', (char)('0' + id), ':'}; b.append(t, t + 3); b.append(m.msg.data(), m.msg.data() + m.msg.size()); }
    formatter_uni_ptr clone() const override { return formatter_uni_ptr(new my_fmt(id)); }
};
struct How { int pat, fm; };                          // fm >= 0 overrides pat; pat < 0: the built-in default
struct Model { std::shared_ptr<logger> l; level::level_enum lv, fl; How how; std::string pattern; bool reg; fmt_sink *s[2]; int ns; };
static Model md[6]; static int nm = 0;
static level::level_enum glv = level::info, gfl = level::off; static How ghow{-1, -1}; static std::string gpat = "%+";
static level::level_enum cur;
static void expect(const How &h, std::string &w) {
    static const char *const LV[7] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
    if (h.fm >= 0) { w = "F"; w.push_back((char)('0' + h.fm)); w += ":t"; return; }
    w = h.pat == 0 ? "t" : h.pat == 1 ? "1t" : h.pat == 2 ? "2t.t" : std::string(LV[(int)cur]) + ":t";
    w += "\n";
}
static void verify() {
    for (int i = 0; i < nm; i++) {
        Model &m = md[i];
        sym_check(m.l->get_log_level() == m.lv, "log-level"); sym_check(m.l->get_flush_level() == m.fl, "flush-level");
        sym_check(m.l->get_pattern() == m.pattern, "pattern-text");
        for (int k = 0; k < m.ns; k++) {
            cur = level::error; base::log_msg q(cur, "t", m.l->name()); m.s[k]->log(q);
            std::string w; const fmt_memory_buf &o = m.s[k]->last;
            if (m.how.fm < 0 && m.how.pat < 0) { sym_check(o.size() > 10 && o[0] == '[', "default-format"); continue; }
            expect(m.how, w); sym_check(eq(o.data(), o.size(), w.data(), w.size()), "format-in-force");
        }
    }
}
static const char *const NAME[6] = {"a", "b", "c", "d", "e", "f"};
static void grab(Model &m) { m.ns = (int)m.l->sinks().size(); for (int k = 0; k < m.ns; k++) m.s[k] = static_cast<fmt_sink *>(m.l->sinks()[k].get()); }
static int poolkind = 0;
static void create_one(int how) {
    if (how >= 3 && how <= 5 && how - 3 != poolkind) { poolkind = how - 3; for (int i = 0; i < nm; i++) if (md[i].l->is_async()) md[i].reg = false; }
    Model &m = md[nm]; m = Model();
    switch (how) {
    case 0: m.l = learnlog::create<fmt_sink>(NAME[nm]); break;
    case 1: m.l = std::make_shared<logger>(NAME[nm], sinks_init_list{std::make_shared<fmt_sink>(), std::make_shared<fmt_sink>()}); initialize_logger(m.l); break;
    case 2: m.l = std::make_shared<logger>(NAME[nm], std::make_shared<fmt_sink>()); register_logger(m.l); break;      // registered as it is
    case 3: m.l = learnlog::create_async_lock<fmt_sink>(NAME[nm]); break;
    case 4: m.l = learnlog::create_async_lockfree<fmt_sink>(NAME[nm]); break;
    case 5: m.l = learnlog::create_async_lockfree_concurrent<fmt_sink>(NAME[nm]); break;
    case 6: m.l = std::make_shared<logger>(NAME[nm], std::make_shared<fmt_sink>()); set_default_logger(m.l); break;
    }
    grab(m); m.reg = true;
    if (how == 2 || how == 6) { m.lv = level::info; m.fl = level::off; m.how = How{-1, -1}; m.pattern = "%+"; }
    else { m.lv = glv; m.fl = gfl; m.how = ghow; m.pattern = gpat; }
    nm++;
}
static bool asyncs, levels_only;
static void op(int o, int depth) {
    int e0 = env::errors; bool err = false;
    switch (o) {
    case 0: { int p = 1 + (depth + (int)sym_choose("pat", 0, 1)) % 3; gpat = PAT[p]; ghow = How{p, -1}; set_global_pattern(gpat); for (int i = 0; i < nm; i++) if (md[i].reg) { md[i].how = ghow; md[i].pattern = gpat; } break; }
    case 1: { ghow.fm = depth; set_global_formatter(formatter_uni_ptr(new my_fmt(depth))); for (int i = 0; i < nm; i++) if (md[i].reg) md[i].how.fm = depth; break; }
    case 2: { glv = sym_level("global-level"); set_global_log_level(glv); for (int i = 0; i < nm; i++) if (md[i].reg) md[i].lv = glv; break; }
    case 3: { gfl = sym_level("global-flush"); set_global_flush_level(gfl); for (int i = 0; i < nm; i++) if (md[i].reg) md[i].fl = gfl; break; }
    case 4: case 5: case 6: {                         // per logger, by name; one name is unknown
        int i = (int)sym_choose("target", 0, (uint64_t)nm); bool ok = i < nm && md[i].reg; std::string n = i < nm ? md[i].l->name() : "nobody"; err = !ok;
        if (o == 4) { learnlog::set_pattern(n, PAT[3]); if (ok) { md[i].how = How{3, -1}; md[i].pattern = PAT[3]; } }
        else if (o == 5) { auto v = sym_level("level"); learnlog::set_log_level(n, v); if (ok) md[i].lv = v; }
        else { auto v = sym_level("flush"); learnlog::set_flush_level(n, v); if (ok) md[i].fl = v; }
        break; }
    case 7: create_one((int)sym_choose("kind", 0, asyncs ? 6 : 2)); break;
    case 8: {                                         // on the object itself
        int i = (int)sym_choose("target", 0, (uint64_t)nm - 1); int w = (int)sym_choose("what", 0, 3);
        if (w == 0) { md[i].l->set_pattern(PAT[0]); md[i].how = How{0, -1}; md[i].pattern = PAT[0]; }
        else if (w == 1) { md[i].l->set_formatter(formatter_uni_ptr(new my_fmt(7))); md[i].how.fm = 7; }
        else if (w == 2) { auto v = sym_level("level"); md[i].l->set_log_level(v); md[i].lv = v; }
        else { auto v = sym_level("flush"); md[i].l->set_flush_level(v); md[i].fl = v; }
        break; }
    case 9: { int i = (int)sym_choose("target", 0, (uint64_t)nm - 1); remove_logger(md[i].l->name()); md[i].reg = false; break; }
    }
    sym_check(env::errors - e0 == (err ? 1 : 0), "unknown-name-reported"); if (err) sym_cover("unknown");
}
// ---- settings change while another thread logs: each message is handled under the old or the new setting
#include <thread>
struct mt_sink : sinks::basic_sink<std::mutex> { std::string o[8]; int n = 0, f = 0; void output_(const base::log_msg &m) override { fmt_memory_buf b; formatter_->format(m, b); o[n++].assign(b.data(), b.size()); } void flush_() override { f++; } };
static std::shared_ptr<logger> tl; static int N;
static void threads() {
    sym_config("det", 0); sym_config("preempt", (int)sym_param("preempt", 2)); if (sym_param("merge", 1)) sym_config("merge", 1); else sym_config("race", 1);
    N = (int)sym_param("n", 2); env::step_ns = 0;
    auto s = std::make_shared<mt_sink>(); tl = std::make_shared<logger>("a", s); register_logger(tl); set_global_pattern("0%v");
    int w1 = (int)sym_choose("setting", 0, 5), w2 = sym_param("two", 0) ? (int)sym_choose("setting-2", 0, 5) : -1;
    { std::thread a([] { for (int k = 0; k < N; k++) { char t = (char)('0' + k); tl->warn(fmt_string_view(&t, 1)); } });
      for (int w : {w1, w2}) switch (w) {
        case 0: set_global_log_level(level::error); break;
        case 1: set_global_flush_level(level::warn); break;
        case 2: set_global_pattern("1%v"); break;
        case 3: set_global_formatter(formatter_uni_ptr(new my_fmt(3))); break;
        case 4: learnlog::set_pattern("a", "1%v"); break;
        case 5: learnlog::set_log_level("a", level::error); break; }
      a.join(); }
    auto has = [&](int w) { return w1 == w || w2 == w; };
    int prev = -1; bool now_new = false;
    for (int i = 0; i < s->n; i++) {
        const std::string &o = s->o[i]; int k = -1; bool nw = false;
        if (o.size() == 3 && (o[0] == '0' || o[0] == '1') && o[2] == '\n') { k = o[1] - '0'; nw = o[0] == '1'; sym_check(!nw || has(2) || has(4), "some-setting"); }
        else if (o.size() == 4 && has(3) && o[0] == 'F' && o[1] == '3' && o[2] == ':') { k = o[3] - '0'; nw = true; }
        sym_check(k > prev && k < N, "one-setting-per-message"); sym_check(nw || !now_new, "settings-do-not-come-back"); now_new = now_new || nw; prev = k;
    }
    if (!has(0) && !has(5)) sym_check(s->n == N, "none-lost"); else { for (int i = 0; i < s->n; i++) sym_check(s->o[i].find((char)('0' + i)) != std::string::npos, "gated-from-then-on"); if (s->n < N) sym_cover("gated"); }
    sym_check(s->f <= (has(1) ? s->n : 0), "flushes"); int f = s->f, n = s->n; tl->warn("z");
    sym_check(s->n == n + (has(0) || has(5) ? 0 : 1), "in-force"); sym_check(s->f == f + (has(1) && !has(0) && !has(5) ? 1 : 0), "in-force");
    sym_cover("done");
}
extern "C" void sym_main() {
    if (sym_param("threads", 0)) { threads(); return; }
    int n = (int)sym_param("n", 3); asyncs = sym_param("asyncs", 0) != 0; int o0 = (int)sym_param("o0", 99);
    sym_config("det", 1); sym_config("preempt", 0); if (asyncs) initialize_thread_pool<base::lock_thread_pool>(4, 1);
    if (sym_param("setup", 1)) { create_one(0); create_one((int)sym_choose("second", 1, 2)); }
    else create_one(0);
    verify();
    for (int k = 0; k < n; k++) op(k == 0 && o0 < 99 ? o0 : (int)sym_choose("op", 0, 9), k);
    create_one((int)sym_choose("last", 0, 1));
    verify();
    sym_cover("done");
    for (int i = 0; i < nm; i++) md[i].l.reset();
    learnlog::close();
}
