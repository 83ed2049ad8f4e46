// C20: thread-safe sinks: every message is one contiguous line rendered with one pattern, none lost, no data race.
#include "hx.h"
#include "sinks/basic_file_sink.h"
#include "sinks/formatters/pattern_formatter.h"
#include "sinks/null_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"
#include <thread>
using namespace hx;
// a formatter that needs exclusive use: it keeps the line it builds in a member
struct own_formatter : sinks::formatter {
    std::string line;
    void format(const base::log_msg &m, fmt_memory_buf &d) override { line = "{"; line.append(m.msg.data(), m.msg.size()); line += "}\n"; d.append(line.data(), line.data() + line.size()); }
    formatter_uni_ptr clone() const override { return formatter_uni_ptr(new own_formatter); }
};
// a sink a user derives: it keeps the rendered line in a member and writes it in two steps
struct user_sink : sinks::basic_sink<std::mutex> {
    fmt_memory_buf line; int flushes = 0;
    void output_(const base::log_msg &m) override { line.clear(); formatter_->format(m, line); size_t h = line.size() / 2; fwrite(line.data(), 1, h, stdout); fwrite(line.data() + h, 1, line.size() - h, stdout); }
    void flush_() override { flushes++; }
};
enum { OP_LOG, OP_FLUSH, OP_PAT, OP_FMT, OP_COLOR };
struct Call { int op, id; };
static Call calls[2][3]; static int nops; static int kind; static bool race;
static std::unique_ptr<sinks::sink> sk[2]; static int sinkof[2]; static std::string text[2][3];
static bool color_kind() { return kind == 3 || kind == 4 || kind == 5 || kind == 6; }
static const char *const P0 = "%^(%v)%$", *const P1 = "<%n%^%v%$>";
static bool own;                                     // each thread creates its own sink
static void perform(int t) {
    if (own) { if (kind == 5 || (kind == 6 && t == 0)) sk[t].reset(new sinks::stdout_color_sink_mt); else sk[t].reset(new sinks::stdout_sink_mt); sk[t]->set_pattern(P0); }
    sinks::sink &s = *sk[sinkof[t]];
    for (int k = 0; k < nops; k++) {
        switch (calls[t][k].op) {
        case OP_LOG: { base::log_msg m(tp_t(seconds(1000 + t)), source_loc(), level::info, fmt_string_view(text[t][k].data(), text[t][k].size()), "N"); s.log(m); break; }
        case OP_FLUSH: s.flush(); break;
        case OP_PAT: s.set_pattern(P1); break;
        case OP_FMT: s.set_formatter(formatter_uni_ptr(new own_formatter)); break;
        case OP_COLOR: if (kind == 3 || (kind == 6 && sinkof[t] == 0) || kind == 5) static_cast<sinks::stdout_color_sink_mt &>(s).set_level_color(level::info, "COL"); else if (kind == 4) static_cast<sinks::stderr_color_sink_mt &>(s).set_level_color(level::info, "COL"); else s.flush(); break;
        }
    }
}
struct St { int pat[2]; bool col[2]; };
static const unsigned char *odata; static size_t olen; static uint64_t fits; static int orders;
static void line(std::string &o, const St &st, int s, const std::string &x) {
    bool c = (color_kind() && !(kind == 6 && s == 1)); const char *b = !c || st.pat[s] == 2 ? "" : st.col[s] ? "COL" : "\033[32m", *e = !c || st.pat[s] == 2 ? "" : "\033[m";
    if (st.pat[s] == 0) o += std::string(b) + "(" + x + ")" + e + "\n"; else if (st.pat[s] == 1) o += std::string("<N") + b + x + e + ">\n"; else o += "{" + x + "}\n";
}
// the operations of the two threads one after another, in every order
static void explore(St st, int i, int j, std::string o) {
    if (i == nops && j == nops) { orders++; if (o.size() == olen) fits |= (uint64_t)(sym_eq_mem(odata, o.data(), olen) != 0); return; }
    for (int t = 0; t < 2; t++) {
        int k = t ? j : i; if (k == nops) continue;
        St q = st; std::string p = o; int s = sinkof[t];
        switch (calls[t][k].op) { case OP_LOG: line(p, st, s, text[t][k]); break; case OP_PAT: q.pat[s] = 1; break; case OP_FMT: q.pat[s] = 2; break; case OP_COLOR: q.col[s] = true; break; }
        explore(q, i + !t, j + t, p);
    }
}
static void setup() {
    env::env_term = "xterm"; env::out.tty = env::err.tty = true;
    own = sym_param("own", 0); if (own) { sinkof[1] = 1; return; }
    switch (kind) {
    case 0: sk[0].reset(new sinks::basic_file_sink_mt("f.log")); break;
    case 1: sk[0].reset(new sinks::rolling_file_sink_mt("r.log", 6, 9)); break;
    case 2: sk[0].reset(new sinks::stdout_sink_mt); break;
    case 3: sk[0].reset(new sinks::stdout_color_sink_mt); break;
    case 4: sk[0].reset(new sinks::stderr_color_sink_mt); break;
    case 5: sk[0].reset(new sinks::stdout_color_sink_mt); sk[1].reset(new sinks::stdout_color_sink_mt); break;
    case 6: sk[0].reset(new sinks::stdout_color_sink_mt); sk[1].reset(new sinks::stdout_sink_mt); break;
    case 7: sk[0].reset(new sinks::ostream_sink_mt(env::ostream(), sym_param("force", 0))); break;
    case 8: sk[0].reset(new user_sink); break;
    case 9: sk[0].reset(new sinks::null_sink_mt); break;
    case 10: sk[0].reset(new sinks::stderr_sink_mt); break;
    case 11: sk[0].reset(new sinks::stdout_sink_mt); sk[1].reset(new sinks::stdout_sink_mt); break;
    }
    if (sk[1]) sinkof[1] = 1;
    if (sym_param("dflt", 0) == 0) for (int i = 0; i < 2; i++) if (sk[i]) sk[i]->set_pattern(P0);
}
static std::string collect() {                       // all the output, files in number order
    std::string o;
    if (kind == 0) { sk[0].reset(); o.assign((const char *)env::fdata("f.log"), env::fsize("f.log")); }
    else if (kind == 1) { sk[0].reset(); for (int i = 1; i <= 9; i++) { std::string n = "r_" + std::to_string(i) + ".log"; if (env::exists(n.c_str())) o.append((const char *)env::fdata(n.c_str()), env::fsize(n.c_str())); } }
    else if (kind == 7) o.assign((const char *)env::ost.data, env::ost.len);
    else if (kind == 4 || kind == 10) o.assign((const char *)env::err.data, env::err.len);
    else o.assign((const char *)env::out.data, env::out.len);
    return o;
}
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0); kind = (int)sym_param("kind", 0); nops = (int)sym_param("n", 2); race = !sym_param("merge", 1);
    sym_config("det", 0); if (race) sym_config("race", 1); else sym_config("merge", 1);
    sym_config("preempt", (int)sym_param("preempt", race ? 2 : -1)); env::step_ns = 0; env::now_ns = 1700000000123456789ll;
    if (mode == 0) {                                 // one sink (or two on one console), two threads with any operations
        setup(); int maxop = color_kind() ? 4 : 3, o0 = (int)sym_param("o0", 99);
        for (int t = 0; t < 2; t++) for (int k = 0; k < nops; k++) { calls[t][k].op = t == 0 && k == 0 && o0 < 99 ? o0 : (int)sym_choose("op", 0, maxop); if (calls[t][k].op == OP_LOG) { text[t][k] = race ? std::string("xy") : sym_text("t", 2); } }
        env::io_points = !race;
        { std::thread a([] { perform(1); }); perform(0); a.join(); }
        env::io_points = false;
        if (!race) {
            std::string o = collect(); if (kind == 9) { sym_check(o.empty() && env::err.len == 0, "no-output"); sym_cover("done"); return; }
            odata = (const unsigned char *)o.data(); olen = o.size(); St st = {{0, 0}, {false, false}};
            explore(st, 0, 0, ""); sym_check(fits, "output-of-some-order");
        }
    } else if (mode == 1) {                          // one logger with two sinks, the threads log through it
        kind = 2; auto f = std::make_shared<sinks::basic_file_sink_mt>("f.log"); auto c = std::make_shared<sinks::stdout_color_sink_mt>(); auto us = std::make_shared<user_sink>();
        static logger *l; logger lg("N", {f, c}); l = &lg; l->set_pattern("(%v)"); if (sym_choose("flush", 0, 1)) l->set_flush_level(level::info);
        env::io_points = !race; static int n; n = nops;
        { std::thread a([] { for (int k = 0; k < n; k++) l->info("b{}", k); }); for (int k = 0; k < n; k++) l->info("a{}", k); a.join(); }
        env::io_points = false; l->flush();
        for (int s = 0; s < 2; s++) {
            std::string o = s ? std::string((const char *)env::out.data, env::out.len) : std::string((const char *)env::fdata("f.log"), env::fsize("f.log"));
            int na = 0, nb = 0; size_t i = 0;
            while (i + 5 <= o.size()) { std::string ln = o.substr(i, 5); i += 5; if (ln == std::string("(a") + char('0' + na) + ")\n") na++; else if (ln == std::string("(b") + char('0' + nb) + ")\n") nb++; else sym_fail("broken-line"); }
            sym_check(i == o.size() && na == nops && nb == nops, "each-line-once");
        }
        sym_check(env::errors == 0, "no-error");
    }
    sym_cover("done");
}
