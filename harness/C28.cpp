// C28: colour sinks wrap exactly the marked range and otherwise add nothing.
#include "fmtx.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"
using namespace fx;
static const char *const CODE[7] = {"\033[37m", "\033[36m", "\033[32m", "\033[33m\033[1m", "\033[31m\033[1m", "\033[1m\033[41m", "\033[m"};
static std::unique_ptr<sinks::sink> make(int kind) {
    switch (kind) {
    case 0: return std::unique_ptr<sinks::sink>(new sinks::stdout_color_sink_mt); case 1: return std::unique_ptr<sinks::sink>(new sinks::stdout_color_sink_st);
    case 2: return std::unique_ptr<sinks::sink>(new sinks::stderr_color_sink_mt); case 3: return std::unique_ptr<sinks::sink>(new sinks::stderr_color_sink_st);
    case 4: return std::unique_ptr<sinks::sink>(new sinks::stdout_sink_mt); case 5: return std::unique_ptr<sinks::sink>(new sinks::stdout_sink_st);
    case 6: return std::unique_ptr<sinks::sink>(new sinks::stderr_sink_mt); default: return std::unique_ptr<sinks::sink>(new sinks::stderr_sink_st);
    }
}
static bool is_err(int kind) { return (kind & 2) != 0; }
static std::string want[2];                          // expected bytes on stdout, stderr
static void verify(const char *id) { for (int e = 0; e < 2; e++) { env::Std &s = e ? env::err : env::out; sym_check(s.len == want[e].size() && sym_eq_mem(s.data, want[e].data(), want[e].size()), id); } }
static void expect(int kind, bool colour, Ref &r, const char *pat, size_t n, const char *code) {
    r.cs = r.ce = 0; std::string o = render(r, pat, n, "\n"), &w = want[is_err(kind)];
    if (colour && kind < 4 && r.ce > r.cs) { w += o.substr(0, r.cs); w += code; w += o.substr(r.cs, r.ce - r.cs); w += "\033[m"; w += o.substr(r.ce); sym_cover("coloured"); } else { w += o; sym_cover("plain"); }
}
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0); sym_config("addr", 1); fixed_env(); Ref r; fixed(r);
    static const char *const TERMS[8] = {nullptr, "xterm-256color", "", "dumb", "my-screen.linux", "vt10", "xter", "ansi"};
    static const bool OK[8] = {false, true, false, false, true, false, false, true};
    static const char *const CT[3] = {nullptr, "", "truecolor"};
    int te = mode == 1 ? (int)sym_choose("TERM", 0, 7) : 1, ct = mode == 1 ? (int)sym_choose("COLORTERM", 0, 2) : 0;
    env::env_term = TERMS[te]; env::env_colorterm = CT[ct]; bool term = ct ? true : OK[te];
    env::out.tty = sym_choose("stdout-is-terminal", 0, 1); env::err.tty = mode == 1 ? sym_choose("stderr-is-terminal", 0, 1) : !env::out.tty;
    int kind = mode == 1 ? (int)sym_choose("sink", 0, 7) : (int)sym_choose("sink", 0, 3);
    bool colour = term && (is_err(kind) ? env::err.tty : env::out.tty);
    auto s = make(kind);
    if (mode == 0) {                                 // any pattern
        size_t n = (size_t)sym_param("len", 3); char pat[8]; sym_bytes("p", pat, n); if (sym_param("marks", 0)) { for (size_t i = 0; i < n; i += 2) pat[i] = '%'; }
        r.lvl = (int)sym_param("level", 4); base::log_msg m = fixed_msg(r);
        s->set_pattern(std::string(pat, n)); s->log(m); expect(kind, colour, r, pat, n, CODE[r.lvl]); verify("bytes-written");
    } else if (mode == 1) {                          // terminals, streams, levels; the built-in pattern marks the level
        r.lvl = (int)sym_choose("level", 0, 6); base::log_msg m = fixed_msg(r);
        s->log(m); expect(kind, colour, r, "%+", 2, CODE[r.lvl]); verify("bytes-written");
        int f0 = is_err(kind) ? env::err.flushes : env::out.flushes; s->flush(); sym_check((is_err(kind) ? env::err.flushes : env::out.flushes) == f0 + 1, "flush-reaches-the-stream");
        sym_check((is_err(kind) ? env::out.len : env::err.len) == 0, "other-stream-untouched");
    } else if (mode == 2) {                          // marks never leak: several patterns one after the other, one message through several sinks
        static const char *const P[6] = {"%v", "%^%v%$", "a%^b%$%v", "%$%v%^", "%^%$%v", "%v%^"}; static const bool hasStart[6] = {false, true, true, true, true, true};
        (void)hasStart; r.lvl = (int)sym_choose("level", 0, 6); r.text = sym_text("t", (size_t)sym_param("tlen", 2)); base::log_msg m = fixed_msg(r);
        int p0 = (int)sym_choose("p0", 0, 5), p1 = (int)sym_choose("p1", 0, 5); s->set_pattern(P[p0]);
        s->log(m); expect(kind, colour, r, P[p0], strlen(P[p0]), CODE[r.lvl]); verify("first");
        int how = (int)sym_choose("then", 0, 2);
        if (how == 0) { s->set_pattern(P[p1]); s->log(m); expect(kind, colour, r, P[p1], strlen(P[p1]), CODE[r.lvl]); }
        else if (how == 1) { int k2 = kind ^ 2; auto s2 = make(k2); s2->set_formatter(formatter_uni_ptr(new sinks::pattern_formatter(P[p1]))); s2->log(m); expect(k2, term && (is_err(k2) ? env::err.tty : env::out.tty), r, P[p1], strlen(P[p1]), CODE[r.lvl]); }
        else { r.text = "other"; r.lvl = (r.lvl + 1) % 7; base::log_msg m2 = fixed_msg(r); m2.color_index_start = 1; m2.color_index_end = 3; s->set_pattern(P[p1]); s->log(m2); expect(kind, colour, r, P[p1], strlen(P[p1]), CODE[r.lvl]); }
        verify("second");
    } else if (mode == 3) {                          // colours set by the user, also empty; per level
        int lv = (int)sym_choose("set", 0, 6); std::string c = sym_text("code", (size_t)sym_choose("code-length", 0, 3)); r.lvl = (int)sym_choose("level", 0, 6); base::log_msg m = fixed_msg(r);
        switch (kind) { case 0: static_cast<sinks::stdout_color_sink_mt *>(s.get())->set_level_color((level::level_enum)lv, c); break; case 1: static_cast<sinks::stdout_color_sink_st *>(s.get())->set_level_color((level::level_enum)lv, c); break; case 2: static_cast<sinks::stderr_color_sink_mt *>(s.get())->set_level_color((level::level_enum)lv, c); break; default: static_cast<sinks::stderr_color_sink_st *>(s.get())->set_level_color((level::level_enum)lv, c); }
        s->set_pattern("<%^%l%$>%v"); s->log(m);
        r.cs = r.ce = 0; std::string o = render(r, "<%^%l%$>%v", 10, "\n"), &w = want[is_err(kind)];
        if (colour) { w += o.substr(0, r.cs); if (lv == r.lvl) w += c; else w += CODE[r.lvl]; w += o.substr(r.cs, r.ce - r.cs); w += "\033[m"; w += o.substr(r.ce); } else w += o;
        verify("bytes-written");
    } else if (mode == 4) {                          // through loggers: the factory, level gate, synchronous
        std::shared_ptr<logger> l; bool e = kind & 2; l = kind == 0 ? stdout_color_logger_mt("c") : kind == 1 ? stdout_color_logger_st("c") : kind == 2 ? stderr_color_logger_mt("c") : stderr_color_logger_st("c");
        l->set_pattern("%^%l%$ %v"); l->log((level::level_enum)2, "x{}", 1); l->debug("no"); std::string &w = want[e];
        if (colour) w = std::string(CODE[2]) + "info\033[m x1\n"; else w = "info x1\n"; verify("bytes-written");
    }
    sym_check(env::errors == 0, "no-error"); sym_cover("done");
}
