// C10: rolling files: size limit, order and numbering, for any size limit and history of messages.
#include "hx.h"
#include "sinks/rolling_file_sink.h"
using namespace hx;
static const int MAXN = 12;
struct F { bool exists; std::string data; };
static F model[MAXN + 1]; static int num;
static std::string path(int i) { std::string s = "d/log_"; if (num >= 10) put_u(s, (uint64_t)i, 2); else put_u(s, (uint64_t)i, 1); return s + ".txt"; }
static int lowest(int from) { int i = from; while (i < num && model[i].exists) i++; return i; }
static void checkAll(const char *id) {
    int files = 0;
    for (int i = 1; i <= num; i++) {
        std::string p = path(i);
        sym_check(env::exists(p.c_str()) == model[i].exists, "files-used");
        if (!model[i].exists) continue;
        files++;
        sym_check(env::fsize(p.c_str()) == model[i].data.size() && env::has(p.c_str(), 0, model[i].data.data(), model[i].data.size()), id);
    }
    sym_check(env::nfiles() == files, "no-other-files");
}
extern "C" void sym_main() {
    num = (int)sym_param("num", 3);
    int n = (int)sym_param("n", 4), runs = (int)sym_param("runs", 1), big = (int)sym_param("big", 0), clean = (int)sym_param("clean", 0);
    uint64_t mx = sym_u64("max"); sym_assume(mx > 0);
    env::mkdir("d");
    for (int i = 1; i <= num && i <= (int)sym_param("pre", 3); i++) if (sym_choose("exists", 0, 1)) {
        std::string p = path(i); model[i].exists = true; model[i].data = sym_text("old", 2); env::mkfile(p.c_str(), model[i].data.data(), 2);
    }
    for (int r = 0; r < runs; r++) {
        int cur = lowest(1); size_t size = 0;
        {
            sinks::rolling_file_sink_st s("d/log.txt", mx, (size_t)num);
            s.set_formatter(learnlog::make_unique<sinks::pattern_formatter>("%v", sym_param("eol", 1) ? "\n" : ""));
            model[cur].exists = true; model[cur].data.clear();
            for (int k = 0; k < n; k++) {
                static const int lens[] = {0, 1, 3, 300};
                std::string t((size_t)lens[sym_choose("length", sym_param("eol", 1) ? 0 : 0, big ? 3 : 2)], 'x');
                for (size_t q = 0; q < t.size() && q < 2; q++) t[q] = (char)sym_u8("byte");
                if (sym_param("flush", 1) && sym_choose("flush", 0, 1)) s.flush();
                if (clean && k) {         // an older file is removed by somebody else
                    int v = (int)sym_choose("removed", 0, num);
                    if (v && v != cur && model[v].exists) { std::string p = path(v); std::remove(p.c_str()); model[v].exists = false; model[v].data.clear(); clean--; sym_cover("cleaned"); }
                }
                base::log_msg m(tp_t(), source_loc{}, level::info, t, "L");
                s.log(m);
                std::string line = t; if (sym_param("eol", 1)) line.push_back('\n');
                if (size > 0 && (size + line.size() > mx)) { cur = lowest(cur); model[cur].exists = true; model[cur].data.clear(); size = 0; sym_cover("rolled"); }
                model[cur].data += line; size += line.size();
                sym_check(size <= mx || size == line.size(), "model");
            }
            if (sym_param("flush", 1)) { s.flush(); checkAll("content-after-flush"); }
        }
        sym_check(env::open_fds() == 0, "files-closed");
        checkAll("content-after-close");
    }
    sym_cover("done");
}
