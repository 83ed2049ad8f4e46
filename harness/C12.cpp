// C12: file sinks create directories and append or truncate.
#include "hx.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
using namespace hx;
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0); size_t n = (size_t)sym_param("len", 5);
    std::string path;
    if (mode == 0) {                             // every path of n characters over '/', '.', 'a'
        for (size_t i = 0; i < n; i++) path.push_back("/.a"[sym_choose("char", 0, 2)]);
        size_t start = 0;
        for (size_t i = 0; i <= path.size(); i++) if (i == path.size() || path[i] == '/') {
            std::string c = path.substr(start, i - start);
            sym_assume(c != "..");
            if (i == path.size()) sym_assume(c != "" && c != ".");
            start = i + 1;
        }
    } else { static const char *const ps[] = {"f.log", "d/f.log", "/abs/dir/f.log", "one/two/three/f.log", "./x/f", "a//b/f", "/f"}; path = ps[sym_choose("path", 0, 6)]; }
    bool trunc = sym_choose("truncate", 0, 1) != 0;
    // what is there already: some of the parent directories, and the file if all are
    int deep = 0; for (size_t i = 1; i < path.size(); i++) deep += path[i] == '/' && path[i - 1] != '/';
    int have = (int)sym_choose("existing-parents", 0, (uint64_t)deep), k = 0;
    for (size_t i = 1; i < path.size() && k < have; i++) if (path[i] == '/' && path[i - 1] != '/') { env::mkdir(path.substr(0, i).c_str()); k++; }
    std::string old, want; bool had = have == deep && sym_choose("file-exists", 0, 1);
    if (had) { old = sym_text("old", 3); env::mkfile(path.c_str(), old.data(), old.size()); }
    if (!trunc) want = old;
    int how = mode == 0 ? 0 : (int)sym_choose("how", 0, 2);
    auto run = [&](bool tr) {
        std::shared_ptr<sinks::sink> s;
        if (how == 0) s = std::make_shared<sinks::basic_file_sink_st>(path, tr);
        else if (how == 1) s = std::make_shared<sinks::basic_file_sink_mt>(path, tr);
        std::shared_ptr<logger> l = how == 2 ? basic_file_logger_mt("L", path, tr) : std::make_shared<logger>("L", s);
        s.reset(); l->set_pattern("%v"); 
        sym_check(env::exists(path.c_str()) && !env::isdir(path.c_str()), "file-created");
        sym_check(env::fsize(path.c_str()) == want.size() && env::has(path.c_str(), 0, want.data(), want.size()), "old-content");
        int nm = (int)sym_param("n", 2);
        for (int i = 0; i < nm; i++) {
            std::string t = sym_text("text", 2);
            l->info(fmt_string_view(t)); want += t; want.push_back('\n');
            if (i == 0) { l->flush(); sym_check(env::fsize(path.c_str()) == want.size() && env::has(path.c_str(), 0, want.data(), want.size()), "content-after-flush"); }
        }
        learnlog::remove_logger("L"); l.reset();
        sym_check(env::fsize(path.c_str()) == want.size() && env::has(path.c_str(), 0, want.data(), want.size()), "content-after-close");
        sym_check(env::open_fds() == 0, "closed");
    };
    run(trunc);
    if (mode == 1) {
        bool again = sym_choose("truncate-again", 0, 1) != 0; int gone = (int)sym_choose("gone", 0, 2); if (again || gone) want.clear();
        if (gone) env::erase(path.c_str());          // somebody else removed the file, or its directories with it
        if (gone == 2) for (size_t i = path.size(); i-- > 1;) if (path[i] == '/' && path[i - 1] != '/') env::erase(path.substr(0, i).c_str());
        run(again);
    }
    sym_check(env::nfiles() == 1, "no-other-files");
    sym_cover("done");
}
