// C13: failing file operations are contained.
#include "hx.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
using namespace hx;
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), n = (int)sym_param("n", 3);
    auto rec = std::make_shared<rec_sink>(1), rec0 = std::make_shared<rec_sink>(0);
    env::faults = (int)sym_param("faults", 2); env::sticky = sym_param("sticky", 0) != 0;
    unsigned ops = (unsigned)sym_param("ops", 2047);
    std::shared_ptr<sinks::sink> f;
    bool early = sym_param("early", 0) != 0;
    if (early) env::fault_ops = ops;
    try {
        if (mode == 0) f = std::make_shared<sinks::basic_file_sink_st>("d/e/f.log", sym_choose("truncate", 0, 1) != 0);
        else f = std::make_shared<sinks::rolling_file_sink_st>("d/f.log", sym_choose("max", 1, 2) * 3, 2);
    } catch (const std::exception &) { sym_check(env::failed_calls > 0, "creation-fails-only-after-a-failure"); sym_check(env::open_streams() == 0 && env::open_fds() == 0, "nothing-left-open"); sym_cover("not-created"); sym_end(); }
    env::fault_ops = ops;
    std::string all;
    {
        logger l("L", {rec0, f, rec}); f.reset(); l.set_pattern("%v"); l.set_flush_level(level::error);
        for (int i = 0; i < n; i++) {
            int act = (int)sym_choose("action", 0, 2);
            if (act == 0) l.info("ab"); else if (act == 1) l.error("cd"); else l.flush();
            if (act < 2) all += act ? "cd" : "ab";
        }
        if (sym_param("heal", 0)) { env::heal(); env::faults = 0; int e = env::errors; l.error("zz"); all += "zz"; sym_check(env::errors == e, "works-again"); }
        int got = 0; std::string seen;
        for (int i = 0; i < nrec; i++) if (recs[i].sink == 1 && recs[i].kind == 'm') { seen.append(recs[i].text, recs[i].tlen); got++; }
        sym_check(seen == all, "other-sinks-get-every-message");
        if (env::failed_calls == 0) sym_check(env::errors == 0, "no-error-without-a-failure");
    }
    env::fault_ops = 0;
    sym_check(env::open_streams() == 0, "streams-closed"); sym_check(env::open_fds() == 0, "descriptors-closed");
    sym_cover("done"); if (env::failed_calls > 0) sym_cover("failed");
}
