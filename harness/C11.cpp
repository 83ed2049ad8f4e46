// C11: rolling file names.
#include "hx.h"
#include "sinks/rolling_file_sink.h"
using namespace hx;
static std::string expect(const std::string &base, const std::string &idx) {
    size_t start = 0; for (size_t i = 0; i < base.size(); i++) if (base[i] == '/') start = i + 1;
    size_t dot = base.size(); for (size_t i = start + 1; i < base.size(); i++) if (base[i] == '.') dot = i;
    return base.substr(0, dot) + "_" + idx + base.substr(dot);
}
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && sym_eq_mem(a.data(), b.data(), a.size()); }
extern "C" void sym_main() {
    sym_config("addr", 1); sym_config("clz", 1); env::blind = true;
    size_t n = (size_t)sym_param("len", 4);
    std::string base = (sym_param("prefix", 0) ? "d.x/" : ""); size_t pre = base.size();
    base += sym_text("name", n); for (size_t i = pre; i < base.size(); i++) sym_assume(base[i] != 0);
    static const int nums[] = {1, 9, 10, 99, 100, 9999, 10000}; static const int width[] = {1, 1, 2, 2, 3, 4, 5};
    int k = (int)sym_choose("max", 0, sym_param("nums", 7) - 1);
    int nd = (int)sym_choose("digits", 1, (uint64_t)width[k]);
    Dec d = sym_dec("index", nd, nd > 1); sym_assume(d.v > 0); sym_assume(d.v <= (uint64_t)nums[k]);
    sinks::rolling_file_sink_st s(base, 100, (size_t)nums[k]);
    std::string idx; for (int i = nd; i < width[k]; i++) idx.push_back('0'); put_dec(idx, d);
    std::string got = s.get_rolling_filename((size_t)d.v);
    sym_check(same(got, expect(base, idx)), "rolling-name");
    std::string one; for (int i = 1; i < width[k]; i++) one.push_back('0'); one.push_back('1');
    std::string o(env::last_opened);
    sym_check(same(o, expect(base, one)), "first-file-name");
    sym_check(same(s.base_filename(), base), "base-name-kept");
    sym_cover("named");
}
