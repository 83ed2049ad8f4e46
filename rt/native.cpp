// Native replay of a counterexample: the harness API on concrete values.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
static std::map<std::string, uint64_t> vals, params; static std::map<std::string, int> occ;
static std::string nm(const char *n) { return std::string(n) + "#" + std::to_string(occ[n]++); }
static uint64_t get(const std::string &k, uint64_t d) { auto i = vals.find(k); return i == vals.end() ? d : i->second; }
static void done(int rc, const char *what, const char *id) { dprintf(1, "REPLAY %s %s\n", what, id); _exit(rc); }
extern "C" {
uint8_t sym_u8(const char *n) { return (uint8_t)get(nm(n), 0); }
uint16_t sym_u16(const char *n) { return (uint16_t)get(nm(n), 0); }
uint32_t sym_u32(const char *n) { return (uint32_t)get(nm(n), 0); }
uint64_t sym_u64(const char *n) { return get(nm(n), 0); }
uint64_t sym_range(const char *n, uint64_t lo, uint64_t hi) { if (lo > hi) done(3, "infeasible", n); uint64_t v = get(nm(n), lo); return v < lo ? lo : v > hi ? hi : v; }
uint64_t sym_choose(const char *n, uint64_t lo, uint64_t hi) { return sym_range(n, lo, hi); }
void sym_bytes(const char *n, void *p, uint64_t k) { std::string b = nm(n); for (uint64_t i = 0; i < k; i++) ((uint8_t *)p)[i] = (uint8_t)get(b + "[" + std::to_string(i) + "]", 0); }
void sym_assume(uint64_t c) { if (!c) done(3, "infeasible", "assume"); }
void sym_check(uint64_t c, const char *id) { if (!c) done(1, "FAIL", id); }
void sym_fail(const char *id) { done(1, "FAIL", id); abort(); }
void sym_cover(const char *) {}
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_param(const char *n, uint64_t d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
void sym_config(const char *, int64_t) {}
void sym_end() { done(0, "end", "sym_end"); abort(); }
void sym_abandon() { done(3, "infeasible", "abandon"); abort(); }
void sym_unsupported(const char *w) { done(4, "unsupported", w); abort(); }
int sym_thread(void (*)(void *), void *) { done(4, "unsupported", "threads"); return 0; }
void sym_join(int) {}
int sym_done(int) { return 1; }
int sym_nthreads() { return 1; }
int sym_is_symbolic() { return 0; }
int sym_eq_mem(const void *a, const void *b, uint64_t n) { return n == 0 || memcmp(a, b, n) == 0; }
void sym_note(const char *n, uint64_t v) { dprintf(1, "NOTE %s = %lld\n", n, (long long)v); }
void sym_note_str(const char *n, const char *p, uint64_t k) { dprintf(1, "NOTE %s = \"%.*s\"\n", n, (int)k, p); }
int sym_alive(const void *) { return 1; }
void sym_run_atexit() {}
void sym_run_exit() { done(4, "unsupported", "exit"); }
int sym_mutex_held(const void *) { return 0; }
int sym_holds_lock() { return 0; }
}
int64_t rt_steady_ns = 0;
int main(int argc, char **argv) {
    if (argc > 1) {
        std::ifstream f(argv[1]); std::string line;
        while (std::getline(f, line)) { std::istringstream is(line); std::string k, n; uint64_t v; is >> k; if (k == "input" && is >> n >> v) vals[n] = v; else if (k == "param" && is >> n >> v) params[n] = v; }
    }
    alarm(20);
    sym_main();
    done(0, "end", "normal");
}
