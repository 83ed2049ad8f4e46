// Harness API.  Interpreted by the symbolic engine; rt/native.cpp implements it for native replay of a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t sym_u8(const char *name);
uint16_t sym_u16(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi);        // symbolic value in [lo, hi]
uint64_t sym_choose(const char *name, uint64_t lo, uint64_t hi);       // symbolic, then one path per value
void sym_bytes(const char *name, void *p, uint64_t n);
void sym_assume(uint64_t c);
void sym_check(uint64_t c, const char *id);                            // obligation
void sym_fail(const char *id) __attribute__((noreturn));
void sym_cover(const char *id);                                        // reachability witness
uint64_t sym_concretize(uint64_t v);
uint64_t sym_param(const char *name, uint64_t dflt);
void sym_config(const char *name, int64_t v);
void sym_end() __attribute__((noreturn));
void sym_abandon() __attribute__((noreturn));
void sym_unsupported(const char *what) __attribute__((noreturn));      // outside of the model: the path counts as not analysed
int sym_thread(void (*f)(void *), void *arg);
void sym_join(int id);
int sym_done(int id);
int sym_nthreads();
int sym_is_symbolic();
int sym_eq_mem(const void *a, const void *b, uint64_t n);
void sym_note(const char *name, uint64_t v);
void sym_note_str(const char *name, const char *p, uint64_t n);
int sym_alive(const void *p);
void sym_run_atexit();
void sym_run_exit();                                                   // thread-local and static destructors, as exit() runs them
int sym_mutex_held(const void *m);
int sym_holds_lock();
void sym_main();
}
