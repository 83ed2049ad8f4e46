// Out-of-line parts of libstdc++ that live in libstdc++.so, for the symbolic engine (not linked natively).
#define _GLIBCXX_DEFINING_STRING_INSTANTIATIONS 1
#include <string>
#include <stdexcept>
#include <system_error>
#include <future>
#include <thread>
#include <mutex>
#include <chrono>
#include <new>
#include <typeinfo>
#include <functional>
#include <memory>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <ios>
#include <list>
#include <map>
#include "sym.h"
template class std::basic_string<char>;
int rt_errno = 0;
extern "C" { extern char __libc_single_threaded; char __libc_single_threaded = 0; }
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

// __cow_string holds one pointer: keep a heap copy of the text
static char *dupstr(const char *s) { size_t n = __builtin_strlen(s); char *p = (char *)__builtin_malloc(n + 1); __builtin_memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() : _M_p(dupstr("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupstr(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(dupstr(s)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = dupstr(o._M_p); return *this; }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = dupstr(o._M_p); return *this; }
__cow_string::~__cow_string() { __builtin_free((void *)_M_p); }
#define EXC(T, B) T::T(const std::string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
runtime_error::runtime_error(const std::string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const std::string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "std::future_error"; }

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error(make_error_code(future_errc(e))); }

error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int i) const { (void)i; return __cow_string("error", 5); }
struct rt_category : error_category { const char *name() const noexcept override { return "generic"; } std::string message(int e) const override { char b[16]; int k = 16; unsigned v = (unsigned)e; b[--k] = 0; do { b[--k] = (char)('0' + v % 10); v /= 10; } while (v); return std::string("error ") + (b + k); } };
static rt_category &rtcat() { static rt_category c; return c; }
inline namespace _V2 {
const error_category &generic_category() noexcept { return rtcat(); }
const error_category &system_category() noexcept { return rtcat(); }
}
const error_category &future_category() noexcept { return rtcat(); }
error_condition error_code::default_error_condition() const noexcept { return error_condition(value(), category()); }

thread::_State::~_State() {}
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}
__thread void *__once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }

namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t p[] = {2, 5, 11, 23, 47, 97, 197, 397};
    for (size_t i = 0; i < 8; i++) if (p[i] >= n) { _M_next_resize = p[i]; return p[i]; }
    _M_next_resize = n; return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ins) const {
    if (ne + ins > _M_next_resize) {
        size_t want = ne + ins;
        if (_M_next_resize == 0 && want < 11) want = 11;
        if (want >= nb) { size_t g = want + 1 > nb * 2 ? want + 1 : nb * 2; return {true, _M_next_bkt(g)}; }
        _M_next_resize = nb;
        return {false, 0};
    }
    return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
    const unsigned char *s = (const unsigned char *)p; size_t h = seed;
    for (size_t i = 0; i < n; i++) h = h * 31 + s[i];
    return (size_t)sym_concretize(h);
}
}
extern "C" void rt_thread_entry(std::thread::_State *s) { std::unique_ptr<std::thread::_State> p(s); p->_M_run(); }
// standard streams: opaque handles recognised by rt/env.cpp
static char rt_stdout_obj[16], rt_stderr_obj[16], rt_stdin_obj[16];
extern "C" { FILE *stdout = (FILE *)rt_stdout_obj; FILE *stderr = (FILE *)rt_stderr_obj; FILE *stdin = (FILE *)rt_stdin_obj; }
int64_t rt_steady_ns = 5000000000ll;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(rt_steady_ns)); } } } }

// ---- node algorithms of std::list and std::map / std::set
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
    if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
typedef _Rb_tree_node_base *_RP;
static _RP rb_inc(_RP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } _RP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static _RP rb_dec(_RP x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { _RP y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } _RP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_RP _Rb_tree_increment(_RP x) throw() { return rb_inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rb_inc((_RP)x); }
_RP _Rb_tree_decrement(_RP x) throw() { return rb_dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rb_dec((_RP)x); }
// an unbalanced tree of black nodes: the order is what matters here
void _Rb_tree_insert_and_rebalance(const bool left, _RP x, _RP p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_RP _Rb_tree_rebalance_for_erase(_RP const z, _Rb_tree_node_base &h) throw() {
    _RP &root = h._M_parent; auto put = [&](_RP o, _RP n) { if (root == o) root = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (h._M_left == z) { if (z->_M_right) { _RP y = z->_M_right; while (y->_M_left) y = y->_M_left; h._M_left = y; } else h._M_left = z->_M_parent; }
    if (h._M_right == z) { if (z->_M_left) { _RP y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; } else h._M_right = z->_M_parent; }
    if (!z->_M_left) put(z, z->_M_right); else if (!z->_M_right) put(z, z->_M_left);
    else {
        _RP y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    return z;
}
}
