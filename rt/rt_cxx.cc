// C++ runtime and libstdc++ compiled-part models.
#include "vp_i.h"
#include <sstream>
#include <cstring>
#include <ctime>
#define private public
#define protected public
#include <new>
#include <exception>
#include <stdexcept>
#include <memory>
#include <functional>
#include <system_error>
#include <future>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <map>
#include <list>
#include <unordered_map>
#include <typeinfo>
#include <cxxabi.h>
#undef private
#undef protected

void *operator new(size_t n) { void *p = vp_i_malloc(n, 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = vp_i_malloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return vp_i_malloc(n, 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return vp_i_malloc(n, 2); }
void *operator new(size_t n, std::align_val_t) { void *p = vp_i_malloc(n, 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t) { void *p = vp_i_malloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { vp_i_free(p, 1); }
void operator delete[](void *p) noexcept { vp_i_free(p, 2); }
void operator delete(void *p, size_t) noexcept { vp_i_free(p, 1); }
void operator delete[](void *p, size_t) noexcept { vp_i_free(p, 2); }
void operator delete(void *p, std::align_val_t) noexcept { vp_i_free(p, 1); }
void operator delete[](void *p, std::align_val_t) noexcept { vp_i_free(p, 2); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { vp_i_free(p, 1); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { vp_i_free(p, 2); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vp_i_free(p, 1); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vp_i_free(p, 2); }
namespace std { const nothrow_t nothrow{}; }

// ------------------------------------------------------------ exceptions
struct Hdr { void *ti; void (*dtor)(void *); int refs; int handlers; Hdr *next; void *primary; char pad[48]; };
static_assert(sizeof(Hdr) <= 96);
static thread_local Hdr *tl_caught; static thread_local int tl_uncaught;
static Hdr *hdr(void *o) { return (Hdr *)((char *)o - 96); }
static void *objOf(Hdr *h) { return h->primary ? h->primary : (char *)h + 96; }
static void rel(void *obj) { Hdr *h = hdr(obj); if (__atomic_sub_fetch(&h->refs, 1, __ATOMIC_ACQ_REL) == 0) { if (h->dtor) h->dtor(obj); vp_i_free(h, 0); } }
extern "C" {
void *__cxa_allocate_exception(size_t n) noexcept { char *p = (char *)vp_i_malloc(n + 96, 0); __builtin_memset(p, 0, 96); return p + 96; }
void __cxa_free_exception(void *o) noexcept { vp_i_free(hdr(o), 0); }
void *vp_init_primary(void *o, void *ti, void (*d)(void *)) asm("__cxa_init_primary_exception");
void *vp_init_primary(void *o, void *ti, void (*d)(void *)) { Hdr *h = hdr(o); h->ti = ti; h->dtor = d; h->refs = 0; return h; }
[[noreturn]] void vp_cxa_throw(void *o, void *ti, void (*d)(void *)) asm("__cxa_throw");
void vp_cxa_throw(void *o, void *ti, void (*d)(void *)) { Hdr *h = hdr(o); h->ti = ti; h->dtor = d; h->refs = 1; tl_uncaught++; vp_i_throw(o, ti); }
void *__cxa_get_exception_ptr(void *o) noexcept { return objOf(hdr(o)); }
void *__cxa_begin_catch(void *o) noexcept {
  Hdr *h = hdr(o); tl_uncaught--;
  h->handlers = h->handlers < 0 ? -h->handlers + 1 : h->handlers + 1;
  if (tl_caught != h) { h->next = tl_caught; tl_caught = h; }
  return objOf(h);
}
void __cxa_end_catch() {
  Hdr *h = tl_caught; if (!h) return;
  if (h->handlers < 0) { if (++h->handlers == 0) tl_caught = h->next; return; }
  if (--h->handlers == 0) { tl_caught = h->next; if (h->primary) { void *p = h->primary; vp_i_free(h, 0); rel(p); } else rel((char *)h + 96); }
}
void __cxa_rethrow() { Hdr *h = tl_caught; if (!h) vp_i_abort("rethrow without active exception (std::terminate)"); h->handlers = -h->handlers; tl_uncaught++; vp_i_throw((char *)h + 96, h->ti); }
void __cxa_pure_virtual() { vp_i_abort("pure virtual call"); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int __gxx_personality_v0() { return 0; }
int vp_ga(char *g) asm("__cxa_guard_acquire"); int vp_ga(char *g) { if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0; vp_i_mutex_lock(g + 1, 0); if (*g) { vp_i_mutex_unlock(g + 1); return 0; } return 1; }
void vp_gr(char *g) asm("__cxa_guard_release"); void vp_gr(char *g) { __atomic_store_n(g, 1, __ATOMIC_RELEASE); vp_i_mutex_unlock(g + 1); }
void vp_gb(char *g) asm("__cxa_guard_abort"); void vp_gb(char *g) { vp_i_mutex_unlock(g + 1); }
int __cxa_thread_atexit(void (*)(void *), void *, void *) noexcept { return 0; }
}
namespace std {
void terminate() noexcept { vp_i_abort("std::terminate() called"); }
bool uncaught_exception() noexcept { return tl_uncaught > 0; }
int uncaught_exceptions() noexcept { return tl_uncaught; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void *o) noexcept : _M_exception_object(o) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) __atomic_add_fetch(&hdr(_M_exception_object)->refs, 1, __ATOMIC_RELAXED); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { rel(_M_exception_object); _M_exception_object = nullptr; } }
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
exception_ptr current_exception() noexcept {
  Hdr *h = tl_caught; if (!h) return exception_ptr();
  struct P { void *o; }; exception_ptr r; void *o = objOf(h); __atomic_add_fetch(&hdr(o)->refs, 1, __ATOMIC_RELAXED); *(void **)&r = o; return r;
}
void rethrow_exception(exception_ptr p) {
  void *o = *(void **)&p; __atomic_add_fetch(&hdr(o)->refs, 1, __ATOMIC_RELAXED);
  Hdr *d = (Hdr *)vp_i_malloc(104, 0); __builtin_memset(d, 0, 96); d->ti = hdr(o)->ti; d->primary = o;
  tl_uncaught++;
  p.~exception_ptr(); __builtin_memset((void *)&p, 0, sizeof p);
  vp_i_throw((char *)d + 96, d->ti);
}
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *t, void **, unsigned) const { return this == t; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

// string carried by logic_error/runtime_error: reference counted copy, behaves like __cow_string
struct CowRep { int refs; unsigned len; char c[1]; };
static const char *cowNew(const char *s, size_t n) { CowRep *r = (CowRep *)vp_i_malloc(sizeof(CowRep) + n, 0); r->refs = 1; r->len = n; __builtin_memcpy(r->c, s, n); r->c[n] = 0; return r->c; }
static CowRep *cowRep(const char *p) { return (CowRep *)(p - offsetof(CowRep, c)); }
static void cowRel(const char *p) { if (p && __atomic_sub_fetch(&cowRep(p)->refs, 1, __ATOMIC_ACQ_REL) == 0) vp_i_free(cowRep(p), 0); }
static const char *cowAdd(const char *p) { if (p) __atomic_add_fetch(&cowRep(p)->refs, 1, __ATOMIC_RELAXED); return p; }
__cow_string::__cow_string() { _M_p = cowNew("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = cowNew(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = cowNew(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = cowAdd(o._M_p); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { const char *p = cowAdd(o._M_p); cowRel(_M_p); _M_p = p; return *this; }
__cow_string::~__cow_string() { cowRel(_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; o._M_p = nullptr; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { cowRel(_M_p); _M_p = o._M_p; o._M_p = nullptr; return *this; }
#define ERR(C) \
C::C(const string &s) : _M_msg(s) {} C::C(const char *s) : _M_msg(s, __builtin_strlen(s)) {} \
C::C(C &&o) noexcept : exception(), _M_msg(std::move(o._M_msg)) {} C &C::operator=(C &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
C::C(const C &o) noexcept : exception(), _M_msg(o._M_msg) {} C &C::operator=(const C &o) noexcept { _M_msg = o._M_msg; return *this; } \
C::~C() noexcept {} const char *C::what() const noexcept { return _M_msg._M_p; }
ERR(logic_error) ERR(runtime_error)
#define DER(C, B) C::C(const string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {}
DER(domain_error, logic_error) DER(invalid_argument, logic_error) DER(length_error, logic_error) DER(out_of_range, logic_error)
DER(range_error, runtime_error) DER(overflow_error, runtime_error) DER(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return logic_error::what(); }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *m) { throw logic_error(m); }
void __throw_domain_error(const char *m) { throw domain_error(m); }
void __throw_invalid_argument(const char *m) { throw invalid_argument(m); }
void __throw_length_error(const char *m) { throw length_error(m); }
void __throw_out_of_range(const char *m) { throw out_of_range(m); }
void __throw_out_of_range_fmt(const char *m, ...) { throw out_of_range(m); }
void __throw_runtime_error(const char *m) { throw runtime_error(m); }
void __throw_range_error(const char *m) { throw range_error(m); }
void __throw_overflow_error(const char *m) { throw overflow_error(m); }
void __throw_underflow_error(const char *m) { throw underflow_error(m); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error(make_error_code(future_errc(e))); }

// error categories
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
namespace {
struct Cat final : error_category { const char *n; Cat(const char *x) : n(x) {} const char *name() const noexcept override { return n; } string message(int) const override { return n; } };
}
inline namespace _V2 {
const error_category &generic_category() noexcept { static Cat *c = new Cat("generic"); return *c; }
const error_category &system_category() noexcept { static Cat *c = new Cat("system"); return *c; }
}
const error_category &future_category() noexcept { static Cat *c = new Cat("future"); return *c; }

// ------------------------------------------------------------ threads
thread::_State::~_State() {}
static void *threadMain(void *p) { thread::_State *s = (thread::_State *)p; s->_M_run(); delete s; return nullptr; }
void thread::_M_start_thread(_State_ptr st, void (*)()) { uint64_t t = vp_i_thread_create(threadMain, st.release()) + 1; *(uint64_t *)&_M_id = t; }
void thread::join() { uint64_t t = *(uint64_t *)&_M_id; if (!t) __throw_system_error(22); if (t - 1 == vp_i_thread_self()) __throw_system_error(35); vp_i_thread_join(t - 1); _M_id = id(); }
void thread::detach() { uint64_t t = *(uint64_t *)&_M_id; if (!t) __throw_system_error(22); vp_i_thread_detach(t - 1); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
namespace this_thread { void __sleep_for(chrono::seconds s, chrono::nanoseconds n) { vp_i_sleep(vp_i_clock_now() + s.count() * 1000000000 + n.count()); } }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_one() noexcept { vp_i_cond_notify(this, 0); }
void condition_variable::notify_all() noexcept { vp_i_cond_notify(this, 1); }
void condition_variable::wait(unique_lock<mutex> &l) { vp_i_cond_wait(this, l.mutex(), 0, 0); }
__thread void *__once_callable; __thread void (*__once_call)();
chrono::_V2::steady_clock::time_point chrono::_V2::steady_clock::now() noexcept { return time_point(duration(vp_i_clock_now())); }
chrono::_V2::system_clock::time_point chrono::_V2::system_clock::now() noexcept { return time_point(duration(vp_i_clock_now())); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool to, chrono::seconds s, chrono::nanoseconds n) { return vp_i_futex_wait(a, v, to, s.count() * 1000000000 + n.count()) != 110; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool to, chrono::seconds s, chrono::nanoseconds n) { return vp_i_futex_wait(a, v, to, s.count() * 1000000000 + n.count()) != 110; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) { vp_i_futex_wake(a, 64); }

// ------------------------------------------------------------ containers
size_t _Hash_bytes(const void *, size_t, size_t) { return 0; }   // a (constant) hash function: every key in one bucket
size_t _Fnv_hash_bytes(const void *, size_t, size_t) { return 0; }
namespace __detail {
static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 8087, 17519, 37987, 82393};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t mn = ne + ni; if (!_M_next_resize && mn < 11) mn = 11;
    if (mn >= nb) return {true, _M_next_bkt(mn + 1 > nb * 2 ? mn + 1 : nb * 2)};
    _M_next_resize = nb; return {false, 0};
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}
// Ordered tree: an unbalanced binary search tree satisfies the same interface (order, header links).
using N = _Rb_tree_node_base;
N *_Rb_tree_increment(N *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
const N *_Rb_tree_increment(const N *x) noexcept { return _Rb_tree_increment(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const N *_Rb_tree_decrement(const N *x) noexcept { return _Rb_tree_decrement(const_cast<N *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) noexcept {
  N *y = z, *x, *xp;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { N *t = x; while (t->_M_left) t = t->_M_left; h._M_left = t; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { N *t = x; while (t->_M_right) t = t->_M_right; h._M_right = t; } }
  }
  return z;
}
}  // namespace std
// promise<T>::set_value_at_thread_exit helper is not modelled
extern "C" void __once_proxy() { auto c = std::__once_call; c(); }
extern "C" int pthread_once(int *ctl, void (*fn)()) {
  if (__atomic_load_n(ctl, __ATOMIC_ACQUIRE) == 2) return 0;
  vp_i_mutex_lock(ctl, 0);
  if (*ctl != 2) {
    try { fn(); } catch (...) { vp_i_mutex_unlock(ctl); throw; }
    __atomic_store_n(ctl, 2, __ATOMIC_RELEASE);
  }
  vp_i_mutex_unlock(ctl);
  return 0;
}
extern "C" void *vp_dyncast(const void *src, const void *, const void *dst, long) asm("__dynamic_cast");
extern "C" void *vp_dyncast(const void *src, const void *, const void *dst, long) {
  // walk the dynamic type's single-inheritance chain (offset 0 only)
  void *const *vt = *(void *const *const *)src; const char *obj = (const char *)src + (long)vt[-2];
  void *const *ti = (void *const *)vt[-1];
  extern void *vp_si[] asm("_ZTVN10__cxxabiv120__si_class_type_infoE");
  for (;;) { if ((const void *)ti == dst) return (void *)obj; if (ti[0] != (void *)(vp_si + 2)) return nullptr; ti = (void *const *)ti[2]; }
}

// ------------------------------------------------------------ iostream stubs: output goes nowhere
struct FakeCtype { char pad[56]; char ok; char widen[256]; char more[600]; };
static FakeCtype fakeCtype = {{}, 1, {}, {}};
static void *fakeVt[64];
struct FakeStream { void **vptr; char pad[232]; void *ctype; char pad2[300]; };
#define FSTREAM(v, sym) FakeStream v asm(sym) = {fakeVt + 32, {}, &fakeCtype, {}};
FSTREAM(fCout, "_ZSt4cout") FSTREAM(fCerr, "_ZSt4cerr") FSTREAM(fClog, "_ZSt4clog") FSTREAM(fCin, "_ZSt3cin")
extern "C" void vp_unmodelled(const char *);
// string streams keep their text where the library keeps it (after the stringbuf's locale and mode); other streams discard it
extern "C" { extern void *fakeOss[8], *fakeSs[8], *fakeSs2[8];
void *fakeOss[8] = {(void *)112}, *fakeSs[8] = {(void *)128}, *fakeSs2[8] = {(void *)112};
extern void *vttOss[8] asm("_ZTTNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE"); void *vttOss[8] = {fakeOss + 3, fakeOss + 3, fakeOss + 3, fakeOss + 3};
extern void *vttSs[10] asm("_ZTTNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEE"); void *vttSs[10] = {fakeSs + 3, fakeSs + 3, fakeSs + 3, fakeSs + 3, fakeSs2 + 3, fakeSs2 + 3, fakeSs + 3, fakeSs + 3, fakeSs2 + 3, fakeSs2 + 3};
void iosb_d(void *) asm("_ZNSt8ios_baseD2Ev"); void iosb_d(void *) {} }
namespace {
struct FakeIos { void **vptr; long precision, width; int flags; char pad[188]; void *tie; char fill; bool fillInit; char pad2[6]; char *buf; void *ctype; char pad3[16]; };
static_assert(sizeof(FakeIos) == 264);
FakeIos *iosOf(void *os) { return (FakeIos *)((char *)os + ((long **)os)[0][-3]); }
std::string *textOf(void *os) { char *b = iosOf(os)->buf; return b ? (std::string *)(b + 72) : nullptr; }
void putText(void *os, const char *p, size_t n) {
  FakeIos *i = iosOf(os); std::string *t = textOf(os); if (!t) return; long w = i->width; i->width = 0;
  if (w > (long)n && !(i->flags & 32)) t->append((size_t)w - n, i->fill); t->append(p, n); if (w > (long)n && (i->flags & 32)) t->append((size_t)w - n, i->fill);
}
void *putNum(void *os, unsigned long v, bool neg) {
  if (!iosOf(os)->buf) return os; char b[72]; int n = 72; int f = iosOf(os)->flags, base = f & 8 ? 16 : f & 64 ? 8 : 10; if (neg && base == 10) v = -v; do { b[--n] = "0123456789abcdef"[v % base]; v /= base; } while (v); if (neg && base == 10) b[--n] = '-'; putText(os, b + n, (size_t)(72 - n)); return os;
}

int bufOverflow(char *b, int c) { if (c != -1) *(std::string *)(b + 72) += (char)c; return c; }
long bufPuts(char *b, const char *p, long n) { ((std::string *)(b + 72))->append(p, (size_t)n); return n; }
void *fakeBufVt[16] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, (void *)bufPuts, (void *)bufOverflow};
void initBuf(char *obj, char *buf, char *ios) { memset(buf, 0, 104); memset(ios, 0, 264); *(void ***)buf = fakeBufVt; new (buf + 72) std::string; FakeIos *i = (FakeIos *)ios; i->precision = 6; i->flags = 4098; i->fill = ' '; i->fillInit = true; i->buf = buf; i->ctype = &fakeCtype; i->vptr = fakeVt + 32; }
}
extern "C" {
void oss_c(char *o) asm("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev"); void oss_c(char *o) { *(void ***)o = fakeOss + 3; initBuf(o, o + 8, o + 112); }
void oss_d(char *o) asm("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev"); void oss_d(char *o) { using S = std::string; ((S *)(o + 80))->~S(); }
void ss_c(char *o) asm("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev"); void ss_c(char *o) { *(void ***)o = fakeSs + 3; *(long *)(o + 8) = 0; *(void ***)(o + 16) = fakeSs2 + 3; initBuf(o, o + 24, o + 128); }
void ss_d(char *o) asm("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev"); void ss_d(char *o) { using S = std::string; ((S *)(o + 96))->~S(); }
void loc_c(void *, void *) asm("_ZNSt6localeC1ERKS_"); static void *fakeFacets[1] = {&fakeCtype}; static struct { long n; void **facets; } fakeImpl = {1, fakeFacets}; void loc_c(void *l, void *) { *(void **)l = &fakeImpl; } unsigned long loc_id(void *) asm("_ZNKSt6locale2id5_M_idEv"); unsigned long loc_id(void *) { return 0; }
void ios_imbue(void *, void *, void *) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE5imbueERKSt6locale"); void ios_imbue(void *r, void *, void *) { *(void **)r = &fakeImpl; }
void loc_d(void *) asm("_ZNSt6localeD1Ev"); void loc_d(void *) {}
void *tp_facet(void *) asm("_ZSt9use_facetISt8time_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEEERKT_RKSt6locale"); void *tp_facet(void *) { return &fakeCtype; }
struct BufIt { char *buf; bool failed; };
BufIt tp_put(void *, BufIt, void *, char, const struct tm *, const char *, const char *) asm("_ZNKSt8time_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE3putES3_RSt8ios_basecPK2tmPKcSB_");
BufIt tp_put(void *, BufIt it, void *, char, const struct tm *t, const char *f, const char *e) {
  std::string *s = it.buf ? (std::string *)(it.buf + 72) : nullptr; if (!s) return it; auto two = [s](int v) { *s += (char)('0' + v / 10 % 10); *s += (char)('0' + v % 10); };
  for (; f != e; ++f) { if (*f != '%') { *s += *f; continue; } ++f;
    if (*f == 'F') { int y = t->tm_year + 1900; two(y / 100); two(y % 100); *s += '-'; two(t->tm_mon + 1); *s += '-'; two(t->tm_mday); } else if (*f == 'T') { two(t->tm_hour); *s += ':'; two(t->tm_min); *s += ':'; two(t->tm_sec); } else vp_unmodelled("time format"); }
  return it; }
void buf_sync(void *, char *, unsigned long, unsigned long) asm("_ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE7_M_syncEPcmm"); void buf_sync(void *, char *, unsigned long, unsigned long) {}
struct FakeSentry { bool ok; void *os; };
void se_c(FakeSentry *s, void *os) asm("_ZNSo6sentryC1ERSo"); void se_c(FakeSentry *s, void *os) { s->ok = true; s->os = os; }
void se_d(FakeSentry *) asm("_ZNSo6sentryD1Ev"); void se_d(FakeSentry *) {}
#define OS(sym, ...) void *o_##sym(void *s, ##__VA_ARGS__) asm(#sym); void *o_##sym(void *s, ##__VA_ARGS__) { return s; }
#define OSN(sym, T) void *o_##sym(void *s, T v) asm(#sym); void *o_##sym(void *s, T v) { return putNum(s, (unsigned long)v, v < 0); }
OSN(_ZNSolsEi, int) OSN(_ZNSolsEs, short) OSN(_ZNSolsEj, unsigned) OSN(_ZNSolsEt, unsigned short) OSN(_ZNSolsEl, long) OSN(_ZNSolsEm, unsigned long) OSN(_ZNSolsEx, long) OSN(_ZNSolsEy, unsigned long) OS(_ZNSolsEPKv, void *) OSN(_ZNSolsEb, bool) OS(_ZNSolsEPFRSoS_E, void *)
OSN(_ZNSo9_M_insertIbEERSoT_, bool) OSN(_ZNSo9_M_insertIlEERSoT_, long) OSN(_ZNSo9_M_insertImEERSoT_, unsigned long) OSN(_ZNSo9_M_insertIxEERSoT_, long) OSN(_ZNSo9_M_insertIyEERSoT_, unsigned long) OS(_ZNSo9_M_insertIPKvEERSoT_, void *) OS(_ZNSo9_M_insertIdEERSoT_, double)
void *os_put(void *s, char c) asm("_ZNSo3putEc"); void *os_put(void *s, char c) { if (auto *t = textOf(s)) *t += c; return s; }
OS(_ZNSo5flushEv) OS(_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_)
void *os_ins(void *s, const char *p, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); void *os_ins(void *s, const char *p, long n) { putText(s, p, (size_t)n); return s; }
void *os_cs(void *s, const char *p) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"); void *os_cs(void *s, const char *p) { if (p && iosOf(s)->buf) putText(s, p, strlen(p)); return s; }
void *os_ch(void *s, char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c"); void *os_ch(void *s, char c) { putText(s, &c, 1); return s; }
OS(_ZNSo5writeEPKcl, void *, long)
OS(_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate, int) OS(_ZNSt8ios_base4InitC1Ev) OS(_ZNSt8ios_base4InitD1Ev)
void vp_iosinit() asm("_ZSt21ios_base_library_initv"); void vp_iosinit() {}
void vp_ctinit(void *) asm("_ZNKSt5ctypeIcE13_M_widen_initEv"); void vp_ctinit(void *) {}
}
