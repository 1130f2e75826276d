#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void *vp_i_malloc(uint64_t n, uint64_t kind);
void vp_i_free(void *p, uint64_t kind);
uint64_t vp_i_usable_size(void *p);
[[noreturn]] void vp_i_throw(void *obj, void *ti);
[[noreturn]] void vp_i_abort(const char *m);
uint64_t vp_i_thread_create(void *(*fn)(void *), void *arg);
uint64_t vp_i_thread_join(uint64_t t);
uint64_t vp_i_thread_self();
uint64_t vp_i_thread_detach(uint64_t t);
uint64_t vp_i_mutex_lock(void *m, uint64_t rec);
uint64_t vp_i_mutex_trylock(void *m, uint64_t rec);
uint64_t vp_i_mutex_unlock(void *m);
uint64_t vp_i_cond_wait(void *c, void *m, uint64_t timed, int64_t deadline);
uint64_t vp_i_cond_notify(void *c, uint64_t all);
uint64_t vp_i_futex_wait(void *a, uint32_t v, uint64_t timed, int64_t deadline);
uint64_t vp_i_futex_wake(void *a, uint64_t n);
uint64_t vp_i_yield();
uint64_t vp_i_sleep(int64_t deadline);
int64_t vp_i_clock_now();
void vp_i_clock_set(int64_t v);
}
