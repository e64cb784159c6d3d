// Minimal run-time for code compiled with -fsanitize=thread and linked without it: each
// instrumented access is a potential preemption point of the deterministic scheduler.  Atomic
// operations are performed here, sequentially consistent.
#include <cstddef>
#include <cstdint>
#include <cstring>

#include "heapguard.h"

extern "C" void ds_mem_access();

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define RD(name, n) \
  void __tsan_##name##n(void* p) { ds_mem_access(); hg::Check(p, n, false); }
#define WR(name, n) \
  void __tsan_##name##n(void* p) { ds_mem_access(); hg::Check(p, n, true); }
#define ACC(n)                                                                               \
  RD(read, n) WR(write, n) RD(unaligned_read, n) WR(unaligned_write, n) WR(read_write, n)    \
  WR(unaligned_read_write, n) RD(volatile_read, n) WR(volatile_write, n)
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n) { ds_mem_access(); hg::CheckRange(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { ds_mem_access(); hg::CheckRange(p, n, true); }

void* __tsan_memcpy(void* d, const void* s, unsigned long n) { ds_mem_access(); hg::CheckRange(s, n, false); hg::CheckRange(d, n, true); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int v, unsigned long n) { ds_mem_access(); hg::CheckRange(d, n, true); return memset(d, v, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { ds_mem_access(); hg::CheckRange(s, n, false); hg::CheckRange(d, n, true); return memmove(d, s, n); }

#define ATC(a, bits) hg::Check(const_cast<const void*>(static_cast<const volatile void*>(a)), bits / 8, true);
#define ATOMIC(bits)                                                                              \
  uint##bits##_t __tsan_atomic##bits##_load(const volatile uint##bits##_t* a, int)                \
  { ds_mem_access(); ATC(a, bits) return __atomic_load_n(a, __ATOMIC_SEQ_CST); }                               \
  void __tsan_atomic##bits##_store(volatile uint##bits##_t* a, uint##bits##_t v, int)             \
  { ds_mem_access(); ATC(a, bits) __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                                  \
  uint##bits##_t __tsan_atomic##bits##_exchange(volatile uint##bits##_t* a, uint##bits##_t v, int) \
  { ds_mem_access(); ATC(a, bits) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }                        \
  uint##bits##_t __tsan_atomic##bits##_fetch_add(volatile uint##bits##_t* a, uint##bits##_t v, int) \
  { ds_mem_access(); ATC(a, bits) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }                         \
  uint##bits##_t __tsan_atomic##bits##_fetch_sub(volatile uint##bits##_t* a, uint##bits##_t v, int) \
  { ds_mem_access(); ATC(a, bits) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }                         \
  uint##bits##_t __tsan_atomic##bits##_fetch_and(volatile uint##bits##_t* a, uint##bits##_t v, int) \
  { ds_mem_access(); ATC(a, bits) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }                         \
  uint##bits##_t __tsan_atomic##bits##_fetch_or(volatile uint##bits##_t* a, uint##bits##_t v, int) \
  { ds_mem_access(); ATC(a, bits) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }                          \
  uint##bits##_t __tsan_atomic##bits##_fetch_xor(volatile uint##bits##_t* a, uint##bits##_t v, int) \
  { ds_mem_access(); ATC(a, bits) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }                         \
  uint##bits##_t __tsan_atomic##bits##_fetch_nand(volatile uint##bits##_t* a, uint##bits##_t v, int) \
  { ds_mem_access(); ATC(a, bits) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }                        \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile uint##bits##_t* a, uint##bits##_t* e, \
                                                    uint##bits##_t v, int, int)                   \
  { ds_mem_access(); ATC(a, bits)                                                                              \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }     \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile uint##bits##_t* a, uint##bits##_t* e,  \
                                                  uint##bits##_t v, int, int)                     \
  { ds_mem_access(); ATC(a, bits)                                                                              \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }     \
  uint##bits##_t __tsan_atomic##bits##_compare_exchange_val(volatile uint##bits##_t* a,           \
                                                            uint##bits##_t e, uint##bits##_t v,   \
                                                            int, int)                             \
  { ds_mem_access(); ATC(a, bits)                                                                              \
    __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8) ATOMIC(16) ATOMIC(32) ATOMIC(64)
void __tsan_atomic_thread_fence(int) { ds_mem_access(); }
void __tsan_atomic_signal_fence(int) {}
}
