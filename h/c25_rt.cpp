// Counts the cache lines a query touches.  Compiled without instrumentation; the instrumented code calls these hooks.
#include <cstddef>
#include <cstdint>
#include <cstring>

namespace cost {
    static const size_t N = 1 << 18;
    static uintptr_t line[N]; static uint32_t gen[N];
    static uint32_t now_gen = 1;
    static bool on = false, just_work = false;
    static uint64_t lines = 0, work = 0;
    static uintptr_t stack_hi = 0;
    void begin(bool w) { char c; stack_hi = (uintptr_t)&c + 4096; lines = 0; work = 0; just_work = w; ++now_gen; on = true; }
    uint64_t end() { on = false; return lines; }
    uint64_t end_work() { on = false; return work; }
    static inline void hook(const void* p, size_t n)
    {
        if (!on || !n) return;
        uintptr_t a = (uintptr_t)p;
        char c;
        if (a < stack_hi && a > (uintptr_t)&c - 4096) return;          // the query's own stack
        work += (n + 7) / 8;
        if (just_work) return;
        for (uintptr_t l = a >> 6; l <= (a + n - 1) >> 6; ++l) {
            if (lines >= N / 2) { ++lines; return; }
            size_t i = (l * 0x9E3779B97F4A7C15ull) >> 46;
            while (gen[i] == now_gen && line[i] != l) i = (i + 1) & (N - 1);
            if (gen[i] != now_gen) { gen[i] = now_gen; line[i] = l; ++lines; }
        }
    }
}
#ifdef MC_COUNT
extern "C" {
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { cost::hook(p, n); } \
    void __tsan_write##n(void* p) { cost::hook(p, n); } \
    void __tsan_unaligned_read##n(void* p) { cost::hook(p, n); } \
    void __tsan_unaligned_write##n(void* p) { cost::hook(p, n); } \
    void __tsan_volatile_read##n(void* p) { cost::hook(p, n); } \
    void __tsan_volatile_write##n(void* p) { cost::hook(p, n); } \
    void __tsan_unaligned_volatile_read##n(void* p) { cost::hook(p, n); } \
    void __tsan_unaligned_volatile_write##n(void* p) { cost::hook(p, n); } \
    void __tsan_read##n##_pc(void* p, void*) { cost::hook(p, n); } \
    void __tsan_write##n##_pc(void* p, void*) { cost::hook(p, n); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, size_t n) { cost::hook(p, n); }
    void __tsan_write_range(void* p, size_t n) { cost::hook(p, n); }
    void __tsan_vptr_update(void** p, void*) { cost::hook(p, 8); }
    void __tsan_vptr_read(void** p) { cost::hook(p, 8); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { cost::hook((void*)p, sizeof(T)); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { cost::hook((void*)p, sizeof(T)); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) { __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    void* memcpy(void* d, const void* s, size_t n)
    {
        if (cost::on) { cost::hook(s, n); cost::hook(d, n); }
        void* r = d;
        __asm__ __volatile__("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
        return r;
    }
    void* memmove(void* d, const void* s, size_t n)
    {
        if (cost::on) { cost::hook(s, n); cost::hook(d, n); }
        char* a = (char*)d; const char* b = (const char*)s;
        if (a < b || a >= b + n) __asm__ __volatile__("rep movsb" : "+D"(a), "+S"(b), "+c"(n) :: "memory");
        else for (size_t i = n; i-- > 0;) { a[i] = b[i]; __asm__ __volatile__("" ::: "memory"); }
        return d;
    }
    void* memset(void* d, int c, size_t n)
    {
        if (cost::on) cost::hook(d, n);
        void* r = d;
        __asm__ __volatile__("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
        return r;
    }
}
#endif
