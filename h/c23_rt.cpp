// Runtime under instrumented code: access hooks, per-thread arenas, cooperative locks, hand-over of control
#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <algorithm>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>

namespace {
    const size_t ARENA = size_t(64) << 20, STACK = size_t(1) << 20;
    struct Thr {
        char* arena; size_t used;
        char* stack;
        pthread_t t;
        sem_t go;
        bool done;
        sched::Footprint seen;
        std::vector<uint64_t> answers;
        std::vector<sched::Op> const* ops;
        int id;
        uintptr_t spin_at; unsigned spins;
    };
    sched::Run* g_run = 0;
    Thr g_thr[4];
    sem_t g_end;
    int g_cur = 0, g_n = 0;
    uint64_t g_points = 0;
    size_t g_next = 0;
    long g_blocked = 0;
    __thread Thr* me = 0;
    __thread int busy = 0;      // inside the runtime itself

    void pass(int to) { g_cur = to; sem_post(&g_thr[to].go); }
    int other()
    {
        for (int k = 1; k < g_n; ++k) { int o = (me->id + k) % g_n; if (!g_thr[o].done) return o; }
        return -1;
    }
    void give_up() { int o = other(); if (o < 0) return; pass(o); while (sem_wait(&me->go)) {} }

    // waiting on something another thread holds: let it go on
    void wait_turn()
    {
        busy++;
        if (++g_blocked > 100000 || other() < 0) { g_run->stuck = true; fprintf(stderr, "stuck\n"); _Exit(77); }
        give_up();
        busy--;
    }

    void hook(const void* p, size_t n, bool w, bool atomic = false)
    {
        if (!me || busy) return;
        uintptr_t a = uintptr_t(p);
        if (a >= uintptr_t(me->stack) && a < uintptr_t(me->stack) + STACK) return;
        if (a >= uintptr_t(me->arena) && a < uintptr_t(me->arena) + ARENA) return;
        busy++;
        sched::Access x = {a, a + n, w};
        // cheap de-duplication of immediate repeats
        if (me->seen.empty() || me->seen.back().lo != x.lo || me->seen.back().hi != x.hi || me->seen.back().write != w) me->seen.push_back(x);
        if (me->seen.size() > 200000) { std::sort(me->seen.begin(), me->seen.end()); me->seen.erase(std::unique(me->seen.begin(), me->seen.end(), [](sched::Access const& q, sched::Access const& r) { return q.lo == r.lo && q.hi == r.hi && q.write == r.write; }), me->seen.end()); }
        bool hit = false;
        sched::Footprint const& pts = g_run->points;
        if (!pts.empty()) {
            auto it = std::lower_bound(pts.begin(), pts.end(), a + n, [](sched::Access const& q, uintptr_t v) { return q.lo < v; });
            while (it != pts.begin()) { --it; if (it->hi > a) { hit = true; break; } if (it->lo + 4096 < a) break; }
        }
        if (hit) {
            uint64_t k = g_points++;
            if (g_next < g_run->switches.size() && g_run->switches[g_next] == k) { ++g_next; give_up(); }
        }
        // a thread that keeps looking at one atomic is waiting for another one
        if (atomic) { if (a == me->spin_at) ++me->spins; else { me->spin_at = a; me->spins = 0; } }
        busy--;
        if (me->spins > 200) { me->spins = 0; wait_turn(); }
    }
    void* body(void* v)
    {
        Thr* t = (Thr*)v;
        while (sem_wait(&t->go)) {}
        busy++;
        me = t;
        size_t n = t->ops->size();
        sched::Op const* op = n ? &(*t->ops)[0] : 0;
        uint64_t* out = t->answers.empty() ? 0 : &t->answers[0];
        busy--;
        for (size_t i = 0; i < n; ++i) out[i] = op[i]();
        busy++;
        t->done = true;
        int o = other();
        if (o >= 0) pass(o); else sem_post(&g_end);
        me = 0;
        return 0;
    }
    void* region(size_t n)
    {
        void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _Exit(2); }
        return p;
    }
}

namespace sched {
    bool instrumented() {
#ifdef MC_SCHED
        return true;
#else
        return false;
#endif
    }
    void execute(Run& r)
    {
        g_run = &r;
        g_n = int(r.threads.size());
        g_points = 0; g_next = 0; g_blocked = 0;
        r.stuck = false;
        sem_init(&g_end, 0, 0);
        for (int i = 0; i < g_n; ++i) {
            Thr& t = g_thr[i];
            if (!t.arena) { t.arena = (char*)region(ARENA); t.stack = (char*)region(STACK); }
            t.used = 0; t.done = false; t.spin_at = 0; t.spins = 0; t.seen.clear(); t.answers.assign(r.threads[i].size(), 0); t.ops = &r.threads[i]; t.id = i;
            sem_init(&t.go, 0, 0);
            pthread_attr_t a; pthread_attr_init(&a);
            pthread_attr_setstack(&a, t.stack, STACK);
            if (pthread_create(&t.t, &a, body, &t)) { perror("pthread_create"); _Exit(2); }
        }
        pass(int(r.first));
        while (sem_wait(&g_end)) {}
        r.answers.clear(); r.touched.clear();
        for (int i = 0; i < g_n; ++i) {
            Thr& t = g_thr[i];
            pthread_join(t.t, 0);
            std::sort(t.seen.begin(), t.seen.end());
            Footprint f;
            for (Access const& x : t.seen) if (f.empty() || f.back().lo != x.lo || f.back().hi != x.hi || f.back().write != x.write) f.push_back(x);
            r.touched.push_back(f);
            r.answers.push_back(t.answers);
        }
        r.npoints = g_points;
        g_run = 0;
    }
}

#ifdef MC_SCHED
// allocations of a controlled thread come from its arena and are never reused within a run
static void* mc_alloc(size_t n)
{
    if (me && !busy) { size_t a = (n + 31) / 16 * 16; if (me->used + a > ARENA) throw std::bad_alloc(); void* p = me->arena + me->used; me->used += a; return p; }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void mc_free(void* p)
{
    for (int i = 0; i < 4; ++i) if (g_thr[i].arena && (char*)p >= g_thr[i].arena && (char*)p < g_thr[i].arena + ARENA) return;
    free(p);
}
void* operator new(size_t n) { return mc_alloc(n); }
void* operator new[](size_t n) { return mc_alloc(n); }
void operator delete(void* p) noexcept { mc_free(p); }
void operator delete[](void* p) noexcept { mc_free(p); }
void operator delete(void* p, size_t) noexcept { mc_free(p); }
void operator delete[](void* p, size_t) noexcept { mc_free(p); }

extern "C" {
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { hook(p, n, false); } \
    void __tsan_write##n(void* p) { hook(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { hook(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { hook(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { hook(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { hook(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { hook(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { hook(p, n, true); } \
    void __tsan_read##n##_pc(void* p, void*) { hook(p, n, false); } \
    void __tsan_write##n##_pc(void* p, void*) { hook(p, n, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, size_t n) { hook(p, n, false); }
    void __tsan_write_range(void* p, size_t n) { hook(p, n, true); }
    void __tsan_vptr_update(void** p, void*) { hook(p, 8, true); }
    void __tsan_vptr_read(void** p) { hook(p, 8, false); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { hook((void*)p, sizeof(T), false, true); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { hook((void*)p, sizeof(T), true, true); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { hook((void*)p, sizeof(T), true, true); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) { hook((void*)p, sizeof(T), true, true); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    // block moves made by controlled threads
    void* memcpy(void* d, const void* s, size_t n)
    {
        if (me && !busy && n) { hook(s, n, false); hook(d, n, true); }
        char* a = (char*)d; const char* b = (const char*)s;
        __asm__ __volatile__("rep movsb" : "+D"(a), "+S"(b), "+c"(n) :: "memory");
        return d;
    }
    void* memmove(void* d, const void* s, size_t n)
    {
        if (me && !busy && n) { hook(s, n, false); hook(d, n, true); }
        char* a = (char*)d; const char* b = (const char*)s;
        if (a < b || a >= b + n) __asm__ __volatile__("rep movsb" : "+D"(a), "+S"(b), "+c"(n) :: "memory");
        else for (size_t i = n; i-- > 0;) { a[i] = b[i]; __asm__ __volatile__("" ::: "memory"); }
        return d;
    }
    void* memset(void* d, int c, size_t n)
    {
        if (me && !busy && n) hook(d, n, true);
        char* a = (char*)d;
        __asm__ __volatile__("rep stosb" : "+D"(a), "+c"(n) : "a"(c) : "memory");
        return d;
    }

    // initialisation of function-local statics and mutexes: never block, let the holder go on
    int __cxa_guard_acquire(uint64_t* g)
    {
        for (;;) {
            if (*(volatile char*)g) return 0;
            volatile char* b = (volatile char*)g + 1;
            char zero = 0;
            if (__atomic_compare_exchange_n(b, &zero, char(1), 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 1;
            if (me) wait_turn();
        }
    }
    void __cxa_guard_release(uint64_t* g) { __atomic_store_n((volatile char*)g, char(1), __ATOMIC_SEQ_CST); __atomic_store_n((volatile char*)g + 1, char(0), __ATOMIC_SEQ_CST); }
    void __cxa_guard_abort(uint64_t* g) { __atomic_store_n((volatile char*)g + 1, char(0), __ATOMIC_SEQ_CST); }
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        for (;;) {
            int v = __atomic_load_n((volatile int*)o, __ATOMIC_SEQ_CST), zero = 0;
            if (v == 2) return 0;
            if (v == 0 && __atomic_compare_exchange_n((volatile int*)o, &zero, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
                f();
                __atomic_store_n((volatile int*)o, 2, __ATOMIC_SEQ_CST);
                return 0;
            }
            if (me && !busy) wait_turn();
        }
    }
    int pthread_spin_lock(pthread_spinlock_t* m) { for (;;) { int e = pthread_spin_trylock(m); if (e != 16) return e; if (me && !busy) wait_turn(); } }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) { for (;;) { int e = pthread_rwlock_tryrdlock(m); if (e != 16) return e; if (me && !busy) wait_turn(); } }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) { for (;;) { int e = pthread_rwlock_trywrlock(m); if (e != 16) return e; if (me && !busy) wait_turn(); } }
    int sched_yield() { if (me && !busy) { wait_turn(); return 0; } return 0; }
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        for (;;) { int e = pthread_mutex_trylock(m); if (e != 16 /* EBUSY */) return e; if (me && !busy) wait_turn(); }
    }
}
#endif
