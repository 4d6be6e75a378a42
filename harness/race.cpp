// Happens-before race detection over the explored schedules. The program's sources are compiled with GCC's thread instrumentation
// (-fsanitize=thread); this file is the runtime those calls reach. Every coroutine of the scheduler has a vector clock. Clocks
// travel along mutexes, atomics, one-time initialisations and messages (publication to delivery), not along the order in which the
// scheduler happened to run things: two accesses that only ever ran apart by luck are reported.
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/single_threaded.h>
#include <array>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include "race.hpp"
#include "ros/ros.h"
#include "sched.hpp"

namespace {
const int max_tasks = 64;
typedef std::array<std::uint32_t, max_tasks> Clock;
struct Entry { std::uint8_t task, mask; bool write, atomic; std::uint32_t clock; const void* pc; };
struct Cell { std::vector<Entry> entries; };
struct Page { Cell cells[512]; };

struct State {
    std::array<Clock, max_tasks> clocks{};
    std::unordered_map<std::uintptr_t, std::unique_ptr<Page>> pages;
    std::unordered_map<const void*, Clock> syncs;
    int outside[max_tasks] = {};
    std::uint64_t accesses = 0, shared = 0;
    std::uintptr_t last_page = 0;
    Page* last = nullptr;
};
State* S = nullptr;
thread_local bool busy = false;      // inside this runtime
struct Busy { Busy() { busy = true; } ~Busy() { busy = false; } };

int here() { return S && !busy ? sched::current_task() : -1; }
void join(Clock& a, const Clock& b) { for (int i = 0; i < max_tasks; ++i) if (b[i] > a[i]) a[i] = b[i]; }
void tick(int t) { ++S->clocks[t][t]; }
void acquire(int t, const void* m) { auto it = S->syncs.find(m); if (it != S->syncs.end()) join(S->clocks[t], it->second); }
void release(int t, const void* m) { join(S->syncs[m], S->clocks[t]); tick(t); }

std::string function(const void* pc) {
    Dl_info i;
    if (!dladdr(const_cast<void*>(pc), &i) || !i.dli_sname) return "?";
    int status = 1;
    char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &status);
    std::string s = status == 0 ? d : i.dli_sname;
    std::free(d);
    return s.size() > 160 ? s.substr(0, 160) + "..." : s;
}
template<class T> bool within(const void* p, const T& x) { return p >= static_cast<const void*>(&x) && p < static_cast<const void*>(&x + 1); }
bool excluded(const void* p) {
    if (within(p, rosstub::now_ns)) return true;
    // a log message has its own stream; the standard streams may be used concurrently
    for (const std::ostream* o : {&rosstub::null_stream(), &std::cout, &std::cerr, &std::clog}) if (within(p, *o)) return true;
    Dl_info i;
    return dladdr(const_cast<void*>(p), &i) && i.dli_sname && std::strstr(i.dli_sname, "rosstub");
}
void access(int t, std::uintptr_t granule, std::uint8_t mask, bool write, bool atomic, const void* pc) {
    const std::uintptr_t n = granule >> 9;
    if (n != S->last_page || !S->last) {
        auto& p = S->pages[n];
        if (!p) p = std::make_unique<Page>();
        S->last_page = n;
        S->last = p.get();
    }
    auto& es = S->last->cells[granule & 511].entries;
    const Clock& c = S->clocks[t];
    for (auto& e : es) if (e.task == t && e.clock == c[t] && (e.mask & mask) == mask && e.atomic == atomic && (e.write || !write)) return;
    ++S->accesses;
    std::size_t keep = 0;
    bool other = false;
    for (std::size_t i = 0; i < es.size(); ++i) {
        const Entry e = es[i];
        const bool before = e.clock <= c[e.task];
        other |= e.task != t;
        if (!before && (e.mask & mask) && (e.write || write) && !(e.atomic && atomic) && !excluded(reinterpret_cast<void*>(granule << 3))) {
            sched::report("race", function(pc) + " (" + sched::task_name(t) + ") and " + function(e.pc) + " (" + sched::task_name(e.task) + ") use the same memory at the same time, at least one writing it");
        }
        if (!(before && (e.mask & ~mask) == 0 && (write || !e.write))) es[keep++] = e;
    }
    S->shared += other;
    es.resize(keep);
    es.push_back(Entry{static_cast<std::uint8_t>(t), mask, write, atomic, c[t], pc});
}
void touch(const void* p, std::size_t n, bool write, const void* pc, bool atomic = false) {
    const int t = here();
    if (t < 0 || S->outside[t] || n == 0 || sched::on_stack(p)) return;
    Busy b;
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p), e = a + n;
    for (std::uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g) {
        const unsigned lo = g == a >> 3 ? a & 7 : 0, hi = g == (e - 1) >> 3 ? ((e - 1) & 7) + 1 : 8;
        access(t, g, static_cast<std::uint8_t>((0xff << lo) & (0xff >> (8 - hi))), write, atomic, pc);
    }
}
void forget(const void* p, std::size_t n) {
    if (!S || busy || n == 0) return;
    Busy b;
    std::uintptr_t g = reinterpret_cast<std::uintptr_t>(p) >> 3;
    const std::uintptr_t end = (reinterpret_cast<std::uintptr_t>(p) + n - 1) >> 3;
    while (g <= end) {
        auto it = S->pages.find(g >> 9);
        const std::uintptr_t stop = std::min(end, g | 511);
        if (it != S->pages.end()) for (; g <= stop; ++g) it->second->cells[g & 511].entries.clear();
        g = stop + 1;
    }
}
void hook(const void* m, bool lock) {
    const int t = here();
    if (t < 0) return;
    Busy b;
    if (lock) acquire(t, m); else release(t, m);
}
}

namespace race {
Detector::Detector() {
    __libc_single_threaded = 0;   // reference counts are atomic, as in a program with threads
    S = new State;
    for (int i = 0; i < max_tasks; ++i) { S->clocks[i][i] = 1; S->outside[i] = 1; }   // the stand-in calls the program's code
    sched::on_mutex = hook;
    rosstub::hb_send = []() -> std::shared_ptr<void> {
        const int t = here();
        if (t < 0) return nullptr;
        Busy b;
        auto c = std::make_shared<Clock>(S->clocks[t]);
        tick(t);
        return c;
    };
    rosstub::hb_receive = [](const std::shared_ptr<void>& c) {
        const int t = here();
        if (t < 0 || !c) return;
        Busy b;
        join(S->clocks[t], *static_cast<const Clock*>(c.get()));
    };
    rosstub::outside = [](int n) { if (S) { const int t = sched::current_task(); if (t >= 0) S->outside[t] += n; } };
}
Detector::~Detector() {
    sched::on_mutex = nullptr;
    rosstub::hb_send = nullptr;
    rosstub::hb_receive = nullptr;
    rosstub::outside = nullptr;
    State* s = S;
    S = nullptr;
    delete s;
}
std::uint64_t Detector::accesses() const { return S->accesses; }
std::uint64_t Detector::shared() const { return S->shared; }
}

// ---- the runtime --------------------------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __libc_free(void*);
void* __libc_realloc(void*, std::size_t);
void free(void* p) {
    if (p && S && !busy) forget(p, malloc_usable_size(p));
    __libc_free(p);
}
void* realloc(void* p, std::size_t n) {
    if (p && S && !busy) forget(p, malloc_usable_size(p));
    return __libc_realloc(p, n);
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACCESS(n) \
    void __tsan_read##n(void* p) { touch(p, n, false, PC); } \
    void __tsan_write##n(void* p) { touch(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { touch(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { touch(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { touch(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { touch(p, n, true, PC); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, std::size_t n) { touch(p, n, false, PC); }
void __tsan_write_range(void* p, std::size_t n) { touch(p, n, true, PC); }

// Atomics: sequentially consistent execution; the memory order decides what is ordered by them.
static void before(const volatile void* p, int order) {
    const int t = here();
    if (t < 0) return;
    Busy b;
    if (order != 0) acquire(t, const_cast<const void*>(p));
}
static void after(const volatile void* p, int order) {
    const int t = here();
    if (t < 0) return;
    Busy b;
    if (order >= 3) release(t, const_cast<const void*>(p));
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int o) { touch(const_cast<const T*>(p), sizeof(T), false, PC, true); before(p, o); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int o) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); after(p, o); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int o) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int o, int) { touch(const_cast<const T*>(p), sizeof(T), true, PC, true); before(p, o); after(p, o); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// Bulk copies of all objects of the executable (linked with --wrap).
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) { touch(s, n, false, PC); touch(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, std::size_t n) { touch(s, n, false, PC); touch(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { touch(d, n, true, PC); return __real_memset(d, c, n); }
// One-time initialisation of function-local statics.
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
int __wrap___cxa_guard_acquire(void* g) { const int r = __real___cxa_guard_acquire(g); hook(g, true); return r; }
void __wrap___cxa_guard_release(void* g) { hook(g, false); __real___cxa_guard_release(g); }
}
