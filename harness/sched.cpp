#include "sched.hpp"
#include "mc.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include "ros/ros.h"

extern "C" const char __executable_start, etext;
namespace sched {
namespace {
struct EhGlobals { void* caught; unsigned int uncaught; };
enum State { IDLE, RUNNABLE, ON_MUTEX, ON_COND, ASLEEP };
const std::size_t stack_size = 1 << 21;
std::vector<void*>& stack_pool() { static std::vector<void*> p; return p; }
void* new_stack() {
    if (!stack_pool().empty()) { void* p = stack_pool().back(); stack_pool().pop_back(); return p; }
    void* p = mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); std::abort(); }
    mprotect(p, 4096, PROT_NONE);
    return p;
}
struct Task {
    std::string name;
    int id = 0;
    std::function<bool()> ready;
    std::function<void()> run;
    std::function<double()> stamp;
    bool needs_thread = true;
    int priority = 0;
    State state = IDLE;
    const void* waits_on = nullptr;     // mutex or condition variable
    bool shared = false;                // waits for shared ownership
    bool timed = false, timed_out = false;
    std::uint64_t slept_at = 0;         // progress counter when it went to sleep
    double since = 0;                   // order in which it became ready
    bool was_ready = false;
    ucontext_t context;
    void* stack = nullptr;
    EhGlobals eh{nullptr, 0};
    bool pruned = false, failed = false;
};
enum Outcome { GO, PRUNE, FAIL };
}

struct World::Impl {
    std::vector<std::unique_ptr<Task>> tasks;
    std::vector<std::pair<const char*, std::size_t>> ranges;
    struct Lock { Task* owner; int count; };
    std::map<const void*, Lock> locks;
    std::map<const void*, std::map<Task*, int>> readers;    // shared owners
    bool available(const void* m, Task* t, bool shared) const {
        auto w = locks.find(m);
        if (w != locks.end() && w->second.owner != t) return false;
        auto r = readers.find(m);
        return shared || r == readers.end() || r->second.empty() || (r->second.size() == 1 && r->second.count(t));
    }
    ucontext_t main;
    EhGlobals main_eh{nullptr, 0};
    Task* current = nullptr;
    Task* last = nullptr;
    int budget, threads;
    std::uint64_t progress = 1;
    double order = 1;
    std::size_t points = 0;
    std::string error, key, detail;
    bool exhausted_round = false;

    bool program = false;
    bool watched(const void* p, const void* caller) const {
        if (program && caller >= &__executable_start && caller < &etext) return true;
        for (auto& r : ranges) if (p >= r.first && p < r.first + r.second) return true;
        return false;
    }
    void switch_to_main() {
        Task* t = current;
        EhGlobals* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
        t->eh = *g;
        swapcontext(&t->context, &main);
    }
    static void entry(unsigned lo, unsigned hi);
    void resume(Task* t) {
        EhGlobals* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
        main_eh = *g;
        *g = t->eh;
        current = t;
        swapcontext(&main, &t->context);
        current = nullptr;
        *reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()) = main_eh;
        if (t->state == IDLE && t->stack) {
            stack_pool().push_back(t->stack);
            t->stack = nullptr;
        }
    }
    void start(Task* t) {
        t->stack = new_stack();
        getcontext(&t->context);
        t->context.uc_stack.ss_sp = t->stack;
        t->context.uc_stack.ss_size = stack_size;
        t->context.uc_link = &main;
        t->eh = EhGlobals{nullptr, 0};
        t->state = RUNNABLE;
        const std::uintptr_t p = reinterpret_cast<std::uintptr_t>(t);
        makecontext(&t->context, reinterpret_cast<void (*)()>(&Impl::entry), 2, static_cast<unsigned>(p), static_cast<unsigned>(p >> 32));
    }
    int active_threads() const {
        int n = 0;
        for (auto& t : tasks) n += t->needs_thread && t->state != IDLE;
        return n;
    }
};
namespace {
World::Impl* W = nullptr;
thread_local bool scheduler_thread = false;   // other threads (e.g. of a library) are never scheduled
}
void World::Impl::entry(unsigned lo, unsigned hi) {
    Task* t = reinterpret_cast<Task*>(static_cast<std::uintptr_t>(lo) | (static_cast<std::uintptr_t>(hi) << 32));
    try {
        t->run();
    } catch (const mc::Pruned&) {
        t->pruned = true;
    } catch (const mc::Failed&) {
        t->failed = true;
    } catch (const std::exception& e) {
        if (W->error.empty()) W->error = t->name + ": " + e.what();
    } catch (...) {
        t->failed = true;   // foreign control exception of the explorer
        W->key = "foreign";
    }
    t->state = IDLE;
    ++W->progress;
    W->switch_to_main();
}

World::World(int delay_budget, int threads) : impl(new Impl) {
    impl->budget = delay_budget;
    impl->threads = threads;
    W = impl.get();
    scheduler_thread = true;
    rosstub::on_sleep = [](double d) { rosstub::now_ns += static_cast<std::uint64_t>(d * 1e9); if (scheduler_thread && W && W->current) ::usleep(1); };
}
World::~World() {
    // Unfinished coroutines only remain after a violation or on an abandoned path: their stacks are dropped.
    for (auto& t : impl->tasks) if (t->stack) munmap(t->stack, stack_size);
    W = nullptr;
}
void World::add(const std::string& name, std::function<bool()> ready, std::function<void()> run, std::function<double()> stamp, bool needs_thread, int priority) {
    auto t = std::make_unique<Task>();
    t->name = name;
    t->id = static_cast<int>(impl->tasks.size());
    t->ready = std::move(ready);
    t->run = std::move(run);
    t->stamp = std::move(stamp);
    t->needs_thread = needs_thread;
    t->priority = priority;
    impl->tasks.push_back(std::move(t));
}
void World::watch(const void* p, std::size_t n) { impl->ranges.emplace_back(static_cast<const char*>(p), n); }
void World::watch_program() { impl->program = true; }
std::size_t World::points() const { return impl->points; }
void World::prioritise(const std::string& name, int priority) {
    for (auto& t : impl->tasks) if (t->name == name) t->priority = priority;
}
bool World::idle(const std::string& name) const {
    for (auto& t : impl->tasks) if (t->name == name && t->state != IDLE) return false;
    return true;
}
std::string World::error() const { return impl->error; }
std::vector<std::string> World::active() const {
    std::vector<std::string> v;
    for (auto& t : impl->tasks) {
        if (t->state == IDLE) continue;
        v.push_back(t->name + (t->state == ON_MUTEX ? " (blocked on a mutex)" : t->state == ON_COND ? " (waiting on a condition)" : t->state == ASLEEP ? " (polling)" : ""));
    }
    return v;
}

std::vector<std::string> World::run() {
    Impl& s = *impl;
    int idle_rounds = 0;
    for (;;) {
        // Candidates in default order
        std::vector<Task*> enabled, fresh;
        // Free threads take callbacks in the order in which their messages arrived
        const int free_threads = s.threads - s.active_threads();
        std::vector<double> waiting;
        for (auto& t : s.tasks) if (t->state == IDLE && t->needs_thread && t->ready()) waiting.push_back(t->stamp());
        std::sort(waiting.begin(), waiting.end());
        const double last_start = free_threads <= 0 ? -1 : free_threads >= static_cast<int>(waiting.size()) ? INFINITY : waiting[free_threads - 1];
        for (auto& t : s.tasks) {
            bool on = false;
            switch (t->state) {
                case IDLE: on = t->ready() && (!t->needs_thread || t->stamp() <= last_start); break;
                case RUNNABLE: on = true; break;
                case ON_MUTEX: on = s.available(t->waits_on, t.get(), t->shared); break;
                case ON_COND: on = false; break;
                case ASLEEP: on = t->slept_at < s.progress; break;
            }
            if (on && !t->was_ready) fresh.push_back(t.get());
            t->was_ready = on;
            if (on) enabled.push_back(t.get());
        }
        // Tasks that became ready together are ordered by the age of what they wait for
        std::stable_sort(fresh.begin(), fresh.end(), [](Task* a, Task* b) { return (a->state == IDLE ? a->stamp() : -1) < (b->state == IDLE ? b->stamp() : -1); });
        for (Task* t : fresh) t->since = s.order++;
        for (auto it = enabled.begin(); it != enabled.end(); ++it) {
            if ((*it)->priority != optional) continue;
            Task* const t = *it;
            if (enabled.size() > 1 && mc::flip(t->name.c_str())) {
                t->priority = immediate;
                enabled.assign(1, t);
            }
            else enabled.erase(it);
            break;
        }
        if (enabled.empty()) {
            // Time passes: timed waits expire and sleepers poll again. Two rounds without progress: nothing will ever happen.
            bool any = false;
            if (idle_rounds < 2) {
                for (auto& t : s.tasks) {
                    if (t->state == ASLEEP) { t->slept_at = 0; any = true; }
                    if (t->state == ON_COND && t->timed) { t->state = RUNNABLE; t->timed_out = true; any = true; }
                }
                ++idle_rounds;
            }
            if (any) continue;
            return active();
        }
        std::stable_sort(enabled.begin(), enabled.end(), [&](Task* a, Task* b) {
            if ((a->priority == immediate) != (b->priority == immediate)) return a->priority == immediate;
            if ((a == s.last && a->state == RUNNABLE) != (b == s.last && b->state == RUNNABLE)) return a == s.last && a->state == RUNNABLE;
            // callbacks already being executed before new ones; among those, in order of readiness
            if ((a->state != IDLE) != (b->state != IDLE)) return a->state != IDLE;
            if (a->state == IDLE && a->priority != b->priority) return a->priority < b->priority;
            return a->since < b->since;
        });
        int k = 0;
        const int options = enabled[0]->priority == immediate ? 1 : std::min<int>(enabled.size(), s.budget + 1);
        ++s.points;
        if (options > 1) {
            k = mc::choose(options, "schedule");
            s.budget -= k;
            for (int i = 0; i < k; ++i) enabled[i]->since = s.order++;   // delayed behind everything ready now
        }
        Task* t = enabled[k];
        if (mc::replaying()) { mc::note((t->state == IDLE ? "start " : "run ") + t->name); if (getenv("SCHED_TRACE")) fprintf(stderr, "%s %s\n", t->state == IDLE ? "start" : "run", t->name.c_str()); }
        const std::uint64_t before = s.progress;
        if (t->state == IDLE) {
            s.start(t);
            ++s.progress;
        }
        t->state = RUNNABLE;
        t->was_ready = false;
        s.last = t;
        s.resume(t);
        if (s.progress != before) idle_rounds = 0;
        if (t->pruned) throw mc::Pruned{};
        if (t->failed) { if (s.key == "foreign") mc::prune(); throw mc::Failed{}; }
        if (!s.key.empty()) mc::fail(s.key, s.detail.empty() ? t->name : s.detail);
        if (!s.error.empty()) return active();
    }
}

void (*on_mutex)(const void*, bool) = nullptr;
int current_task() { return scheduler_thread && W && W->current ? W->current->id : -1; }
std::string task_name(int task) { return W && task >= 0 && task < static_cast<int>(W->tasks.size()) ? W->tasks[task]->name : "?"; }
bool on_stack(const void* p) { const char* s = static_cast<const char*>(W->current->stack); return p >= s && p < s + stack_size; }
void report(const char* key, const std::string& what) {
    if (!W || !W->key.empty()) return;
    W->key = key;
    W->detail = what;
}

void point(const char*) {
    if (!scheduler_thread || !W || !W->current) return;
    ++W->progress;
    W->current->state = RUNNABLE;
    W->switch_to_main();
}

namespace {
// Called from interposed functions: must not throw.
void fatal(const char* key) {
    W->key = key;
    for (;;) W->switch_to_main();
}
void acquire(const void* m, const void* caller, bool shared = false) {
    Task* t = W->current;
    if (W->watched(m, caller)) {
        t->state = RUNNABLE;
        W->switch_to_main();
    }
    for (;;) {
        if (W->available(m, t, shared)) return;
        t->state = ON_MUTEX;
        t->shared = shared;
        t->waits_on = m;
        W->switch_to_main();
    }
}
}
}

// ---- interposed primitives ----------------------------------------------------------------------------------------------
using sched::W;
#define REAL(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
extern "C" {
static int real_lock(pthread_mutex_t* m) noexcept { static auto f = REAL(pthread_mutex_lock); return f(m); }
static int real_unlock(pthread_mutex_t* m) noexcept { static auto f = REAL(pthread_mutex_unlock); return f(m); }
static int real_trylock(pthread_mutex_t* m) noexcept { static auto f = REAL(pthread_mutex_trylock); return f(m); }
static bool in_task() { return sched::scheduler_thread && W && W->current; }

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!in_task()) return real_lock(m);
    auto it = W->locks.find(m);
    if (it != W->locks.end() && it->second.owner == W->current && (m->__data.__kind & 3) == PTHREAD_MUTEX_NORMAL) sched::fatal("self_deadlock");
    sched::acquire(m, __builtin_return_address(0));
    const int r = real_lock(m);
    if (r == 0) { auto& l = W->locks[m]; l.owner = W->current; ++l.count; if (sched::on_mutex) sched::on_mutex(m, true); }
    return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!in_task()) return real_trylock(m);
    if (W->watched(m, __builtin_return_address(0))) { W->current->state = sched::RUNNABLE; W->switch_to_main(); }
    auto it = W->locks.find(m);
    if (it != W->locks.end() && it->second.owner != W->current) return EBUSY;
    const int r = real_trylock(m);
    if (r == 0) { auto& l = W->locks[m]; l.owner = W->current; ++l.count; if (sched::on_mutex) sched::on_mutex(m, true); }
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (sched::scheduler_thread && W) {
        if (sched::on_mutex) sched::on_mutex(m, false);
        auto it = W->locks.find(m);
        if (it != W->locks.end() && --it->second.count == 0) W->locks.erase(it);
    }
    return real_unlock(m);
}
// Timed waits for a lock: time passes only when nothing else can happen, so they wait like the others.
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept {
    if (in_task()) return pthread_mutex_lock(m);
    static auto f = REAL(pthread_mutex_timedlock);
    return f(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* ts) noexcept {
    if (in_task()) return pthread_mutex_lock(m);
    static auto f = REAL(pthread_mutex_clocklock);
    return f(m, k, ts);
}
// Shared ownership. For happens-before, the lock itself stands for exclusive releases and the byte after it for shared ones.
static const void* shared_releases(const void* l) { return static_cast<const char*>(l) + 1; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
    static auto f = REAL(pthread_rwlock_rdlock);
    if (!in_task()) return f(l);
    auto it = W->locks.find(l);
    if (it != W->locks.end() && it->second.owner == W->current) sched::fatal("self_deadlock");
    sched::acquire(l, __builtin_return_address(0), true);
    ++W->readers[l][W->current];
    if (sched::on_mutex) sched::on_mutex(l, true);
    return f(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept {
    static auto f = REAL(pthread_rwlock_wrlock);
    if (!in_task()) return f(l);
    auto it = W->locks.find(l);
    auto r = W->readers.find(l);
    if ((it != W->locks.end() && it->second.owner == W->current) || (r != W->readers.end() && r->second.count(W->current))) sched::fatal("self_deadlock");
    sched::acquire(l, __builtin_return_address(0));
    auto& o = W->locks[l]; o.owner = W->current; o.count = 1;
    if (sched::on_mutex) { sched::on_mutex(l, true); sched::on_mutex(shared_releases(l), true); }
    return f(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept {
    static auto f = REAL(pthread_rwlock_tryrdlock);
    if (!in_task()) return f(l);
    if (W->watched(l, __builtin_return_address(0))) { W->current->state = sched::RUNNABLE; W->switch_to_main(); }
    auto it = W->locks.find(l);
    if (it != W->locks.end()) return EBUSY;
    ++W->readers[l][W->current];
    if (sched::on_mutex) sched::on_mutex(l, true);
    return f(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept {
    static auto f = REAL(pthread_rwlock_trywrlock);
    if (!in_task()) return f(l);
    if (W->watched(l, __builtin_return_address(0))) { W->current->state = sched::RUNNABLE; W->switch_to_main(); }
    auto r = W->readers.find(l);
    if (W->locks.count(l) || (r != W->readers.end() && !r->second.empty())) return EBUSY;
    auto& o = W->locks[l]; o.owner = W->current; o.count = 1;
    if (sched::on_mutex) { sched::on_mutex(l, true); sched::on_mutex(shared_releases(l), true); }
    return f(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
    static auto f = REAL(pthread_rwlock_unlock);
    if (sched::scheduler_thread && W) {
        auto it = W->locks.find(l);
        auto r = W->readers.find(l);
        if (it != W->locks.end()) {
            if (sched::on_mutex) sched::on_mutex(l, false);
            W->locks.erase(it);
        } else if (r != W->readers.end() && W->current) {
            if (sched::on_mutex) sched::on_mutex(shared_releases(l), false);
            auto o = r->second.find(W->current);
            if (o != r->second.end() && --o->second == 0) r->second.erase(o);
            if (r->second.empty()) W->readers.erase(r);
        }
    }
    return f(l);
}
static void wake(const void* c, bool all) {
    for (auto& t : W->tasks) {
        if (t->state == sched::ON_COND && t->waits_on == c) {
            t->state = sched::RUNNABLE;
            ++W->progress;
            if (!all) return;
        }
    }
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (in_task()) wake(c, false);
    static auto f = REAL(pthread_cond_signal);
    return f(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (in_task()) wake(c, true);
    static auto f = REAL(pthread_cond_broadcast);
    return f(c);
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    pthread_mutex_unlock(m);
    sched::Task* t = W->current;
    t->state = sched::ON_COND;
    t->waits_on = c;
    t->timed = timed;
    t->timed_out = false;
    W->switch_to_main();
    pthread_mutex_lock(m);
    return t->timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (in_task()) return cond_wait(c, m, false);
    static auto f = REAL(pthread_cond_wait);
    return f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (in_task()) return cond_wait(c, m, true);
    static auto f = REAL(pthread_cond_timedwait);
    return f(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (in_task()) return cond_wait(c, m, true);
    static auto f = REAL(pthread_cond_clockwait);
    return f(c, m, k, ts);
}
static void sleep_here() {
    sched::Task* t = W->current;
    t->state = sched::ASLEEP;
    t->slept_at = W->progress;
    W->switch_to_main();
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (in_task()) { sleep_here(); return 0; }
    static auto f = REAL(nanosleep);
    return f(a, b);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b) {
    if (in_task()) { sleep_here(); return 0; }
    static auto f = REAL(clock_nanosleep);
    return f(c, flags, a, b);
}
int usleep(useconds_t u) {
    if (in_task()) { sleep_here(); return 0; }
    static auto f = REAL(usleep);
    return f(u);
}
int sched_yield() noexcept {
    if (in_task()) { sleep_here(); return 0; }
    static auto f = REAL(sched_yield);
    return f();
}
}
