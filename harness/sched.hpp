// Deterministic scheduler for node callbacks. Every callback of a node runs as a coroutine; the explorer decides at every
// scheduling point (mutex acquisition inside a watched object, condition variable, sleep, publication, start and end of a
// callback) which task goes on. Schedules are enumerated by delay bounding: the default choice (keep running; else the task that
// became ready first) is free, skipping k candidates costs k of the execution's delay budget.
// pthread mutexes, condition variables and sleeps are interposed, so refactorings between these primitives stay schedulable.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace sched {

const int immediate = -1000;    // priority of a task that runs as soon as it is ready
const int optional = -2000;     // priority of a task that may or may not run at any point where it is ready (both are explored)

class World {
public:
    World(int delay_budget, int threads);
    ~World();
    // A source of activations, at most one active at a time: when idle and ready() it may be started. stamp() orders ready tasks.
    void add(const std::string& name, std::function<bool()> ready, std::function<void()> run, std::function<double()> stamp, bool needs_thread = true, int priority = 0);
    // Locks of mutexes inside this memory are scheduling points.
    void watch(const void* p, std::size_t n);
    // Locks taken by the program itself (not by the libraries it uses) are scheduling points, wherever the mutex is.
    void watch_program();
    // Runs until nothing can go on. Returns the names of tasks that are asleep/blocked for good.
    std::vector<std::string> run();
    // A task that was never started or is waiting: names of active (unfinished) tasks.
    std::vector<std::string> active() const;
    std::size_t points() const;
    void prioritise(const std::string& name, int priority);
    bool idle(const std::string& name) const;
    // First escaped exception of a callback ("" when none).
    std::string error() const;

    struct Impl;
    std::unique_ptr<Impl> impl;
};

// For monitors: called after a task has acquired (true) and before it releases (false) a mutex.
extern void (*on_mutex)(const void* mutex, bool lock);
int current_task();                          // number of the running task, -1 outside tasks
std::string task_name(int task);
bool on_stack(const void* p);                // of the running task
void report(const char* key, const std::string& what);   // the execution is a violation (stops at the next switch)

// Explicit scheduling point (used by the bus on publications).
void point(const char* what);

}
