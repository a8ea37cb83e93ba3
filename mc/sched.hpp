// Controlled scheduler: stateless exhaustive exploration of the real (threaded) code.
#pragma once
#include <cstdint>
namespace mc {
    struct Config {
        int bound=2;             // max. number of deviations (preemptions, early timeouts, spurious wakeups) per execution
        bool spurious=true;      // condition variables may wake spuriously (costs one deviation)
        bool unlock_points=false;// also consider preemption right after each unlock
        bool atomic_points=true; // (race build) preemption before atomic operations
        bool early_timeouts=true;// timed waits may expire although other threads could still run (costs one deviation)
        bool races=true;         // (race build) report data races
        bool single=false;       // virtual time only: the one schedule without any deviation
        int max_steps=20000;     // per-execution step bound (exceeding it is reported as livelock)
    };
    struct Stats { uint64_t executions=0, points=0, nodes=0, maxdepth=0, threads=0; bool complete=true; };
    typedef void (*body_t)(void*);
    // Runs 'body' once per schedule, for every schedule within the bound. 'between' (if given) runs, unscheduled, after each execution.
    void explore(const char* name, const Config& cfg, body_t body, void* arg, Stats& st);
    void point(const char* what="user");  // explicit scheduling point
    int choose(int n);                     // harness-level nondeterministic choice, free
    bool active();                         // is the calling thread being scheduled?
    void fail(const char* key, const char* fmt, ...); // reports a violation for the current schedule & ends the process
    uint64_t vnow_ns();                    // virtual clock
}
