// Controlled scheduler: real threads, of which exactly one runs at a time; control changes hands only at scheduling
// points (atomic operations of the code under test, accesses to component values, explicit points of the harness).
// Implemented in sched.cc, which is always compiled WITHOUT sanitizers and passes control with raw futex calls, so the
// scheduler itself creates no happens-before edge that ThreadSanitizer could see.
#pragma once
#include <cstdint>

namespace sched {
    enum Mode { MODE_LIST = 0, MODE_RANDOM = 1, MODE_PCT = 2 };
    struct Config {
        int mode = MODE_LIST;
        uint64_t seed = 0;      // MODE_RANDOM, MODE_PCT
        uint32_t switchNum = 1; // MODE_RANDOM: probability of a switch at each point = switchNum/256
        int npreempt = 0;       // MODE_LIST: number of preemptions; MODE_PCT: number of priority change points
        uint32_t gap[16];       // MODE_LIST: points until the next preemption; MODE_PCT: step numbers
        uint32_t target[16];    // which of the other runnable threads gets control
        uint32_t spuriousNum = 0; // probability (of 256) that compare_exchange_weak fails spuriously
        // when for the patienceAt-th time all that can run are spinning threads: how many more rounds they go on
        uint32_t patience = 0, patienceAt = 0;
        uint64_t fairAfter = 20000;   // steps after which the schedule becomes fair random
        uint64_t giveUpAfter = 400000; // steps after which the run is considered stuck
    };
    enum Result { DONE = 0, DEADLOCK = 1, STUCK = 2 };

    typedef void (*Fn)(void *);
    void reset(const Config &cfg);
    // Adds a thread to the next run. Returns its id.
    int spawn(Fn fn, void *arg);
    // Runs all threads to completion. On DEADLOCK or STUCK the handler is called (it must not return).
    void run(void (*onStuck)(Result));

    bool active(); // is the calling thread scheduled?
    int self();
    uint64_t steps();
    uint64_t switches();
    uint64_t blocks(); // how many times a thread blocked in an atomic wait or spin

    void point();                   // may pass control to another thread
    void wrote();                   // an atomic variable or harness flag changed
    bool spurious();                // inject a spurious failure?
    // One round of atomic wait: blocks until notified about addr
    void blockOn(const void *addr);
    void notify(const void *addr, bool all);
    void yieldNow();
    // Harness-level gate: blocks until *gate != 0 (set by openGate). Not visible to ThreadSanitizer.
    void passGate(volatile int *gate);
    void openGate(volatile int *gate);
    // Blocks until no other thread can run.
    void waitQuiescent();
    // State of a thread, for quiescence checks
    enum ThreadState { T_RUNNABLE = 0, T_BLOCKED = 1, T_YIELDING = 2, T_GATE = 3, T_QUIET = 4, T_DONE = 5 };
    ThreadState stateOf(int tid);
    void describe(char *buf, unsigned n);
} // namespace sched
