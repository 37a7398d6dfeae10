#include "sched.hh"

#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

// Plain C style on purpose: no templates whose instrumented twin could be chosen by the linker.
namespace sched {
    static const int MAXT = 512;
    struct Thread {
        int futex;
        ThreadState state;
        const void *addr;
        volatile int *gate;
        uint64_t yieldStamp; // value of writeCount at the last yield
        bool yielded;
        uint64_t spinStamp, spinCount; // points passed since the last write by anybody
        int prio;
        Fn fn;
        void *arg;
        pthread_t handle;
    };
    static Thread threads[MAXT];
    static int nthreads = 0;
    static int mainFutex = 0;
    static Config cfg;
    static uint64_t rng;
    static uint64_t nsteps, nswitches, nblocks, writeCount, ownRun;
    static int nextPre;
    static uint64_t untilPre;
    static int yieldRounds;
    static uint64_t quietNo;
    static bool inPatience;
    static void (*stuckHandler)(Result);
    static __thread int tid = -1;

    static uint64_t rnd() {
        rng += 0x9E3779B97F4A7C15ull;
        uint64_t z = rng;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    static void futexWait(int *f) {
        while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) {
            syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        }
        __atomic_store_n(f, 0, __ATOMIC_RELAXED);
    }
    static void futexWake(int *f) {
        __atomic_store_n(f, 1, __ATOMIC_RELEASE);
        syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }

    void reset(const Config &c) {
        cfg = c;
        nthreads = 0;
        rng = c.seed * 0xD1342543DE82EF95ull + 12345;
        nsteps = nswitches = nblocks = writeCount = ownRun = 0;
        nextPre = 0;
        untilPre = c.npreempt > 0 ? c.gap[0] : 0;
        yieldRounds = 0;
        quietNo = 0;
        inPatience = false;
    }

    int spawn(Fn fn, void *arg) {
        if (nthreads >= MAXT) abort();
        Thread &t = threads[nthreads];
        memset(&t, 0, sizeof(t));
        t.fn = fn;
        t.arg = arg;
        t.state = T_RUNNABLE;
        t.prio = 1000 + (int)(rnd() % 1000);
        return nthreads++;
    }

    static bool runnable(int i) {
        return threads[i].state == T_RUNNABLE;
    }

    // pick a runnable thread other than `except` (or -1)
    static int pick(int except, uint64_t choice) {
        int cand[MAXT], n = 0;
        for (int i = 0; i < nthreads; i++)
            if (i != except && runnable(i)) cand[n++] = i;
        if (n == 0) return -1;
        if (cfg.mode == MODE_PCT && nsteps <= cfg.fairAfter) {
            int best = cand[0];
            for (int k = 1; k < n; k++)
                if (threads[cand[k]].prio > threads[best].prio) best = cand[k];
            return best;
        }
        return cand[choice % n];
    }

    static void switchTo(int next) {
        int me = tid;
        if (next == me) return;
        nswitches++;
        ownRun = 0;
        futexWake(&threads[next].futex);
        if (threads[me].state != T_DONE) futexWait(&threads[me].futex);
    }

    static int releaseOne() {
        // nobody is runnable: give spinning threads some more rounds, then it is the turn of the quiescence waiters
        unsigned limit = 3 + (cfg.patience && quietNo == cfg.patienceAt ? cfg.patience : 0);
        for (int i = 0; i < nthreads; i++) {
            if (threads[i].state == T_YIELDING && yieldRounds < (int)limit) {
                yieldRounds++;
                inPatience = yieldRounds > 3;
                for (int k = 0; k < nthreads; k++)
                    if (threads[k].state == T_YIELDING) threads[k].state = T_RUNNABLE;
                return i;
            }
            if (threads[i].state == T_YIELDING) {
                quietNo++;
                yieldRounds = 0;
                inPatience = false;
                break;
            }
        }
        for (int i = 0; i < nthreads; i++) {
            if (threads[i].state == T_QUIET) {
                threads[i].state = T_RUNNABLE;
                return i;
            }
        }
        return -1;
    }

    // The calling thread cannot continue: pass control on.
    static void leave() {
        int next = pick(tid, cfg.mode == MODE_LIST ? 0 : rnd());
        if (next < 0) {
            if (threads[tid].state == T_RUNNABLE) return;
            next = releaseOne();
        }
        if (next < 0) {
            bool allDone = true;
            for (int i = 0; i < nthreads; i++)
                if (threads[i].state != T_DONE) allDone = false;
            if (allDone) {
                futexWake(&mainFutex);
                return;
            }
            stuckHandler(DEADLOCK);
            abort();
        }
        if (next == tid) return;
        switchTo(next);
    }

    static void leave();
    void point() {
        if (tid < 0) return;
        if (!inPatience) nsteps++;
        ownRun++;
        if (threads[tid].spinStamp != writeCount) {
            threads[tid].spinStamp = writeCount;
            threads[tid].spinCount = 0;
        } else if (++threads[tid].spinCount > 5000) {
            // spinning without ever yielding: until something is written it can only go round
            threads[tid].spinCount = 0;
            nblocks++;
            threads[tid].state = T_YIELDING;
            leave();
        }
        if (nsteps > cfg.giveUpAfter) {
            stuckHandler(STUCK);
            abort();
        }
        if (nsteps > cfg.fairAfter) {
            if ((rnd() & 3) == 0) {
                int next = pick(tid, rnd());
                if (next >= 0) switchTo(next);
            }
            return;
        }
        if (cfg.mode == MODE_LIST) {
            if (ownRun > 3000) { // spinning without blocking: let the others run
                int next = pick(tid, 0);
                if (next >= 0) switchTo(next);
                return;
            }
            if (nextPre < cfg.npreempt) {
                if (untilPre == 0) {
                    int next = pick(tid, cfg.target[nextPre]);
                    nextPre++;
                    if (nextPre < cfg.npreempt) untilPre = cfg.gap[nextPre];
                    if (next >= 0) switchTo(next);
                } else {
                    untilPre--;
                }
            }
        } else if (cfg.mode == MODE_RANDOM) {
            if ((rnd() & 255) < cfg.switchNum) {
                int next = pick(tid, rnd());
                if (next >= 0) switchTo(next);
            }
        } else {
            for (int k = 0; k < cfg.npreempt; k++) {
                if (cfg.gap[k] == nsteps) threads[tid].prio = cfg.npreempt - k;
            }
            if (ownRun > 3000) threads[tid].prio = -(int)(nsteps & 0xffffff);
            int next = pick(tid, 0);
            if (next >= 0 && threads[next].prio > threads[tid].prio) switchTo(next);
        }
    }

    void wrote() {
        writeCount++;
        yieldRounds = 0;
        inPatience = false;
        for (int i = 0; i < nthreads; i++)
            if (threads[i].state == T_YIELDING) threads[i].state = T_RUNNABLE;
    }

    bool spurious() {
        if (tid < 0 || cfg.spuriousNum == 0 || nsteps > cfg.fairAfter) return false;
        return (rnd() & 255) < cfg.spuriousNum;
    }

    void blockOn(const void *addr) {
        if (tid < 0) return;
        nblocks++;
        threads[tid].addr = addr;
        threads[tid].state = T_BLOCKED;
        leave();
    }

    void notify(const void *addr, bool all) {
        if (tid < 0) return;
        int cand[MAXT], n = 0;
        for (int i = 0; i < nthreads; i++)
            if (threads[i].state == T_BLOCKED && threads[i].addr == addr) cand[n++] = i;
        if (n == 0) return;
        if (!all) { // any of them
            threads[cand[n == 1 ? 0 : rnd() % n]].state = T_RUNNABLE;
            return;
        }
        for (int k = 0; k < n; k++)
            threads[cand[k]].state = T_RUNNABLE;
    }

    void yieldNow() {
        if (tid < 0) {
            return;
        }
        Thread &t = threads[tid];
        if (!inPatience) nsteps++;
        if (nsteps > cfg.giveUpAfter) {
            stuckHandler(STUCK);
            abort();
        }
        if (t.yielded && t.yieldStamp == writeCount) {
            nblocks++;
            t.state = T_YIELDING;
        }
        t.yielded = true;
        t.yieldStamp = writeCount;
        if (cfg.mode == MODE_PCT) t.prio = -(int)(nsteps & 0xffffff);
        leave();
    }

    void passGate(volatile int *gate) {
        if (tid < 0) return;
        while (*gate == 0) {
            threads[tid].gate = gate;
            threads[tid].state = T_GATE;
            leave();
        }
    }
    void openGate(volatile int *gate) {
        *gate = 1;
        for (int i = 0; i < nthreads; i++) {
            if (threads[i].state == T_GATE && threads[i].gate == gate) threads[i].state = T_RUNNABLE;
        }
    }

    void waitQuiescent() {
        if (tid < 0) return;
        threads[tid].state = T_QUIET;
        leave();
        threads[tid].state = T_RUNNABLE;
    }

    static void *entry(void *p) {
        int me = (int)(intptr_t)p;
        tid = me;
        futexWait(&threads[me].futex);
        threads[me].fn(threads[me].arg);
        threads[me].state = T_DONE;
        wrote();
        leave();
        return nullptr;
    }

    void run(void (*onStuck)(Result)) {
        stuckHandler = onStuck;
        if (nthreads == 0) return;
        mainFutex = 0;
        for (int i = 0; i < nthreads; i++) {
            if (pthread_create(&threads[i].handle, nullptr, entry, (void *)(intptr_t)i) != 0) {
                perror("pthread_create");
                _exit(78);
            }
        }
        int first = cfg.mode == MODE_LIST ? 0 : pick(-1, rnd());
        futexWake(&threads[first].futex);
        futexWait(&mainFutex);
        for (int i = 0; i < nthreads; i++)
            pthread_join(threads[i].handle, nullptr);
    }

    bool active() {
        return tid >= 0;
    }
    int self() {
        return tid;
    }
    uint64_t steps() {
        return nsteps;
    }
    uint64_t switches() {
        return nswitches;
    }
    uint64_t blocks() {
        return nblocks;
    }
    ThreadState stateOf(int t) {
        return threads[t].state;
    }
    void describe(char *buf, unsigned n) {
        static const char *names[] = {"runnable", "waiting", "spinning", "parked", "observing", "done"};
        unsigned k = 0;
        buf[0] = 0;
        for (int i = 0; i < nthreads && k + 40 < n; i++) {
            if (i > 24) break;
            k += snprintf(buf + k, n - k, " T%d:%s", i, names[threads[i].state]);
        }
    }
} // namespace sched
