// Property-based-testing engine: choice-sequence generator, case driver, failure reporting.
// A case is a pure function of (code under test, sequence of choices). Choices are drawn from a seeded generator, or
// replayed from a file / from a fuzzer's bytes. Every drawn choice is recorded in a shared-memory status page, so a
// case that crashes the process can still be replayed and shrunk.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <string>

namespace pbt {
    class Src {
    public:
        // Uniform in [0, n). 0 is the simplest choice (what shrinking aims at, what an exhausted replay yields).
        uint64_t below(uint64_t n);
        uint64_t range(uint64_t lo, uint64_t hi) {
            return lo + below(hi - lo + 1);
        }
        // true with probability num/den; choice 0 means false
        bool chance(uint32_t num, uint32_t den) {
            return below(den) >= den - num;
        }
        // index with probability weight[i]/sum; 0 is the simplest
        size_t weighted(std::initializer_list<uint32_t> weights);
        // true: another step follows. Also marks the boundary for the shrinker. Mean number of steps about `mean`.
        bool more(uint32_t mean);
        uint64_t bits64() {
            return below(0);
        }
        // Marks the start of a step (the shrinker tries to delete whole steps).
        void mark();
        bool exhausted() const;
        uint64_t rngNext();
        uint64_t state = 0;
        bool replaying = false;
        const uint8_t *data = nullptr;
        size_t len = 0, pos = 0;
        // Upper bound on the remaining steps of this case
        uint32_t stepsLeft = 0;
    };

    // Reports a violation and ends the process (exit code 77).
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
    // The machinery itself is broken or could not decide (exit code 78): never a violation.
    [[noreturn]] void broken(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

    // Counts, once per case, how many cases had this label.
    void label(const char *name);
    // Adds to a plain counter.
    void count(const char *name, uint64_t n = 1);
    // Marks the current case as non-trivial by the check's rule.
    void nontrivial();
    bool isNontrivial();

    extern bool logging;
    void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

    // Parameter of the run (key=value on the command line)
    const char *param(const char *key, const char *def);
    long paramInt(const char *key, long def);

    // Digest of everything observed in the case (differential checks between builds)
    void digest(uint64_t v);
    inline void digestStr(const char *s) {
        for (; *s; s++)
            digest((unsigned char)*s);
    }
} // namespace pbt

#define PLOG(...)                                                                                                      \
    do {                                                                                                               \
        if (pbt::logging) pbt::logf(__VA_ARGS__);                                                                      \
    } while (0)

// Provided by each harness
void pbt_case(pbt::Src &src);
// Called once before the first case
void pbt_init();
