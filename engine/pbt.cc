#include "pbt.hh"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace pbt {
    static constexpr size_t MAX_DATA = 1 << 20;
    static constexpr size_t MAX_MARKS = 1 << 16;
    struct Status {
        uint64_t magic;
        uint64_t caseIndex;
        uint64_t state; // 0 idle, 1 running, 2 failed, 3 broken
        uint64_t nbytes;
        uint64_t nmarks;
        char msg[8192];
        uint32_t marks[MAX_MARKS];
        uint8_t data[MAX_DATA];
    };
    static Status localStatus;
    static Status *st = &localStatus;
    static uint64_t evaluations = 0, nontrivialCount = 0;
    static bool curNontrivial = false;
    static uint64_t curDigest = 0;
    static bool fuzzing = false;
    bool logging = false;
    static std::string logText;

    struct LabelInfo {
        uint64_t count = 0, last = UINT64_MAX;
    };
    struct CStrLess {
        bool operator()(const char *a, const char *b) const {
            return strcmp(a, b) < 0;
        }
    };
    static std::map<const char *, LabelInfo, CStrLess> labels;
    static std::map<const char *, uint64_t, CStrLess> counters;
    static std::map<std::string, std::string> params;

    uint64_t Src::rngNext() {
        state += 0x9E3779B97F4A7C15ull;
        uint64_t z = state;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    uint64_t Src::below(uint64_t n) {
        if (n == 1) return 0;
        size_t width = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : 8;
        uint64_t v = 0;
        if (replaying) {
            for (size_t i = 0; i < width; i++) {
                uint8_t b = pos < len ? data[pos] : 0;
                pos++;
                v |= (uint64_t)b << (8 * i);
            }
            if (n) v %= n;
        } else {
            if (st->nbytes + width > MAX_DATA) {
                v = 0;
            } else {
                uint64_t r = rngNext();
                v = n ? (uint64_t)(((unsigned __int128)r * n) >> 64) : r;
            }
        }
        if (st->nbytes + width <= MAX_DATA) {
            for (size_t i = 0; i < width; i++)
                st->data[st->nbytes + i] = (uint8_t)(v >> (8 * i));
            st->nbytes += width;
        }
        return v;
    }

    size_t Src::weighted(std::initializer_list<uint32_t> weights) {
        uint64_t total = 0;
        for (auto w : weights)
            total += w;
        uint64_t r = below(total);
        size_t i = 0;
        for (auto w : weights) {
            if (r < w) return i;
            r -= w;
            i++;
        }
        return 0;
    }

    void Src::mark() {
        if (st->nmarks < MAX_MARKS) st->marks[st->nmarks++] = (uint32_t)st->nbytes;
    }

    bool Src::exhausted() const {
        return replaying && pos >= len;
    }

    bool Src::more(uint32_t mean) {
        mark();
        if (stepsLeft == 0) return false;
        stepsLeft--;
        // choice 0 ends the sequence
        return below(mean + 1) != 0;
    }

    static void vsetMsg(const char *fmt, va_list ap) {
        vsnprintf(st->msg, sizeof(st->msg), fmt, ap);
    }

    struct CaseEnd {};
    static void runCase(Src &src) {
        try {
            pbt_case(src);
        } catch (const CaseEnd &) {
            logf("differs from the model: %s", st->msg);
            label("the model was left (differential run)");
            digest(0xFA11);
        }
    }

    void fail(const char *fmt, ...) {
        va_list ap;
        va_start(ap, fmt);
        vsetMsg(fmt, ap);
        va_end(ap);
        // Differential runs: what matters is whether every build configuration does the same
        if (paramInt("diff", 0)) throw CaseEnd();
        st->state = 2;
        if (logging) {
            fputs(logText.c_str(), stdout);
        }
        fprintf(stdout, "FAIL: %s\n", st->msg);
        fflush(stdout);
        if (fuzzing) abort();
        _exit(77);
    }

    void broken(const char *fmt, ...) {
        va_list ap;
        va_start(ap, fmt);
        vsetMsg(fmt, ap);
        va_end(ap);
        st->state = 3;
        if (logging) fputs(logText.c_str(), stdout);
        fprintf(stdout, "BROKEN: %s\n", st->msg);
        fflush(stdout);
        _exit(78);
    }

    void label(const char *name) {
        auto &l = labels[name];
        if (l.last != evaluations) {
            l.last = evaluations;
            l.count++;
        }
    }
    void count(const char *name, uint64_t n) {
        counters[name] += n;
    }
    void nontrivial() {
        curNontrivial = true;
    }
    bool isNontrivial() {
        return curNontrivial;
    }
    void digest(uint64_t v) {
        if (logging && paramInt("logdigest", 0)) logf("      observed %llx", (unsigned long long)v);
        curDigest = (curDigest ^ v) * 0x100000001B3ull;
        curDigest ^= curDigest >> 29;
    }

    void logf(const char *fmt, ...) {
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        logText += buf;
        logText += "\n";
    }

    const char *param(const char *key, const char *def) {
        auto it = params.find(key);
        return it == params.end() ? def : it->second.c_str();
    }
    long paramInt(const char *key, long def) {
        auto it = params.find(key);
        return it == params.end() ? def : atol(it->second.c_str());
    }

    static uint64_t fnv(const uint8_t *p, size_t n) {
        uint64_t h = 0xcbf29ce484222325ull;
        for (size_t i = 0; i < n; i++)
            h = (h ^ p[i]) * 0x100000001B3ull;
        return h;
    }

    static void beginCase(Src &src) {
        st->nbytes = 0;
        st->nmarks = 0;
        st->msg[0] = 0;
        st->state = 1;
        curNontrivial = false;
        curDigest = 0xcbf29ce484222325ull;
        logText.clear();
        src.stepsLeft = 100000;
    }

    static void jsonStr(FILE *f, const char *s) {
        fputc('"', f);
        for (; *s; s++) {
            unsigned char c = *s;
            if (c == '"' || c == '\\') {
                fputc('\\', f);
                fputc(c, f);
            } else if (c == '\n')
                fputs("\\n", f);
            else if (c < 32 || c >= 127)
                fprintf(f, "\\u%04x", c);
            else
                fputc(c, f);
        }
        fputc('"', f);
    }

    static double now() {
        timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }

    static uint64_t mix(uint64_t a, uint64_t b) {
        Src s;
        s.state = a * 0xD1342543DE82EF95ull + b;
        uint64_t r = s.rngNext();
        return r ^ s.rngNext();
    }

    int mainImpl(int argc, char **argv) {
        std::string mode, file, outFile, statusFile, hashFile, digestFile;
        uint64_t seed = 1, start = 0, stride = 1, count = 1;
        double maxSeconds = 1e9;
        uint64_t sampleBelow = 0;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&]() -> const char * {
                if (i + 1 >= argc) exit(2);
                return argv[++i];
            };
            if (a == "--run") mode = "run";
            else if (a == "--replay") mode = "replay", file = val();
            else if (a == "--seed") seed = strtoull(val(), 0, 10);
            else if (a == "--start") start = strtoull(val(), 0, 10);
            else if (a == "--stride") stride = strtoull(val(), 0, 10);
            else if (a == "--count") count = strtoull(val(), 0, 10);
            else if (a == "--max-seconds") maxSeconds = atof(val());
            else if (a == "--out") outFile = val();
            else if (a == "--status") statusFile = val();
            else if (a == "--hashes") hashFile = val();
            else if (a == "--digests") digestFile = val();
            else if (a == "--samples") sampleBelow = strtoull(val(), 0, 10);
            else if (a == "--log") logging = true;
            else {
                auto eq = a.find('=');
                if (eq == std::string::npos) {
                    fprintf(stderr, "unknown argument %s\n", a.c_str());
                    return 2;
                }
                params[a.substr(0, eq)] = a.substr(eq + 1);
            }
        }
        if (!statusFile.empty()) {
            int fd = open(statusFile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) {
                perror("status file");
                return 2;
            }
            void *p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p == MAP_FAILED) return 2;
            close(fd);
            st = (Status *)p;
            st->magic = 0x50425453;
        }
        pbt_init();
        if (mode == "replay") {
            FILE *f = fopen(file.c_str(), "rb");
            if (!f) {
                perror(file.c_str());
                return 2;
            }
            std::vector<uint8_t> buf;
            int c;
            while ((c = fgetc(f)) != EOF)
                buf.push_back((uint8_t)c);
            fclose(f);
            Src src;
            src.replaying = true;
            src.data = buf.data();
            src.len = buf.size();
            beginCase(src);
            runCase(src);
            st->state = 0;
            if (logging) fputs(logText.c_str(), stdout);
            printf("OK digest=%016llx nontrivial=%d\n", (unsigned long long)curDigest, (int)curNontrivial);
            return 0;
        }
        if (mode != "run") return 2;
        std::vector<uint64_t> hashes;
        std::vector<std::string> samples;
        FILE *dig = digestFile.empty() ? nullptr : fopen(digestFile.c_str(), "wb");
        double t0 = now();
        bool capped = false;
        for (uint64_t n = 0; n < count; n++) {
            uint64_t idx = start + n * stride;
            if ((n & 15) == 0 && now() - t0 > maxSeconds) {
                capped = true;
                break;
            }
            Src src;
            src.state = mix(seed, idx);
            st->caseIndex = idx;
            bool sampling = samples.size() < sampleBelow && n < 2000;
            logging = sampling;
            beginCase(src);
            runCase(src);
            st->state = 0;
            evaluations++;
            if (dig) fwrite(&curDigest, 8, 1, dig);
            if (curNontrivial) {
                nontrivialCount++;
                hashes.push_back(fnv(st->data, st->nbytes));
                if (sampling && !logText.empty()) {
                    if (logText.size() > 3000) logText = logText.substr(0, 3000) + "...";
                    samples.push_back(logText);
                }
            }
        }
        if (dig) fclose(dig);
        if (!hashFile.empty()) {
            FILE *f = fopen(hashFile.c_str(), "wb");
            if (f) {
                if (!hashes.empty()) fwrite(hashes.data(), 8, hashes.size(), f);
                fclose(f);
            }
        }
        FILE *f = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
        if (!f) return 2;
        fprintf(f,
            "{\"evaluations\":%llu,\"nontrivial\":%llu,\"capped\":%s,\"wall_s\":%.3f,\"labels\":{",
            (unsigned long long)evaluations,
            (unsigned long long)nontrivialCount,
            capped ? "true" : "false",
            now() - t0);
        bool first = true;
        for (auto &l : labels) {
            if (!first) fputc(',', f);
            first = false;
            jsonStr(f, l.first);
            fprintf(f, ":%llu", (unsigned long long)l.second.count);
        }
        fprintf(f, "},\"counters\":{");
        first = true;
        for (auto &l : counters) {
            if (!first) fputc(',', f);
            first = false;
            jsonStr(f, l.first);
            fprintf(f, ":%llu", (unsigned long long)l.second);
        }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto &s : samples) {
            if (!first) fputc(',', f);
            first = false;
            jsonStr(f, s.c_str());
        }
        fprintf(f, "]}\n");
        if (f != stdout) fclose(f);
        return 0;
    }

    int fuzzOne(const uint8_t *data, size_t size) {
        fuzzing = true;
        Src src;
        src.replaying = true;
        src.data = data;
        src.len = size;
        beginCase(src);
        src.stepsLeft = 400;
        runCase(src);
        st->state = 0;
        evaluations++;
        return 0;
    }
    void fuzzParam(const char *k, const char *v) {
        params[k] = v;
    }
} // namespace pbt

#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    // parameters come from the environment: PBT_PARAMS="k=v k=v"
    const char *p = getenv("PBT_PARAMS");
    std::string s = p ? p : "";
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find(' ', i);
        if (e == std::string::npos) e = s.size();
        std::string kv = s.substr(i, e - i);
        size_t q = kv.find('=');
        if (q != std::string::npos) pbt::fuzzParam(kv.substr(0, q).c_str(), kv.substr(q + 1).c_str());
        i = e + 1;
    }
    pbt_init();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    return pbt::fuzzOne(data, size);
}
#else
int main(int argc, char **argv) {
    return pbt::mainImpl(argc, argv);
}
#endif
