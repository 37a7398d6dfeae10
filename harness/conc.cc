// Concurrent histories: several threads run generated transactions against one instance under the controlled scheduler.
// Full build: every observation is compared with a multi-version model (committed versions per resource).
// CW_LIGHT (used under ThreadSanitizer): no shared model, so the harness adds no synchronization that could hide a race.
#include "cworld.hh"

#include <memory>
#include <unordered_set>

using namespace cw;

namespace {
    typedef unsigned long long ull;
    using EK = uint64_t;
    EK key(const Entity &e) {
        return (uint64_t)e.index << 32 | (uint32_t)e.generation;
    }

    struct Profile {
        const char *name;
        unsigned minThreads, maxThreads, maxTx, ops;
        unsigned keep;    // of 16: a transaction is kept alive by another lock at its end
        unsigned writers; // of 16: preference for writing kinds
        bool ids;
    };
    const Profile profiles[] = {
        {"snapshot", 2, 4, 3, 5, 2, 9, false},
        {"update", 2, 4, 3, 4, 1, 13, false},
        {"progress", 2, 8, 3, 2, 1, 10, false},
        {"race", 2, 4, 3, 6, 2, 10, false},
        {"scope", 2, 3, 2, 4, 14, 11, false},
        {"ids", 2, 6, 4, 1, 1, 9, true},
    };
    const Profile *profile = nullptr;

    enum OpKind : uint8_t {
        O_READ, O_SET, O_INCR, O_TOUCH, O_LIST, O_AUDIT, O_CREATE, O_DESTROY, O_UNSET, O_SETNEW, O_GSET, O_GUNSET, O_GTOUCH,
        O_WATCH, O_POLL, O_STOP, O_THINK, O_GROW, O_COUNT
    };
    const char *const opName[] = {"read", "set", "increment", "touch", "list", "audit", "create", "destroy", "unset", "add",
        "set global", "unset global", "touch global", "watch", "poll", "stop", "think", "create many"};
    struct OpS {
        OpKind k;
        uint32_t a, b, c;
    };
    struct TxS {
        int kind;
        int keep; // -1: dropped at once
        std::vector<OpS> ops;
    };
    struct ThS {
        std::vector<TxS> txs;
    };
    struct Script {
        unsigned nInit = 0;
        unsigned initMask[8] = {};
        bool initG = false, initWatch = false;
        std::vector<ThS> threads;
        sched::Config cfg;
    };

    void genOps(pbt::Src &s, TxS &t) {
        const KindInfo &k = kinds[t.kind];
        unsigned n = s.below(2 * profile->ops + 1);
        for (unsigned i = 0; i < n; i++) {
            s.mark();
            OpS o;
            if (k.ar) {
                o.k = (OpKind)s.weighted({2, 3, 3, 1, 1, 1, 4, 3, 3, 3, 2, 2, 1, 2, 2, 1, 1, 1});
            } else if (k.write) {
                o.k = (OpKind)s.weighted({3, 5, 6, 1, 2, 1, 0, 0, 0, 0, (k.write & 8) ? 3u : 0u, 0, (k.write & 8) ? 1u : 0u, 0,
                    2, 0, 1, 0});
            } else {
                o.k = (OpKind)s.weighted({6, 0, 0, 0, 4, 2, 0, 0, 0, 0, 0, 0, 0, 0, 3, 0, 2, 0});
            }
            o.a = s.below(256);
            o.b = s.below(256);
            o.c = s.below(256);
            t.ops.push_back(o);
        }
    }

    void genSchedule(pbt::Src &s, sched::Config &c) {
        size_t m = s.weighted({5, 4, 3});
        c.mode = (int)m;
        if (m == sched::MODE_LIST) {
            c.npreempt = (int)s.below(14);
            for (int i = 0; i < c.npreempt; i++) {
                s.mark();
                unsigned bits = 1 + s.below(8);
                c.gap[i] = (uint32_t)s.below(1u << bits);
                c.target[i] = (uint32_t)s.below(8);
            }
        } else if (m == sched::MODE_RANDOM) {
            static const uint32_t p[] = {16, 4, 32, 64, 128};
            c.switchNum = p[s.below(5)];
            c.seed = s.below(0);
        } else {
            c.npreempt = 1 + (int)s.below(6);
            unsigned bits = 4 + s.below(6);
            for (int i = 0; i < c.npreempt; i++)
                c.gap[i] = (uint32_t)s.below(1u << bits);
            c.seed = s.below(0);
        }
        static const uint32_t sp[] = {0, 0, 8, 64};
        c.spuriousNum = sp[s.below(4)];
        if (s.below(8) == 7) {
            c.patienceAt = (uint32_t)s.below(4);
            c.patience = 20 + (uint32_t)s.below(300);
        }
        if (c.seed == 0) c.seed = 1;
    }

    Script generate(pbt::Src &s) {
        Script sc;
        sc.nInit = 1 + s.below(5);
        for (unsigned i = 0; i < sc.nInit; i++)
            sc.initMask[i] = 7 - s.below(8);
        sc.initG = !s.chance(1, 4);
        sc.initWatch = s.chance(1, 2);
        unsigned nt = (unsigned)s.range(profile->minThreads, profile->maxThreads);
        for (unsigned t = 0; t < nt; t++) {
            ThS th;
            unsigned n = 1 + s.below(profile->maxTx);
            for (unsigned i = 0; i < n; i++) {
                s.mark();
                TxS tx;
                if (s.below(16) < profile->writers) {
                    static const int w[] = {7, 9, 1, 8, 10, 11, 3, 13, 14, 16, 17, 1, 1, 7};
                    tx.kind = w[s.below(14)];
                } else {
                    static const int r[] = {4, 6, 2, 0, 5, 12, 15, 2, 6, 0};
                    tx.kind = r[s.below(10)];
                }
                tx.keep = s.below(16) < profile->keep ? (int)s.below(3) : -1;
                genOps(s, tx);
                th.txs.push_back(std::move(tx));
            }
            sc.threads.push_back(std::move(th));
        }
        genSchedule(s, sc.cfg);
        return sc;
    }

    uint64_t fresh(int thread) {
        static uint64_t counters[64];
        return (uint64_t)(thread + 1) << 32 | ++counters[thread & 63];
    }

    void onStuck(sched::Result r) {
        char buf[1024];
        sched::describe(buf, sizeof(buf));
        pbt::fail("%s:%s", r == sched::DEADLOCK ? "no thread can continue" : "threads keep running without finishing", buf);
    }

    ECS *ecs = nullptr;
    const Script *script = nullptr;
    std::vector<Entity> initEnts; // not changed once the threads run

#ifndef CW_LIGHT
    // ---------------------------------------------------------------- model
    struct Event {
        int type;
        EK e;
        uint64_t v;
        bool operator==(const Event &o) const {
            return type == o.type && e == o.e && v == o.v;
        }
    };
    struct MState {
        std::map<EK, unsigned> ents;
        bool g = false;
        bool operator==(const MState &o) const {
            return ents == o.ents && g == o.g;
        }
    };
    using XState = std::map<EK, uint64_t>;
    struct Ver {
        MState m;
        XState x;
        uint64_t g = 0;
        std::vector<Event> ev[3];
        int writer = -1;
    };
    std::deque<Ver> chain[NRES];
    int floorOf[NRES];
    struct WriterInfo {
        int ver[NRES];
    };
    std::vector<WriterInfo> writerInfo;
    int activeWriter[NRES]; // transaction number, or -1
    std::deque<Entity> pool; // every handle ever issued
    std::unordered_set<uint64_t> seenIds;
    uint64_t maxId;
    int txCounter;
    unsigned nOverlap, nActive, nCommits, nAmbiguous, nEventsSeen, nOwnWrites;

    struct ObsRec {
        Obs *o;
        int pushed; // versions of M up to this one are in the queue
        std::deque<std::vector<Event>> queue;
    };
    std::vector<std::vector<ObsRec>> obsOf; // per thread (+ one for the main thread)

    using Cand = std::array<int, NRES>;

    struct Snap {
        std::map<EK, unsigned> ents;
        XState x[3];
        bool gHad = false;
        uint64_t g = 0;
    };

    struct Run {
        int no, th;
        Tx *tx;
        KindInfo k;
        unsigned readable = 0;
        bool holds[NRES] = {}, writes[NRES] = {};
        std::vector<Cand> cands;
        MState m;
        XState x[3];
        uint64_t g = 0;
        bool dirty[NRES] = {};

        const char *who() const {
            static char buf[8][64];
            static int n = 0;
            char *b = buf[n++ & 7];
            snprintf(b, 64, "thread %d transaction #%d %s", th, no, k.name);
            return b;
        }
        const MState &prevM() const {
            return chain[rM][cands[0][rM]].m;
        }
        const XState &prevX(int c) const {
            return chain[c][cands[0][c]].x;
        }

        // Reads the whole previous state through the API
        Snap observe() {
            Snap s;
            Tecs::EntityView all = tx->list(3, true);
            for (const Entity &e : all) {
                if (!s.ents.emplace(key(e), 0).second)
                    pbt::fail("%s: entity %u/%u is listed twice", who(), (unsigned)e.index, (unsigned)e.generation);
            }
            for (size_t i = 0; i < pool.size(); i++) { // pool may grow while we look
                Entity e = pool[i];
                bool in = s.ents.count(key(e)) != 0;
                if (tx->existed(e) != in)
                    pbt::fail("%s: Existed(%u/%u) is %d, but the entity is %s the list", who(), (unsigned)e.index,
                        (unsigned)e.generation, !in, in ? "in" : "not in");
                unsigned mask = tx->had(e);
                if (!in) {
                    if (mask) pbt::fail("%s: Had() = %u for an entity which did not exist", who(), mask);
                    continue;
                }
                s.ents[key(e)] = mask;
                for (int c = 0; c < 3; c++) {
                    if ((mask >> c & 1) && (readable >> c & 1)) s.x[c][key(e)] = tx->getPrev(e, c);
                }
            }
            for (auto &p : s.ents) {
                bool known = false;
                for (size_t i = 0; i < pool.size(); i++)
                    if (key(pool[i]) == p.first) known = true;
                if (!known) pbt::fail("%s: the list has an entity which was never created", who());
            }
            for (int c = 0; c < 3; c++) {
                std::set<EK> l;
                for (const Entity &e : tx->list(c, true)) {
                    if (!l.insert(key(e)).second) pbt::fail("%s: an entity is listed twice for component %s", who(), resName[c]);
                    auto it = s.ents.find(key(e));
                    if (it == s.ents.end() || !(it->second >> c & 1))
                        pbt::fail("%s: the list for %s has entity %u/%u, which had no %s", who(), resName[c], (unsigned)e.index,
                            (unsigned)e.generation, resName[c]);
                }
                for (auto &p : s.ents) {
                    if ((p.second >> c & 1) && !l.count(p.first))
                        pbt::fail("%s: the list for %s lacks entity %u/%u", who(), resName[c], (unsigned)(p.first >> 32),
                            (unsigned)p.first);
                }
            }
            s.gHad = tx->gHad();
            if (s.gHad && (readable & 8)) s.g = tx->gGetPrev();
            return s;
        }

        const char *mismatch(const Snap &s, const Cand &c) const {
            const MState &m = chain[rM][c[rM]].m;
            if (s.ents != m.ents) return "entities and their components";
            if (s.gHad != m.g) return "presence of the global component";
            for (int k = 0; k < 3; k++)
                if ((readable >> k & 1) && s.x[k] != chain[k][c[k]].x) return k == 0 ? "values of A" : k == 1 ? "values of B" : "values of C";
            if ((readable & 8) && s.gHad && s.g != chain[rG][c[rG]].g) return "value of the global component";
            return nullptr;
        }

        bool atomicOk(const Cand &c) const {
            for (auto &w : writerInfo) {
                int seen = -1;
                for (int r = 0; r < NRES; r++) {
                    if (!holds[r] || w.ver[r] < 0) continue;
                    int has = c[r] >= w.ver[r];
                    if (seen < 0) seen = has;
                    else if (seen != has) return false;
                }
            }
            return true;
        }

        void filter(const Snap &s, const char *when) {
            std::vector<Cand> keep;
            const char *why = nullptr;
            for (auto &c : cands) {
                if (const char *x = mismatch(s, c)) why = x;
                else keep.push_back(c);
            }
            if (keep.empty()) {
                std::string d;
                char buf[200];
                for (auto &p : s.ents) {
                    snprintf(buf, sizeof(buf), " %u/%u:%u", (unsigned)(p.first >> 32), (unsigned)p.first, p.second);
                    d += buf;
                    for (int c = 0; c < 3; c++)
                        if (s.x[c].count(p.first)) {
                            snprintf(buf, sizeof(buf), " %s=%llx", resName[c], (ull)s.x[c].at(p.first));
                            d += buf;
                        }
                }
                for (int r = 0; r < NRES; r++)
                    if (holds[r]) {
                        snprintf(buf, sizeof(buf), "; %s versions %d..%d", resName[r], cands.front()[r], cands.back()[r]);
                        d += buf;
                    }
                pbt::fail("%s: what it sees %s is no state that it may see (%s differ): saw%s global %d %llx", who(), when, why,
                    d.c_str(), s.gHad, (ull)s.g);
            }
            cands = keep;
        }

        void begin(int thread, const TxS &t) {
            th = thread;
            no = txCounter++;
            k = kinds[t.kind];
            readable = k.read;
            for (int r = 0; r < 4; r++) {
                holds[r] = (k.read | k.write) >> r & 1;
                writes[r] = k.write >> r & 1;
            }
            holds[rM] = true;
            writes[rM] = k.ar;
            int lo[NRES], hi[NRES];
            for (int r = 0; r < NRES; r++)
                lo[r] = floorOf[r];
            uint64_t idBefore = maxId;
            PLOG("%s starting", who());
            try {
                tx = cw::start(*ecs, t.kind);
            } catch (std::exception &e) {
                pbt::fail("%s: start threw %s", who(), e.what());
            }
            PLOG("%s started", who());
            uint64_t id = tx->txid();
            if (profile->ids) {
                if (!seenIds.insert(id).second) pbt::fail("%s: transaction id %llu was used before", who(), (ull)id);
                (void)idBefore;
            }
            if (nActive > 0) {
                nOverlap++;
            }
            nActive++;
            for (int r = 0; r < NRES; r++) {
                hi[r] = (int)chain[r].size() - 1;
                if (writes[r]) {
                    if (activeWriter[r] >= 0)
                        pbt::fail("%s started with write access to %s while transaction #%d has it", who(), resName[r],
                            activeWriter[r]);
                    activeWriter[r] = no;
                    lo[r] = hi[r]; // nobody else may publish a version from here on
                } else if (!holds[r]) {
                    lo[r] = hi[r] = 0;
                }
            }
            Cand c;
            for (c[0] = lo[0]; c[0] <= hi[0]; c[0]++)
                for (c[1] = lo[1]; c[1] <= hi[1]; c[1]++)
                    for (c[2] = lo[2]; c[2] <= hi[2]; c[2]++)
                        for (c[3] = lo[3]; c[3] <= hi[3]; c[3]++)
                            for (c[4] = lo[4]; c[4] <= hi[4]; c[4]++)
                                if (atomicOk(c)) cands.push_back(c);
            if (cands.empty()) pbt::fail("%s: no consistent set of commits can be visible", who());
            if (cands.size() > 1) nAmbiguous++;
            Snap s = observe();
            filter(s, "at its start");
            // whoever starts from now on sees at least this
            for (int r = 0; r < NRES; r++) {
                if (!holds[r]) continue;
                int mn = INT32_MAX;
                for (auto &q : cands)
                    mn = std::min(mn, q[r]);
                floorOf[r] = std::max(floorOf[r], mn);
            }
            m = prevM();
            for (int q = 0; q < 3; q++)
                if (holds[q]) x[q] = prevX(q);
            if (holds[rG]) g = chain[rG][cands[0][rG]].g;
            current("at its start");
        }

        // The current state as seen through the main lock
        void current(const char *when) {
            std::set<EK> l;
            for (const Entity &e : tx->list(3, false)) {
                if (!e) continue;
                if (!l.insert(key(e)).second) pbt::fail("%s: an entity is listed twice %s", who(), when);
                if (!m.ents.count(key(e))) pbt::fail("%s: Entities() %s has %u/%u, which does not exist", who(), when, (unsigned)e.index, (unsigned)e.generation);
            }
            for (auto &p : m.ents)
                if (!l.count(p.first)) pbt::fail("%s: Entities() %s lacks %u/%u", who(), when, (unsigned)(p.first >> 32), (unsigned)p.first);
            for (size_t i = 0; i < pool.size(); i++)
                readOne(pool[i], when);
            for (int c = 0; c < 3; c++)
                listOne(c, when);
            readG(when);
        }
        void listOne(int c, const char *when) {
            std::set<EK> l;
            for (const Entity &e : tx->list(c, false)) {
                if (!e) continue;
                if (!l.insert(key(e)).second) pbt::fail("%s: EntitiesWith<%s>() %s has an entity twice", who(), resName[c], when);
                auto it = m.ents.find(key(e));
                if (it == m.ents.end() || !(it->second >> c & 1))
                    pbt::fail("%s: EntitiesWith<%s>() %s has %u/%u, which has none", who(), resName[c], when, (unsigned)e.index, (unsigned)e.generation);
            }
            for (auto &p : m.ents)
                if ((p.second >> c & 1) && !l.count(p.first))
                    pbt::fail("%s: EntitiesWith<%s>() %s lacks %u/%u", who(), resName[c], when, (unsigned)(p.first >> 32), (unsigned)p.first);
        }
        void readOne(const Entity &e, const char *when) {
            auto it = m.ents.find(key(e));
            bool in = it != m.ents.end();
            if (tx->exists(e) != in)
                pbt::fail("%s: Exists(%u/%u) is %d %s", who(), (unsigned)e.index, (unsigned)e.generation, !in, when);
            unsigned h = tx->has(e), want = in ? it->second : 0;
            if (h != want)
                pbt::fail("%s: entity %u/%u has components %u %s, expected %u", who(), (unsigned)e.index, (unsigned)e.generation, h, when, want);
            for (int c = 0; c < 3; c++) {
                if (!(want >> c & 1) || !(readable >> c & 1)) continue;
                uint64_t v = tx->get(e, c);
                if (v != x[c].at(key(e)))
                    pbt::fail("%s: %s of %u/%u is %llx %s, expected %llx", who(), resName[c], (unsigned)e.index, (unsigned)e.generation, (ull)v, when, (ull)x[c].at(key(e)));
            }
        }
        void readG(const char *when) {
            if (tx->gHas() != m.g) pbt::fail("%s: presence of the global component is %d %s", who(), !m.g, when);
            if (m.g && (readable & 8)) {
                uint64_t v = tx->gGet();
                if (v != g) pbt::fail("%s: the global component is %llx %s, expected %llx", who(), (ull)v, when, (ull)g);
            }
        }

        // Only what really changes gets a new version: a component that an add/remove transaction leaves alone may become
        // available to others before the rest is committed.
        void structure() {
            dirty[rM] = true;
        }
        bool pickEnt(uint32_t a, unsigned needMask, unsigned notMask, Entity &out) {
            std::vector<EK> v;
            for (auto &p : m.ents)
                if ((p.second & needMask) == needMask && !(p.second & notMask)) v.push_back(p.first);
            if (v.empty()) return false;
            EK kk = v[a % v.size()];
            for (auto &e : pool)
                if (key(e) == kk) {
                    out = e;
                    return true;
                }
            return false;
        }
        void create(unsigned mask, uint32_t how) {
            Entity e = tx->create();
            for (auto &o : pool)
                if (key(o) == key(e)) pbt::fail("%s: the handle %u/%u was issued before", who(), (unsigned)e.index, (unsigned)e.generation);
            if (!e) pbt::fail("%s: a null entity was created", who());
            structure();
            pool.push_back(e);
            m.ents[key(e)] = 0;
            for (int c = 0; c < 3; c++)
                if (mask >> c & 1) setv(e, c, fresh(th), (int)((how + c) % 3));
        }
        void setv(const Entity &e, int c, uint64_t v, int how) {
            tx->set(e, c, v, how);
            dirty[c] = true;
            m.ents[key(e)] |= 1u << c;
            x[c][key(e)] = v;
            nOwnWrites++;
        }

        void deliver(ObsRec &r, int type, const Entity &e, uint64_t v) {
            Event ev{type, key(e), v};
            while (true) {
                while (!r.queue.empty() && r.queue.front().empty())
                    r.queue.pop_front();
                if (!r.queue.empty()) break;
                // maybe a later version is visible
                std::vector<Cand> later;
                for (auto &c : cands)
                    if (c[rM] > r.pushed) later.push_back(c);
                if (later.empty())
                    pbt::fail("%s: an observer delivered an event (type %d, entity %u/%u) which it should not have", who(), type,
                        (unsigned)e.index, (unsigned)e.generation);
                cands = later;
                r.pushed++;
                r.queue.push_back(chain[rM][r.pushed].ev[r.o->stream]);
            }
            auto &f = r.queue.front();
            auto it = std::find(f.begin(), f.end(), ev);
            if (it == f.end())
                pbt::fail("%s: an observer delivered an unexpected event: type %d, entity %u/%u, value %llx", who(), type,
                    (unsigned)e.index, (unsigned)e.generation, (ull)v);
            f.erase(it);
            nEventsSeen++;
        }
        void poll(ObsRec &r, unsigned n) {
            int mn = INT32_MAX;
            for (auto &c : cands)
                mn = std::min(mn, c[rM]);
            while (r.pushed < mn) {
                r.pushed++;
                r.queue.push_back(chain[rM][r.pushed].ev[r.o->stream]);
            }
            for (unsigned i = 0; i < n; i++) {
                int type;
                Entity e;
                uint64_t v;
                if (tx->poll(*r.o, type, e, v)) {
                    deliver(r, type, e, v);
                } else {
                    while (!r.queue.empty() && r.queue.front().empty())
                        r.queue.pop_front();
                    if (!r.queue.empty())
                        pbt::fail("%s: an observer has no more events, but %zu of a visible commit are missing", who(), r.queue.front().size());
                    std::vector<Cand> keep;
                    for (auto &c : cands) {
                        bool any = false;
                        for (int q = r.pushed + 1; q <= c[rM]; q++)
                            if (!chain[rM][q].ev[r.o->stream].empty()) any = true;
                        if (!any) keep.push_back(c);
                    }
                    if (keep.empty()) pbt::fail("%s: an observer has no more events, but those of a visible commit are missing", who());
                    cands = keep;
                    return;
                }
            }
        }

        void op(const OpS &o) {
            PLOG("%s %s %u %u %u", who(), opName[o.k], o.a, o.b, o.c);
            Entity e;
            int c = (int)(o.b % 3);
            switch (o.k) {
            case O_READ:
                if (o.c & 1) {
                    readG("later");
                } else if (!pool.empty()) {
                    readOne(pool[o.a % pool.size()], "later");
                }
                break;
            case O_SET:
                for (int q = 0; q < 3; q++, c = (c + 1) % 3) {
                    if (!(k.write >> c & 1)) continue;
                    if (!pickEnt(o.a, 1u << c, 0, e)) break;
                    setv(e, c, fresh(th), (int)(o.c % 3));
                    break;
                }
                break;
            case O_INCR:
                for (int q = 0; q < 3; q++, c = (c + 1) % 3) {
                    if (!(k.write >> c & 1)) continue;
                    if (!pickEnt(o.a, 1u << c, 0, e)) break;
                    uint64_t v = tx->get(e, c);
                    if (v != x[c].at(key(e))) pbt::fail("%s: read %llx before an update, expected %llx", who(), (ull)v, (ull)x[c].at(key(e)));
                    setv(e, c, v + 1, (int)(o.c % 3));
                    break;
                }
                break;
            case O_TOUCH:
                if ((k.write >> c & 1) && pickEnt(o.a, 1u << c, 0, e)) {
                    tx->touch(e, c);
                    dirty[c] = true;
                }
                break;
            case O_LIST: listOne(c, "later"); break;
            case O_AUDIT:
                filter(observe(), "later");
                current("later");
                break;
            case O_CREATE: create(o.b & 7, o.c); break;
            case O_GROW:
                for (int i = 0; i < 6; i++)
                    create(i == 0 ? o.b & 7 : 0, o.c);
                break;
            case O_DESTROY:
                if (pickEnt(o.a, 0, 0, e)) {
                    tx->destroy(e);
                    structure();
                    for (int q = 0; q < 3; q++)
                        if (m.ents[key(e)] >> q & 1) {
                            x[q].erase(key(e));
                            dirty[q] = true;
                        }
                    m.ents.erase(key(e));
                }
                break;
            case O_UNSET:
                if (pickEnt(o.a, 1u << c, 0, e)) {
                    tx->unset(e, c);
                    structure();
                    dirty[c] = true;
                    m.ents[key(e)] &= ~(1u << c);
                    x[c].erase(key(e));
                }
                break;
            case O_SETNEW:
                if (pickEnt(o.a, 0, 1u << c, e)) {
                    structure();
                    setv(e, c, fresh(th), (int)(o.c % 3));
                }
                break;
            case O_GSET:
                if ((k.write & 8) && (m.g || k.ar)) {
                    uint64_t v = fresh(th);
                    if (!m.g) structure();
                    tx->gSet(v, (int)(o.c % 3));
                    m.g = true;
                    g = v;
                    dirty[rG] = true;
                    nOwnWrites++;
                }
                break;
            case O_GUNSET:
                if (m.g) {
                    tx->gUnset();
                    structure();
                    dirty[rG] = true;
                    m.g = false;
                    g = 0;
                }
                break;
            case O_GTOUCH:
                if (m.g && (k.write & 8)) {
                    tx->gTouch();
                    dirty[rG] = true;
                }
                break;
            case O_WATCH: {
                if (obsOf[th].size() >= 3) break;
                Obs *ob = tx->watch((int)(o.a % 3));
                obsOf[th].push_back({ob, cands[0][rM], {}});
                break;
            }
            case O_POLL:
                if (!obsOf[th].empty()) poll(obsOf[th][o.a % obsOf[th].size()], o.b % 4 ? 1000 : 1);
                break;
            case O_STOP:
                if (!obsOf[th].empty()) {
                    size_t i = o.a % obsOf[th].size();
                    tx->stop(*obsOf[th][i].o);
                    delete obsOf[th][i].o;
                    obsOf[th].erase(obsOf[th].begin() + i);
                }
                break;
            case O_THINK:
                for (unsigned i = 0; i < o.a % 40; i++)
                    sched::point();
                break;
            case O_COUNT: break;
            }
        }

        void publish() {
            WriterInfo w;
            for (int r = 0; r < NRES; r++)
                w.ver[r] = -1;
            bool any = false;
            for (int r = 0; r < NRES; r++) {
                if (!dirty[r]) continue;
                if (cands[0][r] != (int)chain[r].size() - 1)
                    pbt::fail("%s: a version of %s was committed while it was writing: that update would be lost", who(), resName[r]);
                any = true;
                Ver v;
                v.writer = no;
                if (r < 3) v.x = x[r];
                else if (r == rG) v.g = g;
                else {
                    v.m = m;
                    const MState &old = prevM();
                    events(v, old);
                }
                w.ver[r] = (int)chain[r].size();
                chain[r].push_back(std::move(v));
            }
            if (any) {
                nCommits++;
                writerInfo.push_back(w);
            }
            for (int r = 0; r < NRES; r++)
                if (writes[r]) activeWriter[r] = -1;
            nActive--;
        }
        void events(Ver &v, const MState &old) {
            const XState &oldA = prevX(rA);
            for (auto &p : old.ents) {
                auto it = m.ents.find(p.first);
                if (it == m.ents.end()) v.ev[0].push_back({2, p.first, 0});
                if ((p.second & 1) && (it == m.ents.end() || !(it->second & 1))) v.ev[1].push_back({2, p.first, oldA.at(p.first)});
            }
            for (auto &p : m.ents) {
                auto it = old.ents.find(p.first);
                if (it == old.ents.end()) v.ev[0].push_back({1, p.first, 0});
                if ((p.second & 1) && (it == old.ents.end() || !(it->second & 1))) v.ev[1].push_back({1, p.first, x[0].at(p.first)});
            }
            if (m.g && !old.g) v.ev[2].push_back({1, key(Entity()), g});
            if (!m.g && old.g) v.ev[2].push_back({2, key(Entity()), chain[rG][cands[0][rG]].g});
        }

        void end(int keep) {
            if (keep >= 0) {
                tx->keepOther(keep);
                tx->dropMain();
                PLOG("%s lives on through another lock", who());
                unsigned keepReadable = readable;
                if (keep == 2) readable = 0;
                filter(observe(), "through its last lock");
                readable = keepReadable;
            }
            // repeatable until the very end
            PLOG("%s ending", who());
            publish();
            int mine[NRES];
            for (int r = 0; r < NRES; r++)
                mine[r] = dirty[r] ? writerInfo.back().ver[r] : -1;
            try {
                if (keep >= 0) tx->dropOther();
                else tx->dropMain();
            } catch (std::exception &e) {
                pbt::fail("%s: end threw %s", who(), e.what());
            }
            PLOG("%s ended", who());
            delete tx;
            for (int r = 0; r < NRES; r++)
                if (mine[r] >= 0) floorOf[r] = std::max(floorOf[r], mine[r]);
        }
    };

    void threadMain(void *p) {
        int th = (int)(intptr_t)p;
        for (auto &t : script->threads[th].txs) {
            Run r;
            r.begin(th, t);
            for (auto &o : t.ops)
                r.op(o);
            r.end(t.keep);
        }
    }

    void runCase() {
        int nt = (int)script->threads.size();
        for (int r = 0; r < NRES; r++) {
            chain[r].clear();
            chain[r].emplace_back();
            floorOf[r] = 0;
            activeWriter[r] = -1;
        }
        writerInfo.clear();
        pool.clear();
        seenIds.clear();
        maxId = 0;
        txCounter = 0;
        nOverlap = nActive = nCommits = nAmbiguous = nEventsSeen = nOwnWrites = 0;
        obsOf.clear();
        obsOf.resize(nt + 1);
        {
            Run r;
            TxS t{1, -1, {}};
            r.begin(nt, t);
            for (unsigned i = 0; i < script->nInit; i++)
                r.create(script->initMask[i], 0);
            if (script->initG) r.op({O_GSET, 0, 0, 0});
            if (script->initWatch)
                for (unsigned i = 0; i < 3; i++)
                    r.op({O_WATCH, i, 0, 0});
            r.end(-1);
        }
        // one observer per thread may be created in the setup too: threads take over those of the main thread
        if (!obsOf[nt].empty() && nt > 0) std::swap(obsOf[nt], obsOf[0]);
        unsigned setupCommits = nCommits;
        nOverlap = 0;
        sched::reset(script->cfg);
        for (int t = 0; t < nt; t++)
            sched::spawn(threadMain, (void *)(intptr_t)t);
        sched::run(onStuck);
        {
            Run r;
            TxS t{2, -1, {}};
            for (int q = 0; q < NRES; q++)
                floorOf[q] = (int)chain[q].size() - 1;
            r.begin(nt, t);
            for (auto &l : obsOf)
                for (auto &o : l)
                    r.poll(o, 100000);
            r.end(-1);
        }
        for (auto &l : obsOf)
            for (auto &o : l)
                delete o.o;
        obsOf.clear();
        if (nOverlap) pbt::label("transactions overlapped");
        if (nAmbiguous) pbt::label("started while a commit was in progress");
        if (sched::blocks()) pbt::label("a thread had to wait");
        if (nEventsSeen) pbt::label("observer events delivered");
        if (sched::switches() > (uint64_t)nt) pbt::label("preempted");
        pbt::count("transactions", txCounter);
        pbt::count("commits", nCommits);
        pbt::count("context switches", sched::switches());
        pbt::count("waits", sched::blocks());
        pbt::count("steps", sched::steps());
        if (nOverlap + nAmbiguous + sched::blocks() >= 2 && nCommits >= setupCommits + 2 && sched::switches() > (uint64_t)nt)
            pbt::nontrivial();
    }
#else
    // ---------------------------------------------------------------- light
    struct alignas(64) Local {
        std::vector<Entity> own;
        std::vector<Obs *> obs;
        uint64_t sum = 0;
    };
    Local *locals = nullptr;
    volatile bool overlapped = false;

    void lightOp(Local &l, Tx *tx, const KindInfo &k, int th, const OpS &o) {
        auto ent = [&](uint32_t a) {
            size_t n = initEnts.size() + l.own.size();
            size_t i = a % n;
            return i < initEnts.size() ? initEnts[i] : l.own[i - initEnts.size()];
        };
        Entity e = ent(o.a);
        int c = (int)(o.b % 3);
        switch (o.k) {
        case O_READ:
        case O_AUDIT:
            l.sum += tx->existed(e) + tx->had(e) + tx->has(e) + tx->gHas() + tx->gHad();
            for (int q = 0; q < 3; q++) {
                if (!(k.read >> q & 1)) continue;
                if (tx->exists(e) && (tx->has(e) >> q & 1)) l.sum += tx->get(e, q);
                if (tx->existed(e) && (tx->had(e) >> q & 1)) l.sum += tx->getPrev(e, q);
            }
            if (k.read & 8) {
                if (tx->gHas()) l.sum += tx->gGet();
                if (tx->gHad()) l.sum += tx->gGetPrev();
            }
            break;
        case O_LIST: {
            bool prev = o.c & 1;
            for (const Entity &q : tx->list((int)(o.b % 4), prev)) {
                if (!q) continue;
                l.sum += q.index;
                if (o.b % 4 < 3) {
                    if (!prev && !(tx->has(q) >> (o.b % 4) & 1)) pbt::fail("a listed entity has no such component");
                    if (prev && !(tx->had(q) >> (o.b % 4) & 1)) pbt::fail("a listed entity had no such component");
                }
            }
            break;
        }
        case O_SET:
        case O_INCR:
            for (int q = 0; q < 3; q++, c = (c + 1) % 3) {
                if (!(k.write >> c & 1)) continue;
                if (!tx->exists(e) || !(tx->has(e) >> c & 1)) continue;
                tx->set(e, c, o.k == O_SET ? fresh(th) : tx->get(e, c) + 1, (int)(o.c % 3));
                break;
            }
            break;
        case O_TOUCH:
            if ((k.write >> c & 1) && tx->exists(e) && (tx->has(e) >> c & 1)) tx->touch(e, c);
            break;
        case O_GROW:
        case O_CREATE:
            for (int i = 0; i < (o.k == O_GROW ? 6 : 1); i++) {
                Entity n = tx->create();
                l.own.push_back(n);
                for (int q = 0; q < 3; q++)
                    if (o.b >> q & 1) tx->set(n, q, fresh(th), (int)((o.c + q) % 3));
            }
            break;
        case O_DESTROY:
            if (tx->exists(e)) tx->destroy(e);
            break;
        case O_UNSET:
            if (tx->exists(e)) tx->unset(e, c);
            break;
        case O_SETNEW:
            if (tx->exists(e)) tx->set(e, c, fresh(th), (int)(o.c % 3));
            break;
        case O_GSET:
            if ((k.write & 8) && (k.ar || tx->gHas())) tx->gSet(fresh(th), (int)(o.c % 3));
            break;
        case O_GUNSET: tx->gUnset(); break;
        case O_GTOUCH:
            if ((k.write & 8) && tx->gHas()) tx->gTouch();
            break;
        case O_WATCH:
            if (l.obs.size() < 3) l.obs.push_back(tx->watch((int)(o.a % 3)));
            break;
        case O_POLL:
            if (!l.obs.empty()) {
                int type;
                Entity q;
                uint64_t v;
                while (tx->poll(*l.obs[o.a % l.obs.size()], type, q, v))
                    l.sum += v + type;
            }
            break;
        case O_STOP:
            if (!l.obs.empty()) {
                size_t i = o.a % l.obs.size();
                tx->stop(*l.obs[i]);
                delete l.obs[i];
                l.obs.erase(l.obs.begin() + i);
            }
            break;
        case O_THINK:
            for (unsigned i = 0; i < o.a % 40; i++)
                sched::point();
            break;
        case O_COUNT: break;
        }
    }

    void runTx(Local &l, int th, const TxS &t) {
        const KindInfo &k = kinds[t.kind];
        Tx *tx = nullptr;
        try {
            tx = cw::start(*ecs, t.kind);
        } catch (std::exception &e) {
            pbt::fail("thread %d: start of %s threw %s", th, k.name, e.what());
        }
        for (auto &o : t.ops)
            lightOp(l, tx, k, th, o);
        if (t.keep >= 0) {
            tx->keepOther(t.keep);
            tx->dropMain();
            Entity e = initEnts[0];
            l.sum += tx->existed(e) + tx->had(e) + tx->gHad();
            for (const Entity &q : tx->list(0, true))
                l.sum += q.index;
            tx->dropOther();
        } else {
            tx->dropMain();
        }
        delete tx;
    }
    void threadMain(void *p) {
        int th = (int)(intptr_t)p;
        for (auto &t : script->threads[th].txs)
            runTx(locals[th], th, t);
    }
    void runCase() {
        int nt = (int)script->threads.size();
        initEnts.clear();
        locals = new Local[nt + 1];
        {
            Tx *tx = cw::start(*ecs, 1);
            for (unsigned i = 0; i < script->nInit; i++) {
                Entity e = tx->create();
                initEnts.push_back(e);
                for (int c = 0; c < 3; c++)
                    if (script->initMask[i] >> c & 1) tx->set(e, c, fresh(60), 0);
            }
            if (script->initG) tx->gSet(fresh(60), 0);
            if (script->initWatch)
                for (int i = 0; i < 3; i++)
                    locals[i % nt].obs.push_back(tx->watch(i));
            delete tx;
        }
        sched::reset(script->cfg);
        for (int t = 0; t < nt; t++)
            sched::spawn(threadMain, (void *)(intptr_t)t);
        sched::run(onStuck);
        TxS last{2, -1, {{O_READ, 0, 0, 0}, {O_LIST, 0, 0, 0}, {O_LIST, 0, 1, 0}, {O_LIST, 0, 3, 0}}};
        runTx(locals[nt], nt, last);
        for (int t = 0; t <= nt; t++)
            for (Obs *o : locals[t].obs)
                delete o;
        delete[] locals;
        if (sched::blocks()) pbt::label("a thread had to wait");
        pbt::count("context switches", sched::switches());
        pbt::count("waits", sched::blocks());
        pbt::count("steps", sched::steps());
        unsigned writing = 0;
        for (auto &t : script->threads) {
            bool w = false;
            for (auto &x : t.txs)
                if (kinds[x.kind].write && !x.ops.empty()) w = true;
            writing += w;
        }
        if (writing) pbt::label("some thread wrote");
        if (writing && sched::switches() > (uint64_t)nt) pbt::nontrivial();
    }
#endif

    void describeScript(const Script &sc) {
        pbt::logf("initial entities %u, global %d, %zu threads, schedule mode %d, %d preemptions, seed %llx", sc.nInit, sc.initG,
            sc.threads.size(), sc.cfg.mode, sc.cfg.npreempt, (ull)sc.cfg.seed);
        for (size_t t = 0; t < sc.threads.size(); t++)
            for (auto &x : sc.threads[t].txs) {
                std::string d;
                for (auto &o : x.ops) {
                    d += " ";
                    d += opName[o.k];
                }
                pbt::logf("  thread %zu: %s keep %d:%s", t, kinds[x.kind].name, x.keep, d.c_str());
            }
    }
} // namespace

void pbt_init() {
    const char *name = pbt::param("profile", "snapshot");
    for (auto &p : profiles)
        if (!strcmp(p.name, name)) profile = &p;
    if (!profile) pbt::broken("unknown profile %s", name);
}

void pbt_case(pbt::Src &s) {
    Script sc = generate(s);
    if (pbt::logging) describeScript(sc);
    script = &sc;
    ecs = new ECS();
    runCase();
    delete ecs;
    ecs = nullptr;
    script = nullptr;
}
