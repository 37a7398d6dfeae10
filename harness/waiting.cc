// Where transactions wait (C13) and who may pass a waiting commit (C14). A controller tells threads to start, use and end
// transactions, one or a few at a time, lets everything run until nothing can move, and then looks at who is waiting.
#include "cworld.hh"

using namespace cw;

namespace {
    typedef unsigned long long ull;
    bool overtaking = false; // which of the two properties is decided

    enum Phase { IDLE, STARTING, ACTIVE, ENDING };
    const char *const phaseName[] = {"idle", "starting", "active", "ending"};
    enum Cmd { C_START, C_WORK, C_END, C_QUIT };

    struct Th {
        Phase phase = IDLE;
        volatile int gate = 0;
        Cmd cmd = C_QUIT;
        int kind = 0;
        unsigned plan = 0;
        Tx *tx = nullptr;
        unsigned reads = 0, writes = 0; // resources held (bits of NRES)
        unsigned dirty = 0;
        uint64_t lo[NRES], seen[NRES], wrote[NRES];
        bool looked = false;
        unsigned behind = 0;   // the waiting commit it must not pass (thread + 1), 0 none
        unsigned seq = 0;      // number of the transaction
        unsigned behindSeq = 0;
        std::vector<std::pair<int, unsigned>> blockers; // transactions that a waiting end was seen waiting for
    };
    const int MAXTH = 400;
    Th th[MAXTH];
    int nth = 0;
    uint64_t committed[NRES];
    ECS *ecs = nullptr;
    Entity e0;
    unsigned nBlocked, nCommitWaits, nOvertakes, nFree;

    unsigned readMask(int kind) {
        return (kinds[kind].read & ~kinds[kind].write & 15) | (kinds[kind].ar ? 0u : 1u << rM);
    }
    unsigned writeMask(int kind) {
        return kinds[kind].write | (kinds[kind].ar ? 1u << rM : 0u);
    }
    std::string resNames(unsigned m) {
        std::string s;
        for (int r = 0; r < NRES; r++)
            if (m >> r & 1) {
                if (!s.empty()) s += "+";
                s += resName[r];
            }
        return s.empty() ? "nothing" : s;
    }
    std::string describe() {
        std::string s;
        char b[200];
        int crowd = 0;
        for (int i = 0; i < nth; i++) {
            if (i > 12 && th[i].phase == ACTIVE) {
                crowd++;
                continue;
            }
            if (th[i].phase == IDLE) continue;
            snprintf(b, sizeof(b), "\n  T%d %s %s, changed %s", i, kinds[th[i].kind].name, phaseName[th[i].phase],
                resNames(th[i].dirty).c_str());
            s += b;
        }
        if (crowd) {
            snprintf(b, sizeof(b), "\n  and %d more active", crowd);
            s += b;
        }
        return s;
    }

    uint64_t readRes(Tx *tx, int r, bool prev) {
        if (r < 3) return prev ? tx->getPrev(e0, r) : tx->get(e0, r);
        if (r == rG) return prev ? tx->gGetPrev() : tx->gGet();
        return tx->list(3, true).size();
    }

    void look(int i, const char *when) {
        Th &t = th[i];
        for (int r = 0; r < NRES; r++) {
            bool readable = r == rM || (kinds[t.kind].read >> r & 1);
            if (!readable) continue;
            uint64_t v = readRes(t.tx, r, true);
            if (!t.looked) {
                t.seen[r] = v;
                if (v < t.lo[r])
                    pbt::fail("T%d %s sees version %llu of %s, but version %llu was committed before it could start", i,
                        kinds[t.kind].name, (ull)v, resName[r], (ull)t.lo[r]);
            } else if (v != t.seen[r]) {
                pbt::fail("T%d %s saw version %llu of %s and %s sees %llu", i, kinds[t.kind].name, (ull)t.seen[r],
                    resName[r], when, (ull)v);
            }
        }
        t.looked = true;
    }

    void worker(void *p) {
        int i = (int)(intptr_t)p;
        Th &t = th[i];
        while (true) {
            sched::passGate(&t.gate);
            t.gate = 0;
            switch (t.cmd) {
            case C_QUIT: return;
            case C_START: {
                PLOG("T%d start %s", i, kinds[t.kind].name);
                try {
                    t.tx = cw::start(*ecs, t.kind);
                } catch (std::exception &e) {
                    pbt::fail("T%d: start of %s threw %s", i, kinds[t.kind].name, e.what());
                }
                t.phase = ACTIVE;
                PLOG("T%d started", i);
                if (overtaking && t.behind) {
                    int c = (int)t.behind - 1;
                    bool waiting = false;
                    if (th[c].phase == ENDING && th[c].seq == t.behindSeq)
                        for (auto &b : th[c].blockers)
                            if (th[b.first].phase == ACTIVE && th[b.first].seq == b.second) waiting = true;
                    if (waiting)
                        pbt::fail("T%d %s started although the commit of T%d (which changed %s) was already waiting for the "
                                  "readers when it asked:%s",
                            i, kinds[t.kind].name, c, resNames(th[c].dirty).c_str(), describe().c_str());
                }
                t.looked = false;
                look(i, "");
                break;
            }
            case C_WORK: {
                look(i, "later");
                for (int r = 0; r < NRES; r++)
                    if (r != rM && (kinds[t.kind].read >> r & 1)) readRes(t.tx, r, false);
                unsigned w = writeMask(t.kind) & t.plan;
                for (int r = 0; r < NRES; r++) {
                    if (!(w >> r & 1)) continue;
                    bool touchOnly = t.plan >> (8 + r) & 1;
                    if (r < 3) {
                        if (touchOnly) {
                            t.tx->touch(e0, r);
                            if (!(t.dirty >> r & 1)) t.wrote[r] = t.seen[r];
                        } else {
                            t.wrote[r] = t.seen[r] + 1;
                            t.tx->set(e0, r, t.wrote[r], (int)(t.plan >> 16 & 1));
                        }
                    } else if (r == rG) {
                        if (touchOnly) {
                            t.tx->gTouch();
                            if (!(t.dirty >> r & 1)) t.wrote[r] = t.seen[r];
                        } else {
                            t.wrote[r] = t.seen[r] + 1;
                            t.tx->gSet(t.wrote[r], (int)(t.plan >> 16 & 1));
                        }
                    } else {
                        t.tx->create();
                        t.wrote[r] = (t.dirty >> r & 1 ? t.wrote[r] : t.seen[r]) + 1;
                    }
                    t.dirty |= 1u << r;
                }
                PLOG("T%d worked, changed %s", i, resNames(t.dirty).c_str());
                break;
            }
            case C_END: {
                look(i, "at its end");
                PLOG("T%d end", i);
                t.phase = ENDING;
                t.tx->dropMain();
                delete t.tx;
                t.tx = nullptr;
                for (int r = 0; r < NRES; r++)
                    if (t.dirty >> r & 1) committed[r] = std::max(committed[r], t.wrote[r]);
                t.phase = IDLE;
                PLOG("T%d ended", i);
                t.dirty = t.reads = t.writes = 0;
                t.behind = 0;
                break;
            }
            }
        }
    }

    // Is there a transaction that thread i may legitimately wait for?
    bool mayWait(int i) {
        Th &t = th[i];
        for (int j = 0; j < nth; j++) {
            Th &o = th[j];
            if (j == i || (o.phase != ACTIVE && o.phase != ENDING)) continue;
            if (t.phase == STARTING) {
                if (writeMask(t.kind) & o.writes) return true;
                if (o.phase == ENDING && ((readMask(t.kind) | writeMask(t.kind)) & o.dirty)) return true;
            } else {
                if (t.dirty >> rM & 1) return true;
                if (t.dirty & (o.reads | o.writes)) return true;
            }
        }
        return false;
    }
    // What thread i, which is waiting at its end, may be waiting for
    unsigned contested(int i) {
        unsigned m = 0;
        for (int j = 0; j < nth; j++) {
            if (j == i || (th[j].phase != ACTIVE && th[j].phase != ENDING)) continue;
            m |= th[j].reads & th[i].dirty;
            if (th[i].dirty >> rM & 1) m |= 1u << rM;
        }
        return m;
    }

    void inspect() {
        for (int i = 0; i < nth; i++) {
            Th &t = th[i];
            if (t.phase != STARTING && t.phase != ENDING) continue;
            if (t.phase == STARTING) nBlocked++;
            else nCommitWaits++;
            if (t.phase == ENDING && t.blockers.empty()) {
                for (int j = 0; j < nth; j++)
                    if (j != i && th[j].phase == ACTIVE && ((th[j].reads & t.dirty) || (t.dirty >> rM & 1)))
                        t.blockers.push_back({j, th[j].seq});
            }
            if (!overtaking || t.phase == ENDING) {
                if (!mayWait(i))
                    pbt::fail("T%d %s waits in its %s for no transaction that it may wait for:%s", i, kinds[t.kind].name,
                        t.phase == STARTING ? "start" : "end", describe().c_str());
            } else {
                // after a commit the waiting readers proceed
                if (!writeMask(t.kind) && !mayWait(i))
                    pbt::fail("T%d %s still waits although no commit is in progress:%s", i, kinds[t.kind].name, describe().c_str());
            }
        }
    }

    void issue(int i, Cmd c) {
        Th &t = th[i];
        t.cmd = c;
        if (c == C_START) {
            t.phase = STARTING;
            t.reads = readMask(t.kind);
            t.writes = writeMask(t.kind);
            t.dirty = 0;
            t.behind = 0;
            t.seq++;
            t.blockers.clear();
            for (int r = 0; r < NRES; r++)
                t.lo[r] = committed[r];
            for (int j = 0; j < nth; j++) {
                if (th[j].phase != ENDING || j == i || th[j].blockers.empty()) continue;
                unsigned m = contested(j);
                // it asks for read access to everything that this commit can be waiting for
                if (m && (m & t.reads) == m) {
                    t.behind = j + 1;
                    t.behindSeq = th[j].seq;
                    // it gets access only after that commit, and so sees its result
                    for (int r = 0; r < NRES; r++)
                        if (overtaking && (th[j].dirty >> r & 1)) t.lo[r] = std::max(t.lo[r], th[j].wrote[r]);
                    nOvertakes++;
                    break;
                }
            }
        }
        sched::openGate(&t.gate);
    }

    struct Step {
        uint32_t who;
        uint32_t what;
        int kind;
        unsigned plan;
        bool more;
    };
    const std::vector<Step> *steps = nullptr;
    int crowdFirst, crowdCount, crowdKind;

    void controller(void *) {
        if (crowdCount) {
            for (int i = 0; i < crowdCount; i++) {
                th[crowdFirst + i].kind = crowdKind;
                issue(crowdFirst + i, C_START);
            }
            sched::waitQuiescent();
            inspect();
        }
        bool pendingInspect = false;
        unsigned settled = 0;
        // phases as of the last time nothing could move: commands of one batch do not know of each other
        for (auto &s : *steps) {
            int i = (int)(s.who % (uint32_t)crowdFirst);
            Th &t = th[i];
            if (t.gate) continue; // already got a command in this batch
            if (t.phase == IDLE) {
                t.kind = s.kind;
                issue(i, C_START);
            } else if (t.phase == ACTIVE) {
                if (s.what) {
                    t.plan = s.plan;
                    issue(i, C_WORK);
                } else {
                    issue(i, C_END);
                }
            } else {
                continue;
            }
            pendingInspect = true;
            if (!s.more) {
                sched::waitQuiescent();
                inspect();
                pendingInspect = false;
                settled++;
            }
        }
        if (pendingInspect) {
            sched::waitQuiescent();
            inspect();
        }
        while (true) {
            bool any = false, busy = false;
            for (int i = 0; i < nth; i++) {
                if (th[i].phase == ACTIVE) {
                    issue(i, C_END);
                    any = true;
                    if (i < crowdFirst || i % 16 == 0) break;
                } else if (th[i].phase != IDLE) {
                    busy = true;
                }
            }
            if (!any) {
                if (busy) pbt::fail("all active transactions have ended, but some still wait:%s", describe().c_str());
                break;
            }
            sched::waitQuiescent();
            inspect();
        }
        for (int i = 0; i < nth; i++)
            issue(i, C_QUIT);
    }

    void onStuck(sched::Result r) {
        pbt::fail("%s:%s", r == sched::DEADLOCK ? "no thread can continue" : "threads keep running without finishing",
            describe().c_str());
    }
} // namespace

void pbt_init() {
    overtaking = !strcmp(pbt::param("profile", "wait"), "overtake");
}

void pbt_case(pbt::Src &s) {
    unsigned small = 2 + (unsigned)s.below(5);
    bool crowd = s.chance(1, 200);
    crowdFirst = (int)small;
    crowdCount = crowd ? 256 + (int)s.below(40) : 0;
    static const int rk[] = {4, 6, 2, 15, 12};
    crowdKind = rk[s.below(5)];
    nth = crowdFirst + crowdCount;
    for (int i = 0; i < nth; i++)
        th[i] = Th();
    std::vector<Step> st;
    if (s.chance(overtaking ? 3 : 1, 4)) {
        // a reader and a writer of the same component, which ends while the reader is active
        static const int r[] = {4, 2, 6, 5, 15, 12, 17, 16, 10}, w[] = {7, 1, 9, 8, 14, 13, 8, 9, 7};
        int k = (int)s.below(9);
        bool ar = s.chance(1, 4);
        unsigned plan = 31 - (unsigned)s.below(4);
        st.push_back({0, 0, r[k], 0, s.chance(1, 4)});
        st.push_back({1, 0, ar ? 1 : w[k], 0, false});
        st.push_back({1, 1, 0, plan, s.chance(1, 4)});
        st.push_back({1, 0, 0, 0, s.chance(1, 8)});
    }
    unsigned n = 3 + (unsigned)s.below(crowd ? 12 : 28);
    for (unsigned i = 0; i < n; i++) {
        s.mark();
        Step x;
        x.who = (uint32_t)s.below(256);
        x.what = (uint32_t)s.weighted({5, 6});
        if (s.chance(1, 2)) {
            static const int w[] = {7, 9, 1, 8, 10, 11, 3, 13, 14, 16, 17, 1, 7};
            x.kind = w[s.below(13)];
        } else {
            static const int r[] = {4, 6, 2, 0, 5, 12, 15, 2, 6, 4};
            x.kind = r[s.below(10)];
        }
        x.plan = 31 - (unsigned)s.below(32);
        x.plan |= (unsigned)(s.chance(1, 2) ? s.below(32) : 0) << 8;
        x.plan |= (unsigned)s.below(2) << 16;
        x.more = s.chance(1, 3);
        st.push_back(x);
    }
    steps = &st;
    sched::Config c;
    size_t m = s.weighted({4, 4, 2});
    c.mode = (int)m;
    c.seed = s.below(0) | 1;
    if (m == sched::MODE_LIST) {
        c.npreempt = (int)s.below(10);
        for (int i = 0; i < c.npreempt; i++) {
            s.mark();
            c.gap[i] = (uint32_t)s.below(1u << (1 + s.below(8)));
            c.target[i] = (uint32_t)s.below(8);
        }
    } else if (m == sched::MODE_RANDOM) {
        static const uint32_t p[] = {16, 4, 64, 128};
        c.switchNum = p[s.below(4)];
    } else {
        c.npreempt = 1 + (int)s.below(6);
        for (int i = 0; i < c.npreempt; i++)
            c.gap[i] = (uint32_t)s.below(600);
    }
    static const uint32_t sp[] = {0, 0, 16, 64};
    c.spuriousNum = sp[s.below(4)];
    if (s.below(8) == 7) {
        c.patienceAt = (uint32_t)s.below(4);
        c.patience = 20 + (uint32_t)s.below(300);
    }
    c.giveUpAfter = 3000000;
    c.fairAfter = 100000;

    nBlocked = nCommitWaits = nOvertakes = nFree = 0;
    ECS world;
    ecs = &world;
    {
        Tx *t = cw::start(world, 1);
        e0 = t->create();
        for (int k = 0; k < 3; k++)
            t->set(e0, k, 1, 0);
        t->gSet(1, 0);
        t->dropMain();
        delete t;
    }
    for (int r = 0; r < NRES; r++)
        committed[r] = 1;
    sched::reset(c);
    for (int i = 0; i < nth; i++)
        sched::spawn(worker, (void *)(intptr_t)i);
    sched::spawn(controller, nullptr);
    sched::run(onStuck);
    if (nBlocked) pbt::label("a start had to wait");
    if (nCommitWaits) pbt::label("an end had to wait");
    if (nOvertakes) pbt::label("a start was tried behind a waiting commit");
    if (crowd) pbt::label("more than 256 readers");
    pbt::count("waiting starts seen", nBlocked);
    pbt::count("waiting ends seen", nCommitWaits);
    pbt::count("starts behind a waiting commit", nOvertakes);
    if (overtaking ? nOvertakes > 0 : nBlocked > 0 && nCommitWaits > 0) pbt::nontrivial();
    ecs = nullptr;
}
