// C23: performance traces of generated concurrent programs, compared event by event with what the transactions of each
// thread must have recorded. Built with tracing compiled in and different capacities.
#include "cworld.hh"
TECS_NAME_COMPONENT(cw::B, "The \"B\", component")
TECS_NAME_COMPONENT(cw::G, "G")

using namespace cw;
typedef std::chrono::steady_clock Clock;
typedef Clock::time_point Time;
typedef unsigned long long ull;
static constexpr size_t CAP = TECS_PERFORMANCE_TRACING_MAX_EVENTS;

namespace {
    struct OpS {
        unsigned what, a;
    };
    struct TxS {
        int kind = 0;
        bool nested = false;
        int keep = -1;
        std::vector<OpS> ops;
    };
    // What is known about one transaction: the windows in which it started and ended
    struct Rec {
        int kind;
        unsigned dirty = 0; // resources that were certainly changed
        Time sb, sa, eb, ea;
    };
    struct Th {
        std::vector<TxS> todo;
        std::vector<Rec> recs;
        std::thread::id id;
    };
    std::vector<Th> th;
    ECS *ecs = nullptr;
    Entity e0;
    uint64_t nextValue = 1;
    unsigned waits, rollbacks, truncations, commits, foreignWindows;

    void worker(void *p) {
        Th &t = th[(size_t)(intptr_t)p];
        t.id = std::this_thread::get_id();
        for (auto &x : t.todo) {
            const KindInfo &k = kinds[x.kind];
            Rec r;
            r.kind = x.kind;
            sched::point();
            r.sb = Clock::now();
            Tx *tx = cw::start(*ecs, x.kind);
            r.sa = Clock::now();
            PLOG("  T%d started %s", (int)(intptr_t)p, k.name);
            if (x.nested) {
                try {
                    delete cw::start(*ecs, x.kind == 2 ? 7 : 2);
                    pbt::fail("a nested transaction does not throw");
                } catch (const std::runtime_error &) {
                }
            }
            for (auto &o : x.ops) {
                unsigned c = o.a % 3;
                switch (o.what) {
                case 0:
                    if (k.read >> c & 1) tx->get(e0, (int)c);
                    break;
                case 1:
                    if (k.write >> c & 1) {
                        tx->set(e0, (int)c, nextValue++, (int)(o.a / 3 % 3));
                        r.dirty |= 1u << c;
                    }
                    break;
                case 2:
                    if (k.write & 8) {
                        tx->gSet(nextValue++, (int)(o.a % 3));
                        r.dirty |= 1u << rG;
                    }
                    break;
                case 3:
                    if (k.ar) {
                        Entity e = tx->create();
                        tx->set(e, (int)c, nextValue++, 0);
                        r.dirty |= 1u << rM | 1u << c;
                        if (o.a & 64) tx->destroy(e);
                    }
                    break;
                case 4:
                    tx->list((int)(o.a & 3), o.a & 4);
                    break;
                }
            }
            if (x.keep >= 0) {
                tx->keepOther(x.keep);
                tx->dropMain();
            }
            sched::point();
            r.eb = Clock::now();
            if (x.keep >= 0) tx->dropOther();
            else tx->dropMain();
            r.ea = Clock::now();
            delete tx;
            PLOG("  T%d ended %s", (int)(intptr_t)p, k.name);
            t.recs.push_back(r);
        }
    }
    void onStuck(sched::Result r) {
        pbt::fail("%s", r == sched::DEADLOCK ? "no thread can continue" : "threads keep running without finishing");
    }

    typedef Tecs::TraceEvent Ev;
    typedef Tecs::TraceEvent::Type ET;
    typedef nonstd::span<Ev> Events;
    const char *const typeName[] = {"Invalid", "TransactionStart", "TransactionEnd", "ReadLockWait", "ReadLock", "ReadUnlock",
        "WriteLockWait", "WriteLock", "CommitLockWait", "CommitLock", "CommitUnlock", "WriteUnlock"};

    std::string dump(const Events &ev, size_t at) {
        std::string s;
        char b[120];
        for (size_t i = at > 20 ? at - 20 : 0; i < ev.size() && i < at + 6; i++) {
            int t = -1;
            for (size_t k = 0; k < th.size(); k++)
                if (th[k].id == ev[i].thread) t = (int)k;
            snprintf(b, sizeof b, "\n %c %zu: T%d %s", i == at ? '*' : ' ', i, t,
                (size_t)ev[i].type < 12 ? typeName[(size_t)ev[i].type] : "?");
            s += b;
        }
        return s;
    }

    int threadOf(const Events &ev, size_t i, const char *list) {
        for (size_t k = 0; k < th.size(); k++)
            if (th[k].id == ev[i].thread) return (int)k;
        pbt::fail("%s event %zu was recorded for a thread that ran no transaction:%s", list, i, dump(ev, i).c_str());
    }

    // The events of one lock form a valid history
    void automaton(const Events &ev, const char *list) {
        std::vector<int> readers(th.size(), 0), pendingWait(th.size(), 0);
        int total = 0, writer = -1;
        bool committing = false, committed = false;
        for (size_t i = 0; i < ev.size(); i++) {
            int t = threadOf(ev, i, list);
            auto bad = [&](const char *why) {
                pbt::fail("%s event %zu (%s of T%d): %s:%s", list, i, typeName[(size_t)ev[i].type], t, why, dump(ev, i).c_str());
            };
            if ((size_t)ev[i].type >= 12) pbt::fail("%s event %zu has type %d", list, i, (int)ev[i].type);
            if (pendingWait[t]) {
                if (pendingWait[t] != (int)ev[i].type) bad("after waiting, the thread must have acquired the lock");
                pendingWait[t] = 0;
            }
            switch (ev[i].type) {
            case ET::ReadLock:
                if (committing) bad("shared acquisition during a commit");
                readers[t]++;
                total++;
                break;
            case ET::ReadUnlock:
                if (readers[t] <= 0) bad("the thread holds no shared lock");
                readers[t]--;
                total--;
                break;
            case ET::WriteLock:
                if (writer >= 0) bad("there is a writer already");
                writer = t;
                committed = false;
                break;
            case ET::CommitLock:
                if (writer != t) bad("commit by a thread that is not the writer");
                if (committing || committed) bad("second commit");
                if (total) bad("commit while readers are active");
                committing = committed = true;
                commits++;
                break;
            case ET::CommitUnlock:
                if (writer != t || !committing) bad("the thread is not committing");
                committing = false;
                break;
            case ET::WriteUnlock:
                if (writer != t) bad("the thread is not the writer");
                if (committing) bad("the commit is not finished");
                writer = -1;
                break;
            case ET::ReadLockWait:
                pendingWait[t] = (int)ET::ReadLock;
                waits++;
                break;
            case ET::WriteLockWait:
                pendingWait[t] = (int)ET::WriteLock;
                waits++;
                break;
            case ET::CommitLockWait:
                if (writer != t || committing) bad("waiting to commit without the write lock");
                pendingWait[t] = (int)ET::CommitLock;
                waits++;
                break;
            default:
                bad("not an event of a lock");
            }
        }
        if (ev.size() < CAP) {
            bool held = total || writer >= 0;
            for (int w : pendingWait)
                held |= w != 0;
            if (held) pbt::fail("%s: the trace ends with locks held or waited for:%s", list, dump(ev, ev.size()).c_str());
        }
    }

    // Each thread's events are those of its transactions, in order, each within its transaction's start or end; what is
    // missing is later than everything that was recorded.
    void match(const Events &ev, const char *list, int res) {
        Time maxBegin = Time::min(), minMissing = Time::max();
        size_t used = 0;
        for (size_t t = 0; t < th.size(); t++) {
            std::vector<size_t> mine;
            for (size_t i = 0; i < ev.size(); i++)
                if (ev[i].thread == th[t].id) mine.push_back(i);
            for (size_t k = 1; k < mine.size(); k++)
                if (ev[mine[k]].time < ev[mine[k - 1]].time)
                    pbt::fail("%s: the times of T%zu go back:%s", list, t, dump(ev, mine[k]).c_str());
            size_t at = 0;
            bool missing = false;
            auto skipWaits = [&] {
                while (res >= 0 && at < mine.size() &&
                       (ev[mine[at]].type == ET::ReadLockWait || ev[mine[at]].type == ET::WriteLockWait ||
                           ev[mine[at]].type == ET::CommitLockWait))
                    at++;
            };
            auto next = [&](ET want, const Time &b, const Time &a) {
                // consumes an event of this type within [b, a]
                skipWaits();
                if (at >= mine.size()) {
                    if (!missing) minMissing = std::min(minMissing, a);
                    missing = true;
                    return;
                }
                const Ev &x = ev[mine[at]];
                if (x.type != want)
                    pbt::fail("%s: T%zu should have recorded %s, not %s:%s", list, t, typeName[(size_t)want],
                        typeName[(size_t)x.type], dump(ev, mine[at]).c_str());
                if (x.time < b || x.time > a)
                    pbt::fail("%s: %s of T%zu was recorded at another time:%s", list, typeName[(size_t)want], t,
                        dump(ev, mine[at]).c_str());
                maxBegin = std::max(maxBegin, b);
                at++;
            };
            for (size_t k = 0; k < th[t].recs.size() && !missing; k++) {
                const Rec &r = th[t].recs[k];
                if (res < 0) {
                    next(ET::TransactionStart, r.sb, r.sa);
                    if (!missing) next(ET::TransactionEnd, r.eb, r.ea);
                    continue;
                }
                bool w = res == rM ? kinds[r.kind].ar : kinds[r.kind].write >> res & 1;
                bool rd = res == rM ? true : kinds[r.kind].read >> res & 1;
                if (!w && !rd) continue;
                ET lock = w ? ET::WriteLock : ET::ReadLock, unlock = w ? ET::WriteUnlock : ET::ReadUnlock;
                while (true) {
                    next(lock, r.sb, r.sa);
                    if (missing) break;
                    skipWaits();
                    if (at < mine.size() && ev[mine[at]].type == unlock && ev[mine[at]].time <= r.sa) {
                        next(unlock, r.sb, r.sa); // given back because another lock was not free
                        rollbacks++;
                        continue;
                    }
                    break;
                }
                if (missing) break;
                if (w) {
                    skipWaits();
                    bool commit = r.dirty >> res & 1 || (at < mine.size() && ev[mine[at]].type == ET::CommitLock);
                    if (commit) {
                        next(ET::CommitLock, r.eb, r.ea);
                        if (missing) break;
                        next(ET::CommitUnlock, r.eb, r.ea);
                        if (missing) break;
                    }
                }
                next(unlock, r.eb, r.ea);
            }
            skipWaits();
            if (at != mine.size())
                pbt::fail("%s: T%zu recorded an event that belongs to none of its transactions:%s", list, t,
                    dump(ev, mine[at]).c_str());
            used += at;
            if (missing && ev.size() < CAP)
                pbt::fail("%s: events of T%zu are missing although there is room (%zu of %zu):%s", list, t, ev.size(), CAP,
                    dump(ev, ev.size()).c_str());
        }
        if (used != ev.size()) pbt::fail("%s: events of unknown threads", list);
        if (ev.size() > CAP) pbt::fail("%s: %zu events, the capacity is %zu", list, ev.size(), CAP);
        if (minMissing != Time::max()) {
            truncations++;
            if (maxBegin > minMissing) pbt::fail("%s: a later event was kept and an earlier one was not", list);
        }
    }

    struct Grouping : std::numpunct<char> {
        std::string do_grouping() const override {
            return "\3";
        }
        char do_thousands_sep() const override {
            return ',';
        }
    };
    // RFC 4180: fields that contain a comma, a quote or a line break are in quotes, quotes in them are doubled
    std::vector<std::vector<std::string>> parseCsv(const std::string &text) {
        std::vector<std::vector<std::string>> rows;
        std::vector<std::string> row;
        std::string cur;
        bool quoted = false, was = false;
        for (size_t i = 0; i < text.size(); i++) {
            char c = text[i];
            if (quoted) {
                if (c != '"') {
                    cur += c;
                } else if (i + 1 < text.size() && text[i + 1] == '"') {
                    cur += '"';
                    i++;
                } else {
                    quoted = false;
                    was = true;
                }
            } else if (c == '"' && cur.empty() && !was) {
                quoted = true;
            } else if (c == ',' || c == '\n') {
                if (c == '\n' && !cur.empty() && cur.back() == '\r' && !was) cur.pop_back();
                row.push_back(cur);
                cur.clear();
                was = false;
                if (c == '\n') {
                    rows.push_back(row);
                    row.clear();
                }
            } else {
                cur += c;
            }
        }
        if (quoted) pbt::fail("the CSV output ends inside quotes");
        if (!cur.empty() || !row.empty()) {
            row.push_back(cur);
            rows.push_back(row);
        }
        return rows;
    }
    std::string joined(const std::vector<std::string> &f) {
        std::string r;
        for (auto &x : f)
            r += (r.empty() ? "[" : " [") + x + "]";
        return r;
    }

    void csv(pbt::Src &s, Tecs::PerformanceTrace &tr) {
        std::map<std::thread::id, std::string> names;
        for (size_t t = 0; t < th.size(); t++) {
            if (s.chance(1, 2)) {
                std::string n = "thread number " + std::to_string(t);
                switch (s.below(8)) {
                case 0:
                    n += ", the second";
                    break;
                case 1:
                    n = "\"" + n + "\"";
                    break;
                case 2:
                    n += "\nbelow";
                    break;
                default:
                    break;
                }
                if (s.chance(1, 8)) tr.SetThreadName("renamed later", th[t].id);
                tr.SetThreadName(n, th[t].id);
                names[th[t].id] = n;
                if (tr.GetThreadName(th[t].id) != n) pbt::fail("GetThreadName returns another name than was set");
            }
        }
        std::ostringstream out;
        switch (s.below(6)) { // the formatting of numbers of the stream is the caller's
        case 0:
            out.imbue(std::locale(std::locale::classic(), new Grouping));
            break;
        case 1:
            out << std::hex << std::showbase;
            break;
        default:
            break;
        }
        tr.SaveToCSV(out);
        auto rows = parseCsv(out.str());
        if (rows.empty()) pbt::fail("the CSV output is empty");
        std::vector<std::string> head;
        static const char *const cn[] = {"Component0", "G", "The \"B\", component", "Component3"};
        if (tr.componentNames.size() != 4 || tr.componentEvents.size() != 4)
            pbt::fail("%zu component names and %zu component event lists, 4 components", tr.componentNames.size(),
                tr.componentEvents.size());
        for (std::string n : {std::string("Transaction"), std::string("Metadata"), std::string(cn[0]), std::string(cn[1]),
                 std::string(cn[2]), std::string(cn[3])})
            for (const char *what : {" Event", " Thread Id", " TimeNs"})
                head.push_back(n + what);
        if (rows[0] != head) pbt::fail("CSV header is\n%s\nexpected\n%s", joined(rows[0]).c_str(), joined(head).c_str());
        std::vector<Events> lists = {tr.transactionEvents, tr.metadataEvents};
        for (auto &e : tr.componentEvents)
            lists.push_back(e);
        std::vector<size_t> seen(lists.size(), 0);
        for (size_t row = 0; row + 1 < rows.size(); row++) {
            auto &f = rows[row + 1];
            if (f.size() != 3 * lists.size())
                pbt::fail("CSV row %zu has %zu fields: %s", row, f.size(), joined(f).c_str());
            for (size_t l = 0; l < lists.size(); l++) {
                bool none = f[3 * l].empty() && f[3 * l + 1].empty() && f[3 * l + 2].empty();
                if (row >= lists[l].size()) {
                    if (!none)
                        pbt::fail("CSV row %zu, list %zu: an event that was not recorded: %s", row, l, joined(f).c_str());
                    continue;
                }
                const Ev &e = lists[l][row];
                std::string who;
                if (names.count(e.thread)) {
                    who = names[e.thread];
                } else {
                    std::ostringstream o;
                    o << e.thread;
                    who = o.str();
                }
                std::string when = std::to_string(
                    std::chrono::duration_cast<std::chrono::nanoseconds>(e.time.time_since_epoch()).count());
                if (f[3 * l] != typeName[(size_t)e.type] || f[3 * l + 1] != who || f[3 * l + 2] != when)
                    pbt::fail("CSV row %zu, list %zu is %s,%s,%s, recorded was %s,%s,%s", row, l, f[3 * l].c_str(),
                        f[3 * l + 1].c_str(), f[3 * l + 2].c_str(), typeName[(size_t)e.type], who.c_str(), when.c_str());
                seen[l]++;
            }
        }
        for (size_t l = 0; l < lists.size(); l++)
            if (seen[l] != lists[l].size())
                pbt::fail("CSV list %zu has %zu of %zu events", l, seen[l], lists[l].size());
        pbt::count("CSV rows", rows.size() - 1);
    }

    void genSchedule(pbt::Src &s, sched::Config &c) {
        size_t m = s.weighted({4, 5, 2});
        c.mode = (int)m;
        c.seed = s.below(0) | 1;
        if (m == sched::MODE_LIST) {
            c.npreempt = (int)s.below(12);
            for (int i = 0; i < c.npreempt; i++) {
                s.mark();
                c.gap[i] = (uint32_t)s.below(1u << (1 + s.below(8)));
                c.target[i] = (uint32_t)s.below(8);
            }
        } else if (m == sched::MODE_RANDOM) {
            static const uint32_t p[] = {16, 4, 32, 64, 128};
            c.switchNum = p[s.below(5)];
        } else {
            c.npreempt = 1 + (int)s.below(6);
            for (int i = 0; i < c.npreempt; i++)
                c.gap[i] = (uint32_t)s.below(600);
        }
        static const uint32_t sp[] = {0, 0, 16, 64};
        c.spuriousNum = sp[s.below(4)];
    }

    // Runs generated threads to their end
    void runThreads(pbt::Src &s, unsigned maxTx) {
        static const int busy[] = {1, 7, 9, 10, 11, 4, 6, 17};
        size_t n = 1 + s.below(5);
        bool hot = s.chance(1, 2);
        bool longRun = pbt::paramInt("long", 0);
        if (longRun) n = 1 + s.below(2); // far more events than the capacity
        th.clear();
        th.resize(n);
        for (auto &t : th) {
            size_t m = longRun ? 0 : 1 + s.below(maxTx);
            if (longRun) {
                for (size_t i = 0, many = 17000 + s.below(17000); i < many; i++) {
                    TxS x;
                    x.kind = i % 2 ? 7 : (int)(i % 3);
                    if (i % 5 == 0) x.ops.push_back(OpS{1, 0});
                    t.todo.push_back(x);
                }
            }
            for (size_t i = 0; i < m; i++) {
                s.mark();
                TxS x;
                x.kind = hot ? busy[s.below(8)] : (int)s.below(NKINDS);
                x.nested = s.chance(1, 12);
                if (s.chance(1, 10)) x.keep = (int)s.below(3);
                for (size_t k = s.below(4); k > 0; k--)
                    x.ops.push_back(OpS{(unsigned)s.weighted({3, 5, 2, 2, 1}), (unsigned)s.below(256)});
                t.todo.push_back(x);
            }
        }
        sched::Config c;
        genSchedule(s, c);
        if (longRun) {
            c.mode = sched::MODE_LIST;
            c.npreempt = 0;
            c.fairAfter = c.giveUpAfter = 1u << 30;
        }
        sched::reset(c);
        for (size_t i = 0; i < n; i++)
            sched::spawn(worker, (void *)(intptr_t)i);
        sched::run(onStuck);
    }
} // namespace

void pbt_init() {}

void pbt_case(pbt::Src &s) {
    waits = rollbacks = truncations = commits = 0;
    nextValue = 1;
    ECS world;
    ecs = &world;
    {
        Tx *t = cw::start(world, 1);
        e0 = t->create();
        for (int k = 0; k < 3; k++)
            t->set(e0, k, nextValue++, 0);
        t->gSet(nextValue++, 0);
        t->dropMain();
        delete t;
    }
    unsigned rounds = 1 + (unsigned)s.weighted({5, 3, 1});
    size_t events = 0, multi = 0;
    for (unsigned r = 0; r < rounds; r++) {
        if (s.chance(1, 4)) {
            PLOG("untraced transactions");
            runThreads(s, 2);
        }
        PLOG("trace %u", r);
        world.StartTrace();
        bool again = s.chance(1, 6);
        if (again) {
            bool threw = false;
            try {
                world.StartTrace();
            } catch (const std::runtime_error &) {
                threw = true;
            }
            if (!threw) pbt::fail("starting a second trace does not throw");
        }
        runThreads(s, CAP < 100 ? 5 : 8);
        Tecs::PerformanceTrace tr = world.StopTrace();
        match(tr.transactionEvents, "transactions", -1);
        automaton(tr.metadataEvents, "metadata");
        match(tr.metadataEvents, "metadata", rM);
        if (tr.componentEvents.size() != 4) pbt::fail("%zu component event lists", tr.componentEvents.size());
        static const int order[4] = {rA, rG, rB, rC};
        for (int i = 0; i < 4; i++) {
            automaton(tr.componentEvents[i], resName[order[i]]);
            match(tr.componentEvents[i], resName[order[i]], order[i]);
            events += tr.componentEvents[i].size();
        }
        events += tr.metadataEvents.size() + tr.transactionEvents.size();
        if (th.size() > 1) multi++;
        if (s.chance(1, 3)) csv(s, tr);
        if (s.chance(1, 6)) {
            // untraced transactions after the end change nothing in the trace
            std::vector<Ev> before(tr.metadataEvents.begin(), tr.metadataEvents.end());
            runThreads(s, 2);
            for (size_t i = 0; i < before.size(); i++)
                if (before[i].type != tr.metadataEvents[i].type || before[i].time != tr.metadataEvents[i].time ||
                    before[i].thread != tr.metadataEvents[i].thread)
                    pbt::fail("the trace changed after it was stopped");
        }
    }
    if (waits) pbt::label("waits recorded");
    if (rollbacks) pbt::label("acquisitions given back");
    if (truncations) pbt::label("more events than the capacity");
    if (commits) pbt::label("commits recorded");
    pbt::count("events", events);
    if ((multi || pbt::paramInt("long", 0)) && commits && (waits || rollbacks || truncations)) pbt::nontrivial();
    ecs = nullptr;
    th.clear();
}
