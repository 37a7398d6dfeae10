// C17: when starting a transaction must throw, and transaction ids.
// Real threads, driven one operation at a time; every lock that a thread would have to wait for would be waited for ever,
// which the atomics' wrapper reports. Profiles: main (a lock lives on the thread that started its transaction),
// handoff=1 (a fixed history in which the last lock of a transaction is released by another thread).
#include "pbt.hh"
#include "shim.hh"

using Tecs::AddRemove;
using Tecs::Entity;
using Tecs::Read;
using Tecs::ReadAll;
using Tecs::Write;
using Tecs::WriteAll;

struct NA {
    NA(uint32_t v = 0) : v(v) {}
    uint32_t v;
};
struct NG {
    NG(uint32_t v = 0) : v(v) {}
    uint32_t v;
};
TECS_GLOBAL_COMPONENT(NG);
using World = Tecs::ECS<NA, NG>;
static constexpr size_t LIMIT = TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD;

namespace verif {
    void resetYields();
}

namespace {
    template<typename... P>
    using L = Tecs::Lock<World, P...>;

    struct Box {
        virtual ~Box() {}
        virtual size_t id() const = 0;
        virtual long useCount() const = 0;
        virtual bool canRead() const = 0;
        virtual uint32_t get(Entity e) const = 0;
        virtual void set(Entity e, uint32_t v) const = 0;
        virtual Box *copy(int how) const = 0;
    };

    template<typename LockT>
    struct BoxOf : Box {
        BoxOf(const LockT &l) : lock(l) {}
        BoxOf(World &w, bool direct) : lock(direct ? LockT(w) : start(w, (LockT *)nullptr)) {}
        template<typename... P>
        static L<P...> start(World &w, L<P...> *) {
            return w.StartTransaction<P...>();
        }
        size_t id() const override {
            return lock.GetTransactionId();
        }
        long useCount() const override {
            return lock.UseCount();
        }
        bool canRead() const override {
            return Tecs::is_read_allowed<NA, LockT>();
        }
        uint32_t get(Entity e) const override {
            if constexpr (Tecs::is_read_allowed<NA, LockT>()) return e.Get<const NA>(lock).v;
            return 0;
        }
        void set(Entity e, uint32_t v) const override {
            if constexpr (Tecs::is_write_allowed<NA, LockT>()) e.Set<NA>(lock, v);
            if constexpr (Tecs::is_write_allowed<NG, LockT>() && Tecs::is_add_remove_allowed<LockT>())
                lock.template Set<NG>(v);
        }
        Box *copy(int how) const override {
            switch (how) {
            case 0:
                return new BoxOf<LockT>(lock);
            case 1:
                return new BoxOf<L<>>(L<>(lock));
            case 2: {
                auto ro = lock.ReadOnlySubset();
                return new BoxOf<decltype(ro)>(ro);
            }
            default: {
                Tecs::DynamicLock<World> d(lock);
                auto r = d.template TryLock<Read<NA>>();
                if (r) return new BoxOf<L<Read<NA>>>(*r);
                return new BoxOf<L<>>(d);
            }
            }
        }
        LockT lock;
    };

    // kinds of transaction
    enum { K_NONE, K_READ_A, K_READ_ALL, K_WRITE_A, K_WRITE_ALL, K_WRITE_G, K_ADD_REMOVE, NKIND };
    const char *const KNAME[NKIND] = {"<>", "Read<A>", "ReadAll", "Write<A>", "WriteAll", "Write<G>", "AddRemove"};
    bool writes(int k) {
        return k >= K_WRITE_A;
    }
    bool writesA(int k) {
        return k >= K_WRITE_A && k != K_WRITE_G;
    }
    Box *start(World &w, int kind, bool direct) {
        switch (kind) {
        case K_NONE:
            return new BoxOf<L<>>(w, direct);
        case K_READ_A:
            return new BoxOf<L<Read<NA>>>(w, direct);
        case K_READ_ALL:
            return new BoxOf<L<ReadAll>>(w, direct);
        case K_WRITE_A:
            return new BoxOf<L<Write<NA>>>(w, direct);
        case K_WRITE_ALL:
            return new BoxOf<L<WriteAll>>(w, direct);
        case K_WRITE_G:
            return new BoxOf<L<Write<NG>>>(w, direct);
        default:
            return new BoxOf<L<AddRemove>>(w, direct);
        }
    }

    // A real thread that runs one function at a time
    struct Worker {
        std::mutex m;
        std::condition_variable cv;
        std::function<void()> job;
        bool busy = false, stop = false;
        std::thread t;
        Worker() : t([this] { loop(); }) {}
        ~Worker() {
            {
                std::unique_lock<std::mutex> l(m);
                stop = true;
            }
            cv.notify_all();
            t.join();
        }
        void loop() {
            std::unique_lock<std::mutex> l(m);
            while (true) {
                cv.wait(l, [&] { return stop || busy; });
                if (!busy) return;
                job();
                busy = false;
                cv.notify_all();
            }
        }
        void run(std::function<void()> f) {
            std::unique_lock<std::mutex> l(m);
            job = std::move(f);
            busy = true;
            cv.notify_all();
            cv.wait(l, [&] { return !busy; });
        }
    };

    struct Tx {
        int instance, kind;
        size_t id;
        bool changed = false;
        uint32_t pending = 0;  // value in this transaction
        uint32_t previous = 0; // committed value when it started
        struct Ref {
            std::unique_ptr<Box> box;
            bool readOnly; // derived from ReadOnlySubset: reads the previous value
        };
        std::vector<Ref> refs;
    };
    struct Instance {
        std::unique_ptr<World> world;
        Entity e;
        uint32_t value = 0;
    };

    struct Case {
        std::vector<std::unique_ptr<Worker>> workers;
        std::vector<Instance> inst;
        std::vector<std::vector<Tx>> active; // per thread
        std::vector<size_t> lastId;
        std::set<size_t> ids;
        uint32_t nextValue = 1;
        int nestedFailures = 0, limitFailures = 0, ends = 0, restarts = 0;
        size_t most = 0;

        void newId(size_t t, size_t id) {
            if (!ids.insert(id).second) pbt::fail("transaction id %zu is used twice", id);
            if (id <= lastId[t]) pbt::fail("thread %zu: transaction id %zu after %zu", t, id, lastId[t]);
            lastId[t] = id;
        }

        size_t addInstance(size_t t, pbt::Src *s = nullptr) {
            // the entity's start value is committed by a transaction of thread t
            Instance i;
            i.world = std::make_unique<World>();
            if (s && !inst.empty() && s->chance(1, 2)) {
                // instances come and go until a new one shares the (one byte) instance id of an old one
                auto want = inst[s->below(inst.size())].world->GetInstanceId();
                for (int k = 0; k < 300 && i.world->GetInstanceId() != want; k++)
                    i.world = std::make_unique<World>();
                pbt::label("instances with the same id byte");
            }
            uint32_t v = nextValue++;
            size_t id = 0;
            workers[t]->run([&] {
                auto tx = i.world->StartTransaction<AddRemove>();
                i.e = tx.NewEntity();
                i.e.Set<NA>(tx, v);
                tx.Set<NG>(v);
                id = tx.GetTransactionId();
            });
            i.value = v;
            newId(t, id);
            inst.push_back(std::move(i));
            return inst.size() - 1;
        }

        Tx *find(size_t t, int instance) {
            for (auto &x : active[t])
                if (x.instance == instance) return &x;
            return nullptr;
        }

        // Would this transaction have to wait for another thread's, now or at its end?
        bool conflicts(size_t t, int instance, int kind) {
            for (size_t o = 0; o < active.size(); o++) {
                if (o == t) continue;
                Tx *x = find(o, instance);
                if (!x) continue;
                if (x->changed) return true;
                if (writes(x->kind) && writes(kind)) return true;
            }
            return false;
        }
        bool othersActive(size_t t, int instance) {
            for (size_t o = 0; o < active.size(); o++)
                if (o != t && find(o, instance)) return true;
            return false;
        }

        void tryStart(size_t t, int instance, int kind, bool direct) {
            bool nested = find(t, instance) != nullptr, full = active[t].size() >= LIMIT;
            bool bad = nested || full;
            if (!bad && conflicts(t, instance, kind)) kind = K_NONE;
            if (!bad && conflicts(t, instance, kind)) return;
            PLOG("  thread %zu starts %s on instance %d%s\n", t, KNAME[kind], instance,
                nested ? ": nested, must throw" : full ? ": too many, must throw" : "");
            Box *b = nullptr;
            bool threw = false;
            std::string what;
            workers[t]->run([&] {
                try {
                    b = start(*inst[instance].world, kind, direct);
                } catch (const std::runtime_error &e) {
                    threw = true;
                    what = e.what();
                }
            });
            if (threw && !bad)
                pbt::fail("thread %zu: starting %s on instance %d throws \"%s\" with %zu active transactions, none on that instance",
                    t, KNAME[kind], instance, what.c_str(), active[t].size());
            if (!threw && nested)
                pbt::fail("thread %zu: a nested %s transaction on instance %d does not throw", t, KNAME[kind], instance);
            if (!threw && full)
                pbt::fail("thread %zu: transaction number %zu does not throw (limit %zu)", t, active[t].size() + 1, LIMIT);
            if (nested) nestedFailures++;
            if (full && !nested) limitFailures++;
            if (bad) return;
            Tx x;
            x.instance = instance;
            x.kind = kind;
            x.pending = x.previous = inst[instance].value;
            x.id = b->id();
            newId(t, x.id);
            x.refs.push_back(Tx::Ref{std::unique_ptr<Box>(b), false});
            active[t].push_back(std::move(x));
            most = std::max(most, active[t].size());
            look(t, active[t].back());
        }

        void look(size_t t, Tx &x) {
            size_t k = 0;
            for (auto &r : x.refs) {
                if (r.box->id() != x.id)
                    pbt::fail("a lock of transaction %zu reports transaction id %zu", x.id, r.box->id());
                if (r.box->useCount() != (long)x.refs.size())
                    pbt::fail("%zu locks of a transaction, use count %ld", x.refs.size(), r.box->useCount());
                if (r.box->canRead()) {
                    uint32_t v = 0, want = r.readOnly ? x.previous : x.pending;
                    Entity e = inst[x.instance].e;
                    workers[t]->run([&] { v = r.box->get(e); });
                    if (v != want)
                        pbt::fail("thread %zu reads %u from instance %d through lock %zu, expected %u", t, v, x.instance, k, want);
                }
                k++;
            }
        }

        void change(size_t t, Tx &x) {
            if (x.refs.empty() || x.refs[0].readOnly || !writesA(x.kind) || othersActive(t, x.instance)) return;
            Box *b = x.refs[0].box.get();
            if (dynamic_cast<BoxOf<L<>> *>(b) || dynamic_cast<BoxOf<L<Read<NA>>> *>(b)) return;
            uint32_t v = nextValue++;
            PLOG("  thread %zu changes instance %d\n", t, x.instance);
            Entity e = inst[x.instance].e;
            workers[t]->run([&] { b->set(e, v); });
            x.changed = true;
            x.pending = v;
        }

        void copyRef(pbt::Src &s, size_t t, Tx &x) {
            if (x.refs.size() >= 5) return;
            size_t k = s.below(x.refs.size());
            int how = (int)s.below(4);
            bool ro = x.refs[k].readOnly || how == 2;
            PLOG("  thread %zu copies lock %zu of its transaction on instance %d (%d)\n", t, k, x.instance, how);
            Box *b = nullptr;
            workers[t]->run([&] { b = x.refs[k].box->copy(how); });
            x.refs.push_back(Tx::Ref{std::unique_ptr<Box>(b), ro});
        }

        // Releases one lock; the transaction ends with its last one
        void release(size_t t, size_t a, size_t k) {
            Tx &x = active[t][a];
            Box *b = x.refs[k].box.release();
            x.refs.erase(x.refs.begin() + k);
            PLOG("  thread %zu releases a lock of its transaction on instance %d, %zu left\n", t, x.instance, x.refs.size());
            workers[t]->run([&] { delete b; });
            if (x.refs.empty()) {
                if (x.changed) inst[x.instance].value = x.pending;
                active[t].erase(active[t].begin() + a);
                ends++;
            }
        }
        void end(size_t t, size_t a) {
            while (true) {
                bool last = active[t][a].refs.size() == 1;
                release(t, a, active[t][a].refs.size() - 1);
                if (last) break;
            }
        }
    };

    // The last lock of a transaction is released by another thread than the one that started it.
    void handoff() {
        World w;
        Worker a, b;
        Box *l = nullptr;
        a.run([&] { l = start(w, K_READ_A, false); });
        b.run([&] { delete l; });
        std::string what;
        a.run([&] {
            try {
                auto tx = w.StartTransaction<Read<NA>>();
            } catch (const std::runtime_error &e) {
                what = e.what();
            }
        });
        if (!what.empty())
            pbt::fail("a transaction whose last lock was released by another thread has ended, but its own thread can't start "
                      "another one: %s",
                what.c_str());
    }
} // namespace

void pbt_init() {}

void pbt_case(pbt::Src &s) {
    verif::resetYields();
    if (pbt::paramInt("handoff", 0)) {
        handoff();
        return;
    }
    Case c;
    size_t nt = 1 + s.weighted({3, 4, 2});
    c.active.resize(nt);
    c.lastId.resize(nt);
    for (size_t i = 0; i < nt; i++)
        c.workers.push_back(std::make_unique<Worker>());
    size_t ni = 1 + s.below(4);
    for (size_t i = 0; i < ni; i++)
        c.addInstance(s.below(nt), i + 1 == ni && s.chance(1, 12) ? &s : nullptr);
    bool many = s.chance(1, LIMIT > 16 ? 6 : 2);
    s.stepsLeft = 70;
    bool endedSome = false;
    while (s.more(40)) {
        size_t t = s.below(nt);
        auto &mine = c.active[t];
        switch (s.weighted({10, 8, 6, 3, 4, 3, 2, 2, 1, 1})) {
        case 0: // start, anywhere
            c.tryStart(t, (int)s.below(c.inst.size()), (int)s.below(NKIND), s.chance(1, 3));
            break;
        case 1: // end a transaction
            if (mine.empty()) break;
            PLOG("  thread %zu ends a transaction\n", t);
            {
                size_t a = s.below(mine.size());
                int instance = mine[a].instance;
                c.end(t, a);
                endedSome = true;
                if (s.chance(1, 2)) {
                    // as soon as it has ended, another one can start on that instance
                    c.tryStart(t, instance, (int)s.below(NKIND), s.chance(1, 3));
                    c.restarts++;
                }
            }
            break;
        case 2: // a nested start
            if (mine.empty()) break;
            c.tryStart(t, mine[s.below(mine.size())].instance, (int)s.below(NKIND), s.chance(1, 3));
            break;
        case 3: // release one lock
            if (mine.empty()) break;
            {
                size_t a = s.below(mine.size());
                c.release(t, a, s.below(mine[a].refs.size()));
            }
            break;
        case 4:
            if (mine.empty()) break;
            c.copyRef(s, t, mine[s.below(mine.size())]);
            break;
        case 5:
            if (mine.empty()) break;
            c.look(t, mine[s.below(mine.size())]);
            break;
        case 6:
            if (mine.empty()) break;
            c.change(t, mine[s.below(mine.size())]);
            break;
        case 7: {
            // a transaction that ends because an exception leaves its scope
            int i = (int)s.below(c.inst.size());
            if (mine.size() >= LIMIT || c.find(t, i) || c.conflicts(t, i, K_WRITE_ALL)) break;
            PLOG("  thread %zu: a transaction on instance %d is left by an exception\n", t, i);
            size_t id = 0;
            bool nested = s.chance(1, 2);
            c.workers[t]->run([&] {
                try {
                    auto tx = c.inst[i].world->StartTransaction<WriteAll>();
                    id = tx.GetTransactionId();
                    if (nested) {
                        auto tx2 = c.inst[i].world->StartTransaction<AddRemove>();
                        (void)tx2;
                        id = 0;
                    }
                    throw std::runtime_error("left");
                } catch (const std::runtime_error &) {
                }
            });
            if (!id) pbt::fail("thread %zu: a nested transaction does not throw", t);
            c.newId(t, id);
            c.tryStart(t, i, (int)s.below(NKIND), false);
            c.restarts++;
            break;
        }
        case 8: // a burst of transactions, towards and beyond the limit
            if (!many) break;
            for (size_t k = s.below(LIMIT + 4); k > 0; k--) {
                size_t i = 0;
                while (i < c.inst.size() && c.find(t, (int)i))
                    i++;
                if (i == c.inst.size()) {
                    // a new instance, prepared by a thread with room for its transaction
                    size_t o = 0;
                    while (o < nt && c.active[o].size() >= LIMIT)
                        o++;
                    if (o == nt) break;
                    c.addInstance(o);
                }
                c.tryStart(t, (int)i, (int)s.below(NKIND), false);
            }
            break;
        case 9:
            if (c.inst.size() < 12) {
                size_t o = 0;
                while (o < nt && c.active[o].size() >= LIMIT)
                    o++;
                if (o < nt) c.addInstance(o, s.chance(1, 8) ? &s : nullptr);
            }
            break;
        }
    }
    // everything still works: look at all, end all in a generated order, then start everywhere again
    for (size_t t = 0; t < nt; t++)
        for (auto &x : c.active[t])
            c.look(t, x);
    while (true) {
        std::vector<size_t> busy;
        for (size_t t = 0; t < nt; t++)
            if (!c.active[t].empty()) busy.push_back(t);
        if (busy.empty()) break;
        size_t t = busy[s.below(busy.size())];
        c.end(t, s.below(c.active[t].size()));
    }
    size_t again = std::min<size_t>(c.inst.size(), LIMIT);
    for (size_t t = 0; t < nt; t++) {
        for (size_t i = 0; i < again; i++)
            c.tryStart(t, (int)i, (int)s.below(NKIND), false);
        while (!c.active[t].empty())
            c.end(t, s.below(c.active[t].size()));
    }
    if (c.nestedFailures) pbt::label("nested starts rejected");
    if (c.limitFailures) pbt::label("starts beyond the limit rejected");
    if (c.restarts) pbt::label("started again after the end");
    if (c.most == LIMIT) pbt::label("limit reached");
    pbt::count("rejected starts", c.nestedFailures + c.limitFailures);
    pbt::count("transactions", c.ids.size());
    if (c.nestedFailures + c.limitFailures > 0 && endedSome && c.most > 1) pbt::nontrivial();
    // workers end before the instances
    c.workers.clear();
}
