// C25: growth up to the last representable entity index, and beyond. Built with 16-bit indexes and several batch sizes.
#include <Tecs.hh>

#include <algorithm>
#include <memory>
#include <optional>
#include <unordered_map>
#include <vector>

#include "pbt.hh"

using Tecs::AddRemove;
using Tecs::Entity;
using Tecs::ReadAll;
using Tecs::WriteAll;

struct XA {
    uint32_t v = 0;
};
struct XB {
    uint64_t v = 0;
};
struct XG {
    uint32_t v = 0;
};
TECS_GLOBAL_COMPONENT(XG);
using World = Tecs::ECS<XA, XG, XB>;
using Index = TECS_ENTITY_INDEX_TYPE;
static constexpr uint64_t INDEXES = (uint64_t)std::numeric_limits<Index>::max() + 1;
static constexpr uint64_t BATCH = TECS_ENTITY_ALLOCATION_BATCH_SIZE;
// whole batches that fit below the largest index value
static constexpr uint64_t SURE = (INDEXES - 1) / BATCH * BATCH;

namespace {
    struct Live {
        Entity e;
        int64_t a = -1, b = -1;
    };

    struct Case {
        pbt::Src &s;
        World w;
        std::vector<Live> live;
        std::vector<Entity> dead; // some of the destroyed handles
        std::vector<uint32_t> generationOf; // last generation handed out per index
        uint64_t freeNow = 0, freeLater = 0, allocated = 0;
        bool lenient = false; // indexes beyond the whole batches were handed out
        uint64_t next = 1, thrown = 0, created = 0, destroyed = 0, afterThrow = 0;
        int64_t global = -1;
        bool tooOld = false;
        std::vector<uint8_t> used; // index is held by a living entity, or was destroyed in this transaction

        Case(pbt::Src &s) : s(s), generationOf(INDEXES, 0), used(INDEXES, 0) {}

        // One creation; returns false when it threw
        bool create(const Tecs::Lock<World, AddRemove> &tx, bool want) {
            Entity e;
            try {
                e = tx.NewEntity();
            } catch (const std::runtime_error &) {
                thrown++;
                if (!lenient && (freeNow > 0 || allocated + BATCH <= INDEXES - 1))
                    pbt::fail("creating an entity throws with %llu indexes free and %llu of %llu allocated",
                        (unsigned long long)freeNow, (unsigned long long)allocated, (unsigned long long)SURE);
                return false;
            }
            created++;
            if (thrown) afterThrow++;
            if (!e) pbt::fail("a new entity is null");
            if (e.index >= INDEXES) pbt::fail("index %llu", (unsigned long long)e.index);
            if (used[e.index])
                pbt::fail("a new entity %s has the index of an entity that is alive (%zu alive)", std::to_string(e).c_str(),
                    live.size());
            used[e.index] = 1;
            uint32_t g = Tecs::GenerationWithoutIdentifier(e.generation);
            if (g <= generationOf[e.index])
                pbt::fail("index %llu: generation %u after %u", (unsigned long long)e.index, g, generationOf[e.index]);
            generationOf[e.index] = g;
            if (g > 200) tooOld = true;
            if (freeNow > 0) {
                freeNow--;
            } else {
                if (allocated + BATCH > INDEXES - 1) lenient = true;
                allocated += BATCH;
                freeNow += BATCH - 1;
            }
            if (e.Has<XA>(tx) || e.Has<XB>(tx) || !e.Exists(tx)) pbt::fail("a new entity has components or does not exist");
            Live l;
            l.e = e;
            if (want) {
                l.a = (int64_t)(next++ & 0x7fffffff);
                e.Set<XA>(tx, XA{(uint32_t)l.a});
            }
            if (next % 5 == 0) {
                l.b = (int64_t)next++;
                e.Set<XB>(tx, XB{(uint64_t)l.b});
            }
            live.push_back(l);
            return true;
        }

        template<typename LockT>
        void checkOne(const LockT &l, const Live &x) {
            if (!x.e.Exists(l)) pbt::fail("%s does not exist any more (%zu alive)", std::to_string(x.e).c_str(), live.size());
            if (x.e.template Has<XA>(l) != (x.a >= 0) || x.e.template Has<XB>(l) != (x.b >= 0))
                pbt::fail("%s: component presence changed", std::to_string(x.e).c_str());
            if (x.a >= 0) {
                const XA &a = x.e.template Get<const XA>(l);
                if (a.v != (uint32_t)x.a)
                    pbt::fail("%s: value %u, expected %lld", std::to_string(x.e).c_str(), a.v, (long long)x.a);
            }
            if (x.b >= 0) {
                const XB &b = x.e.template Get<const XB>(l);
                if (b.v != (uint64_t)x.b)
                    pbt::fail("%s: value %llu, expected %lld", std::to_string(x.e).c_str(), (unsigned long long)b.v,
                        (long long)x.b);
            }
        }

        template<typename LockT>
        void check(const LockT &l, bool all) {
            if (all) {
                for (auto &x : live)
                    checkOne(l, x);
                size_t n = 0, na = 0, wantA = 0;
                for (auto e : l.Entities())
                    n += (bool)e;
                for (auto e : l.template EntitiesWith<XA>())
                    na += (bool)e;
                for (auto &x : live)
                    wantA += x.a >= 0;
                if (n != live.size() || na != wantA)
                    pbt::fail("%zu entities listed of %zu, %zu with A of %zu", n, live.size(), na, wantA);
            } else if (!live.empty()) {
                for (int k = 0; k < 40; k++)
                    checkOne(l, live[s.below(live.size())]);
                checkOne(l, live.front());
                checkOne(l, live.back());
            }
            for (auto &e : dead)
                if (e.Exists(l)) pbt::fail("%s exists although it was destroyed", std::to_string(e).c_str());
            if (l.template Has<XG>() != (global >= 0)) pbt::fail("the global component's presence changed");
            if (global >= 0) {
                const XG &g = l.template Get<const XG>();
                if (g.v != (uint32_t)global) pbt::fail("global value %u, expected %lld", g.v, (long long)global);
            }
        }

        void destroy(const Tecs::Lock<World, AddRemove> &tx, size_t i) {
            Entity e = live[i].e;
            e.Destroy(tx);
            if (e.Exists(tx)) pbt::fail("%s exists right after it was destroyed", std::to_string(e).c_str());
            if (dead.size() < 400 || s.chance(1, 50)) dead.push_back(e);
            live[i] = live.back();
            live.pop_back();
            freeLater++;
            destroyed++;
        }

        uint64_t room() {
            return freeNow + (SURE > allocated ? SURE - allocated : 0);
        }

        void addRemove(bool last) {
            auto tx = w.StartTransaction<AddRemove>();
            int steps = 1 + (int)s.below(4);
            std::vector<Index> freed;
            for (int k = 0; k < steps && !tooOld; k++) {
                s.mark();
                switch (s.weighted({3, 4, 4, 3, 2, 1})) {
                case 0: { // a few
                    uint64_t n = 1 + s.below(30);
                    PLOG("  create %llu\n", (unsigned long long)n);
                    while (n-- && create(tx, s.chance(1, 2))) {}
                    break;
                }
                case 1: { // up to about the limit
                    uint64_t r = room();
                    uint64_t n = s.chance(1, 3) ? r / (2 + s.below(4)) : r > 20 ? r - s.below(20) : r;
                    bool sparse = s.chance(1, 2);
                    PLOG("  create %llu of %llu possible\n", (unsigned long long)n, (unsigned long long)r);
                    for (uint64_t i = 0; i < n; i++)
                        if (!create(tx, sparse ? i % 9 == 0 : i % 2 == 0)) pbt::fail("creation %llu of %llu throws", (unsigned long long)i, (unsigned long long)n);
                    break;
                }
                case 2: { // until it throws, and again
                    PLOG("  create until it throws\n");
                    uint64_t n = 0;
                    while (create(tx, n % 3 == 0))
                        if (++n > INDEXES + BATCH) pbt::fail("creation never throws");
                    size_t before = live.size();
                    int again = 1 + (int)s.below(3);
                    for (int i = 0; i < again; i++)
                        if (!lenient && create(tx, true)) pbt::fail("creation works again although nothing was destroyed");
                    if (live.size() != before) break;
                    check(tx, s.chance(1, 4));
                    break;
                }
                case 3: { // destroy
                    if (live.empty()) break;
                    size_t n = s.chance(1, 8) ? live.size() : s.chance(1, 3) ? live.size() / 2 : 1 + s.below(std::min<size_t>(live.size(), 50));
                    bool lastOnes = s.chance(1, 2);
                    PLOG("  destroy %zu\n", n);
                    for (size_t i = 0; i < n; i++) {
                        size_t at = lastOnes ? live.size() - 1 : s.below(live.size());
                        freed.push_back(live[at].e.index);
                        destroy(tx, at);
                    }
                    break;
                }
                case 4: { // change some values
                    if (live.empty()) break;
                    PLOG("  change values\n");
                    for (int i = 0; i < 20; i++) {
                        auto &x = live[s.below(live.size())];
                        x.a = (int64_t)(next++ & 0x7fffffff);
                        x.e.Set<XA>(tx, XA{(uint32_t)x.a});
                    }
                    break;
                }
                case 5:
                    global = (int64_t)(next++ & 0x7fffffff);
                    tx.Set<XG>(XG{(uint32_t)global});
                    break;
                }
            }
            check(tx, s.chance(1, 6));
            for (auto i : freed)
                used[i] = 0;
            freeNow += freeLater;
            freeLater = 0;
        }
    };
} // namespace

void pbt_init() {}

void pbt_case(pbt::Src &s) {
    Case c(s);
    int rounds = 1 + (int)s.below(6);
    for (int r = 0; r < rounds && !c.tooOld; r++) {
        s.mark();
        PLOG("transaction %d\n", r);
        c.addRemove(r + 1 == rounds);
        bool all = r + 1 == rounds || s.chance(1, 3);
        if (s.chance(1, 3)) {
            auto tx = c.w.StartTransaction<WriteAll>();
            c.check(tx, all);
            if (!c.live.empty()) {
                auto &x = c.live[s.below(c.live.size())];
                if (x.a >= 0) {
                    x.a = (int64_t)(c.next++ & 0x7fffffff);
                    x.e.Set<XA>(tx, XA{(uint32_t)x.a});
                }
            }
        } else {
            auto tx = c.w.StartTransaction<ReadAll>();
            c.check(tx, all);
        }
    }
    if (c.thrown) pbt::label("exhausted");
    if (c.afterThrow) pbt::label("created again after exhaustion");
    if (c.destroyed && c.thrown) pbt::label("exhausted with destructions");
    pbt::count("entities created", c.created);
    pbt::count("creations that threw", c.thrown);
    if (c.thrown && (c.afterThrow || BATCH > INDEXES - 1)) pbt::nontrivial();
}
