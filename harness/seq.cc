// Model-based state machine over whole transaction histories of one thread (several instances, nested transactions).
// The model is a plain map of entities to optional values, one committed copy and one current copy per instance.
#include "world.hh"

#include <unordered_map>
#include <unordered_set>

using namespace world;

// Only valid operations (C22): the program must be the same in every build configuration, and so must what it observes
static bool validOnly = false;
#ifdef TECS_UNCHECKED_MODE
#define CHECKED false
#else
#define CHECKED (!validOnly)
#endif
#ifdef TECS_HEADER_ONLY
static constexpr bool NEST_DETECT = false;
#else
static constexpr bool NEST_DETECT = true;
#endif

namespace {
    typedef unsigned long long ull;

    struct Profile {
        const char *name;
        // weights of the operations
        uint32_t wNew, wDestroy, wSet, wGetMut, wGetConst, wUnset, wQuery, wPrev, wList, wHeld, wGlobal, wDerive, wDrop,
            wObserve, wPoll, wAudit, wBulk, wIterate, wInvalid, wNested, wChurn;
        uint32_t meanTx, meanOps;
        uint32_t secondWorld; // chance of 16 of having two or three instances
        uint32_t invalidTargets; // chance of 64 of a null/stale/foreign/never-issued handle as operand
        bool manyInstances;      // start from arbitrary instance numbers
        bool strangers;          // instances of other types beside
    };
    // clang-format off
    const Profile profiles[] = {
        //            New Des Set GMu GCo Uns Que Pre Lst Hld Glo Der Drp Obs Pol Aud Blk Itr Inv Nst Chn
        {"core",       8,  5, 12,  6,  8,  7, 10,  2,  4,  2,  5,  6,  3,  0,  0,  5,  2,  3,  1,  1,  0,  5, 14, 2,  3, false, false},
        {"commit",     6,  4, 10,  5,  2,  6,  3,  1,  2,  0,  4,  1,  1,  0,  0,  3,  5,  2,  0,  1,  0, 10,  7, 2,  2, false, false},
        {"prev",       7,  5,  9,  5,  3,  7,  4, 14,  3,  1,  6, 10,  3,  0,  0,  6,  2,  2,  1,  0,  0,  5, 12, 2,  6, false, false},
        {"handles",   12, 10,  3,  1,  1,  2,  5,  1,  2,  0,  0,  1,  1,  0,  0,  4,  4,  2,  2,  0,  1,  9,  8, 4,  8, true, true},
        {"lists",      8,  7,  8,  3,  1, 10,  2,  1, 10, 10,  1,  2,  1,  0,  0,  4,  4, 10,  1,  0,  0,  5, 14, 2,  3, false, false},
        {"invalid",    7,  6,  6,  3,  3,  5,  3,  2,  2,  1,  4,  3,  1,  0,  0,  5,  1,  1, 14,  2,  0,  5, 12, 8, 24, true, true},
        {"events",     8,  7, 10,  5,  1,  8,  1,  0,  1,  0,  6,  1,  1,  4, 10,  2,  4,  2,  0,  0,  0,  8,  8, 2,  2, false, false},
        {"observers",  6,  4,  6,  2,  0,  4,  0,  0,  0,  0,  5,  1,  1, 14, 14,  1,  2,  1,  0,  0,  0,  9,  7, 4,  1, false, false},
        {"globals",    2,  2,  4,  1,  1,  2,  1,  1,  1,  0, 26,  4,  2,  2,  4,  5,  1,  1,  1,  0,  0,  9,  7, 2,  2, false, false},
        {"scope",      5,  3,  6,  3,  2,  3,  3,  2,  1,  1,  3, 14, 10,  0,  0,  3,  1,  1,  1, 10,  0,  8,  8, 6,  2, false, false},
        {"release",    6,  6, 12,  5,  0,  9,  0,  0,  0,  0,  8,  1,  1,  3,  3,  1,  4,  2,  0,  0,  0,  9,  8, 2,  1, false, false},
        {"multi",      7,  5,  7,  3,  3,  5,  4,  2,  3,  1,  4,  2,  1,  4,  5,  5,  1,  1,  5,  3,  0, 10,  6, 16, 16, true, true},
        {"valid",      7,  5, 10,  5,  5,  6,  5,  3,  4,  2,  6,  4,  2,  3,  5,  5,  4,  4,  0,  0,  0,  6, 10, 4,  4, false, true},
    };
    // clang-format on

    struct EntRec {
        Entity h;
        bool alive = false;
        uint8_t mask = 0;
        uint64_t val[3] = {0, 0, 0};
    };
    struct State {
        std::vector<EntRec> ents;
        uint8_t gmask = 0;
        uint64_t gval[2] = {0, 0};
    };
    struct MEvent {
        int type;
        uint64_t e;
        uint64_t v;
        bool operator==(const MEvent &o) const {
            return type == o.type && e == o.e && v == o.v;
        }
    };
    struct Obs {
        std::unique_ptr<IObserver> o;
        std::vector<std::unique_ptr<IObserver>> copies; // other handles of the same observer
        bool active = true;
        std::deque<std::vector<MEvent>> pending;
        int id = 0;
    };
    struct LockH {
        std::unique_ptr<ILock> l;
        bool ro = false;
    };
    struct Held {
        Tecs::EntityView view;
        int comp; // -1 all entities, else component
        bool prev;
        std::vector<Entity> expect;
    };
    struct Inst {
        int no = 0;
        std::unique_ptr<ECS> ecs;
        State committed, cur;
        bool active = false;
        int kind = 0;
        std::vector<LockH> locks;
        std::vector<Held> held;
        std::vector<Obs> obs;
        std::unordered_map<uint64_t, uint32_t> byHandle; // handle -> index in cur.ents
        std::unordered_set<uint64_t> issued;
        int commits = 0, arCommits = 0;
        int mutations = 0; // in this transaction
        bool changedMeta = false;
        size_t txid = 0;
    };

    const char *cname(int c) {
        static const char *n[] = {"A", "B", "C"};
        return n[c];
    }

    struct Machine {
        pbt::Src &s;
        const Profile &p;
        std::vector<std::unique_ptr<Inst>> insts;
        uint64_t nextId = 100;
        std::unordered_set<uint64_t> usedIds;
        std::vector<std::unique_ptr<IStranger>> strangers;
        int obsCounter = 0;
        bool large = false; // the first instance starts with about 2^15 or 2^16 entities
        // facts for the non-triviality rules
        int nTx = 0, nMut = 0, nQueryAfterMut = 0, nPrevAfterMut = 0, nReuse = 0, nRejected = 0, nEvents = 0,
            nHeldChanged = 0, nWalks = 0, nGlobalOps = 0, nScopeOps = 0, nReleased = 0, nObsOps = 0, nNestedTx = 0, nKindsMask = 0;

        Machine(pbt::Src &s, const Profile &p) : s(s), p(p) {}

        const char *hs(const Entity &e) {
            static char bufs[4][64];
            static int k = 0;
            char *b = bufs[k++ & 3];
            snprintf(b, 64, "(%llu,%llx)", (ull)e.index, (ull)e.generation);
            return b;
        }
        static unsigned compBit(int c) {
            return c == 0 ? cA : c == 1 ? cB : cC;
        }
        static unsigned globBit(int g) {
            return g == 0 ? cG1 : cG2;
        }

        // ------------------------------------------------------------------ checks
        const EntRec *lookup(const State &st, const Inst &w, const Entity &e) {
            auto it = w.byHandle.find((uint64_t)e);
            if (it == w.byHandle.end() || it->second >= st.ents.size()) return nullptr;
            const EntRec &r = st.ents[it->second];
            return r.alive ? &r : nullptr;
        }
        const State &seen(Inst &w, const LockH &l) {
            return l.ro ? w.committed : w.cur;
        }

        void checkBool(Inst &w, const LockH &l, const char *what, const Entity &e, unsigned mask, bool got, bool want) {
            pbt::digest(got);
            if (got != want)
                pbt::fail("%s of entity %s (components %x) through %s lock <%s> in transaction <%s>: library says %d, model says %d",
                    what, hs(e), mask, l.ro ? "read-only" : "ordinary", caps[l.l->type].name, caps[w.kind].name, got, want);
        }

        void queryEntity(Inst &w, const LockH &l, const Entity &e, unsigned mask) {
            const EntRec *r = lookup(seen(w, l), w, e);
            checkBool(w, l, "Exists", e, 0, l.l->exists(e), r != nullptr);
            checkBool(w, l, "Has", e, mask, l.l->has(e, mask), r && (r->mask & mask) == mask);
            if (w.mutations > 0) nQueryAfterMut++;
        }
        void queryPrev(Inst &w, const LockH &l, const Entity &e, unsigned mask) {
            const EntRec *r = lookup(w.committed, w, e);
            checkBool(w, l, "Existed", e, 0, l.l->existed(e), r != nullptr);
            checkBool(w, l, "Had", e, mask, l.l->had(e, mask), r && (r->mask & mask) == mask);
            if (w.mutations > 0) nPrevAfterMut++;
        }
        void expectRes(Inst &w, const LockH &l, const char *op, const Entity &e, const char *comp, const Res &r, bool ok,
            uint64_t want) {
            if (r.st == NOT_ALLOWED) return;
            if (r.st == OTHER_EXCEPTION)
                pbt::fail("%s<%s> on %s threw something that is not a std::runtime_error: %s", op, comp, hs(e), r.what.c_str());
            if (ok && r.st == THREW)
                pbt::fail("%s<%s> on valid entity %s through <%s> in transaction <%s> threw: %s", op, comp, hs(e),
                    caps[l.l->type].name, caps[w.kind].name, r.what.c_str());
            if (!ok && r.st == OK)
                pbt::fail("%s<%s> on %s (not a valid access) through <%s> in transaction <%s> did not throw (returned %llu)", op,
                    comp, hs(e), caps[l.l->type].name, caps[w.kind].name, (ull)r.v);
            if (ok && r.v != want)
                pbt::fail("%s<%s> on %s through %s<%s> in transaction <%s>: library returned %llu, model says %llu", op, comp,
                    hs(e), l.ro ? "read-only " : "", caps[l.l->type].name, caps[w.kind].name, (ull)r.v, (ull)want);
            if (ok) pbt::digest(r.v);
            if (!ok) nRejected++;
        }
        void readValue(Inst &w, const LockH &l, const Entity &e, int c) {
            if (!(caps[l.l->type].read & compBit(c))) return;
            const EntRec *r = lookup(seen(w, l), w, e);
            bool ok = r && (r->mask & (1u << c));
            if (!ok && !CHECKED) return;
            expectRes(w, l, "Get<const>", e, cname(c), l.l->getConst(e, c), ok, ok ? r->val[c] : 0);
            if (w.mutations > 0) nQueryAfterMut++;
        }
        void readPrev(Inst &w, const LockH &l, const Entity &e, int c) {
            if (!(caps[l.l->type].read & compBit(c))) return;
            const EntRec *r = lookup(w.committed, w, e);
            bool ok = r && (r->mask & (1u << c));
            if (!ok && !CHECKED) return;
            expectRes(w, l, "GetPrevious", e, cname(c), l.l->getPrevious(e, c), ok, ok ? r->val[c] : 0);
            if (w.mutations > 0) nPrevAfterMut++;
        }
        void checkGlobals(Inst &w, const LockH &l, bool prevToo) {
            const State &st = seen(w, l);
            for (unsigned m = 1; m <= 3; m++) {
                bool got = l.l->gHas(m), want = (st.gmask & m) == m;
                pbt::digest(got);
                if (got != want)
                    pbt::fail("Has of global components %x through %s<%s> in <%s>: library %d, model %d", m,
                        l.ro ? "read-only " : "", caps[l.l->type].name, caps[w.kind].name, got, want);
                got = l.l->gHad(m), want = (w.committed.gmask & m) == m;
                if (got != want)
                    pbt::fail("Had of global components %x through <%s> in <%s>: library %d, model %d", m,
                        caps[l.l->type].name, caps[w.kind].name, got, want);
            }
            for (int g = 0; g < 2; g++) {
                if (!(caps[l.l->type].read & globBit(g))) continue;
                bool ok = st.gmask & (1 << g);
                if (ok || CHECKED)
                    expectRes(w, l, "Get<const>", Entity(), g ? "G2" : "G1", l.l->gGetConst(g), ok, st.gval[g]);
                if (!prevToo) continue;
                ok = w.committed.gmask & (1 << g);
                if (ok || CHECKED)
                    expectRes(w, l, "GetPrevious", Entity(), g ? "G2" : "G1", l.l->gGetPrevious(g), ok, w.committed.gval[g]);
            }
        }

        std::vector<uint32_t> seenStamp;
        uint32_t stamp = 0;
        void checkList(Inst &w, const LockH &l, const Tecs::EntityView &v, int comp, bool prev, const State &st) {
            size_t want = 0;
            for (auto &r : st.ents)
                if (r.alive && (comp < 0 || (r.mask & (1u << comp)))) want++;
            stamp++;
            if (seenStamp.size() < w.cur.ents.size()) seenStamp.resize(w.cur.ents.size() + 16, 0);
            size_t got = 0;
            for (const Entity &e : v) {
                if (!e) continue;
                auto it = w.byHandle.find((uint64_t)e);
                const EntRec *r = lookup(st, w, e);
                if (!r || (comp >= 0 && !(r->mask & (1u << comp))))
                    pbt::fail("%s list of %s through <%s> in <%s> contains %s, which does not match", prev ? "previous" : "current",
                        comp < 0 ? "all entities" : cname(comp), caps[l.l->type].name, caps[w.kind].name, hs(e));
                if (seenStamp[it->second] == stamp)
                    pbt::fail("%s list of %s through <%s> in <%s> contains %s twice", prev ? "previous" : "current",
                        comp < 0 ? "all entities" : cname(comp), caps[l.l->type].name, caps[w.kind].name, hs(e));
                seenStamp[it->second] = stamp;
                pbt::digest(it->second);
                got++;
            }
            pbt::digest(got);
            pbt::digest(v.size());
            if (got != want)
                pbt::fail("%s list of %s through %s<%s> in <%s> has %zu matching entities, model says %zu", prev ? "previous" : "current",
                    comp < 0 ? "all entities" : cname(comp), l.ro ? "read-only " : "", caps[l.l->type].name, caps[w.kind].name,
                    got, want);
        }
        Tecs::EntityView listOf(const LockH &l, int comp, bool prev) {
            if (comp < 0) return prev ? l.l->previousEntities() : l.l->entities();
            return prev ? l.l->previousEntitiesWith(comp) : l.l->entitiesWith(comp);
        }
        void checkHeld(Inst &w) {
            for (auto &h : w.held) {
                if (h.view.size() != h.expect.size())
                    pbt::fail("a held entity list changed its size from %zu to %zu", h.expect.size(), (size_t)h.view.size());
                size_t i = 0;
                for (const Entity &e : h.view) {
                    if (e != h.expect[i])
                        pbt::fail("entry %zu of a held %s list of %s changed: expected %s, is %s", i, h.prev ? "previous" : "current",
                            h.comp < 0 ? "all entities" : cname(h.comp), hs(h.expect[i]), hs(e));
                    i++;
                }
            }
        }
        void heldRemove(Inst &w, int comp, const Entity &e) {
            for (auto &h : w.held)
                if (!h.prev && h.comp == comp)
                    for (auto &x : h.expect)
                        if (x == e) {
                            x = Entity();
                            nHeldChanged++;
                        }
        }

        // Compares everything visible through a lock with the model
        void audit(Inst &w, const LockH &l, bool prevToo, size_t limit) {
            const State &st = w.cur;
            size_t n = st.ents.size();
            size_t stepBy = n > limit ? n / limit + 1 : 1;
            size_t off = stepBy > 1 ? s.below(stepBy > 256 ? 256 : stepBy) : 0;
            for (size_t i = off; i < n; i += stepBy) {
                const Entity &e = st.ents[i].h;
                for (int c = 0; c < 3; c++) {
                    queryEntity(w, l, e, 1u << c);
                    // reading absent components throws, which is slow: sample those
                    const EntRec *r = lookup(seen(w, l), w, e);
                    if ((r && (r->mask & (1u << c))) || i % 16 == 3) readValue(w, l, e, c);
                    if (prevToo) {
                        queryPrev(w, l, e, 1u << c);
                        r = lookup(w.committed, w, e);
                        if ((r && (r->mask & (1u << c))) || i % 16 == 5) readPrev(w, l, e, c);
                    }
                }
            }
            for (int c = -1; c < 3; c++) {
                checkList(w, l, listOf(l, c, false), c, false, seen(w, l));
                if (prevToo) checkList(w, l, listOf(l, c, true), c, true, w.committed);
            }
            checkGlobals(w, l, prevToo);
        }

        // ------------------------------------------------------------------ choices
        template<typename F>
        LockH *pickLock(Inst &w, F pred) {
            std::vector<LockH *> c;
            for (auto &l : w.locks)
                if (pred(l)) c.push_back(&l);
            if (c.empty()) return nullptr;
            return c[s.below(c.size())];
        }
        LockH *anyLock(Inst &w) {
            return &w.locks[s.below(w.locks.size())];
        }
        LockH *arLock(Inst &w) {
            if (!caps[w.kind].addRemove) return nullptr;
            return pickLock(w, [&](LockH &l) {
                return caps[l.l->type].addRemove;
            });
        }
        LockH *writeLock(Inst &w, unsigned bit) {
            if (!(caps[w.kind].write & bit)) return nullptr;
            return pickLock(w, [&](LockH &l) {
                return (caps[l.l->type].write & bit) != 0;
            });
        }
        LockH *readLock(Inst &w, unsigned bit) {
            if (!(caps[w.kind].read & bit)) return nullptr;
            return pickLock(w, [&](LockH &l) {
                return (caps[l.l->type].read & bit) != 0;
            });
        }

        Entity strangeHandle(Inst &w) {
            uint64_t which = s.below(6);
            // whether a made up index and generation exist depends on the batch size
            if (validOnly && which >= 3) which = which == 5 ? 5 : 0;
            switch (which) {
            case 0:
                return Entity();
            case 1: { // a handle of another instance
                if (insts.size() > 1) {
                    auto &o = *insts[s.below(insts.size())];
                    if (&o != &w && !o.cur.ents.empty()) {
                        pbt::label("foreign handle");
                        return o.cur.ents[s.below(o.cur.ents.size())].h;
                    }
                }
                return Entity();
            }
            case 2: // index far out of range
                return Entity(std::numeric_limits<TECS_ENTITY_INDEX_TYPE>::max() - (TECS_ENTITY_INDEX_TYPE)s.below(3),
                    1,
                    w.ecs->GetInstanceId());
            case 3: // index around the end of the storage, first generation
                return Entity((TECS_ENTITY_INDEX_TYPE)s.below(40), 1, w.ecs->GetInstanceId());
            case 4: { // neighbouring generation of a known entity
                if (w.cur.ents.empty()) return Entity();
                Entity e = w.cur.ents[s.below(w.cur.ents.size())].h;
                return Entity(e.index, (TECS_ENTITY_GENERATION_TYPE)(e.generation + (s.chance(1, 2) ? 1 : -1)));
            }
            default: { // right index, other instance identifier
                if (w.cur.ents.empty()) return Entity();
                Entity e = w.cur.ents[s.below(w.cur.ents.size())].h;
                return Entity(e.index,
                    Tecs::GenerationWithoutIdentifier(e.generation),
                    (TECS_ENTITY_ECS_IDENTIFIER_TYPE)(w.ecs->GetInstanceId() + 1 + s.below(3)));
            }
            }
        }
        // An operand: mostly a live entity of this instance
        Entity pickEntity(Inst &w) {
            auto &ents = w.cur.ents;
            if (ents.empty()) return s.below(64) < p.invalidTargets ? strangeHandle(w) : Entity();
            uint64_t r = s.below(64);
            if (r >= 64 - p.invalidTargets) {
                if (s.chance(1, 2)) return strangeHandle(w);
                return ents[s.below(ents.size())].h; // often dead by now
            }
            if (r < 16) { // recently created
                for (size_t k = 0; k < 6 && k < ents.size(); k++) {
                    auto &e = ents[ents.size() - 1 - (k + r) % std::min<size_t>(ents.size(), 6)];
                    if (e.alive) return e.h;
                }
            }
            size_t i = s.below(ents.size());
            for (size_t k = 0; k < ents.size(); k++) {
                auto &e = ents[(i + k) % ents.size()];
                if (e.alive) return e.h;
            }
            return ents[i].h;
        }
        uint64_t newId() {
            uint64_t v = nextId++;
            return v;
        }
        // A reference to this entity inside a list of the library, or null
        const Entity *aliasOf(const LockH &l, const Entity &e) {
            int c = (int)s.below(4) - 1;
            auto v = listOf(l, c, false);
            for (const Entity &x : v)
                if (x == e) return &x;
            return nullptr;
        }

        // ------------------------------------------------------------------ model updates
        EntRec *curRec(Inst &w, const Entity &e) {
            auto it = w.byHandle.find((uint64_t)e);
            if (it == w.byHandle.end()) return nullptr;
            EntRec &r = w.cur.ents[it->second];
            return r.alive ? &r : nullptr;
        }
        void mutated(Inst &w) {
            w.mutations++;
            nMut++;
        }
        void modelUnset(Inst &w, EntRec &r, unsigned mask) {
            for (int c = 0; c < 3; c++) {
                if ((mask & (1u << c)) && (r.mask & (1u << c))) {
                    uint64_t old = r.val[c];
                    r.mask &= ~(1u << c);
                    r.val[c] = 0;
                    heldRemove(w, c, r.h);
                    w.changedMeta = true;
                    checkReleasedNow(w, c, r.h, old);
                }
            }
        }
        // A value removed in the transaction that added it is released at once
        void checkReleasedNow(Inst &w, int c, const Entity &e, uint64_t old) {
            pendingRelease.push_back({c, (uint64_t)e, old});
        }
        struct Rel {
            int c;
            uint64_t e, v;
        };
        std::vector<Rel> pendingRelease;
        void flushReleases(Inst &w) {
            for (auto &r : pendingRelease) {
                if (r.c == 1 || r.v < 100) continue; // B is not tracked; defaults carry no id
                auto it = w.byHandle.find(r.e);
                bool before = false;
                if (it != w.byHandle.end() && it->second < w.committed.ents.size()) {
                    auto &o = w.committed.ents[it->second];
                    before = o.alive && (o.mask & (1u << r.c)) && o.val[r.c] == r.v;
                }
                if (before) continue;
                if (r.v < liveById.size() && liveById[r.v] != 0)
                    pbt::fail("value %llu of component %s was removed in the transaction that set it, but %d copies are still alive",
                        (ull)r.v, cname(r.c), liveById[r.v]);
                nReleased++;
            }
            pendingRelease.clear();
        }

        // ------------------------------------------------------------------ operations
        Entity opNew(Inst &w, LockH &l) {
            Entity e;
            Res r = l.l->newEntity(e);
            if (r.st != OK) pbt::fail("NewEntity threw: %s", r.what.c_str());
            PLOG("    new -> #%zu %s", w.cur.ents.size(), hs(e));
            if (!e) pbt::fail("NewEntity returned a null handle");
            if (!w.issued.insert((uint64_t)e).second)
                pbt::fail("NewEntity returned handle %s, which was issued before by this instance", hs(e));
            if (std::hash<Entity>{}(e) != std::hash<Entity>{}(Entity((uint64_t)e))) pbt::fail("hash differs for equal entities");
            for (auto &x : strangers)
                if (x->isAlive(e)) pbt::fail("NewEntity returned handle %s, which denotes an entity of another instance", hs(e));
            EntRec r2;
            r2.h = e;
            r2.alive = true;
            if (e.generation != GenerationFirst(w)) {
                nReuse++;
                pbt::label("index reused");
            }
            w.byHandle[(uint64_t)e] = (uint32_t)w.cur.ents.size();
            w.cur.ents.push_back(r2);
            w.changedMeta = true;
            mutated(w);
            for (int c = 0; c < 3; c++)
                if (l.l->has(e, 1u << c)) pbt::fail("new entity %s has component %s", hs(e), cname(c));
            if (!l.l->exists(e)) pbt::fail("new entity %s does not exist", hs(e));
            if (l.l->existed(e)) pbt::fail("new entity %s is said to have existed before", hs(e));
            return e;
        }
        TECS_ENTITY_GENERATION_TYPE GenerationFirst(Inst &w) {
            return Tecs::GenerationWithIdentifier(1, w.ecs->GetInstanceId());
        }

        void opDestroy(Inst &w, LockH &l, Entity e, int how) {
            EntRec *r = curRec(w, e);
            if (!r && !CHECKED) return;
            PLOG("    destroy %s%s", hs(e), r ? "" : " (invalid)");
            Res res;
            const Entity *alias = how == 2 && r ? aliasOf(l, e) : nullptr;
            Entity copy = e;
            if (alias) {
                pbt::label("operation through list reference");
                res = l.l->destroyConst(*alias);
            } else if (how == 0) {
                res = l.l->destroyConst(e);
            } else {
                res = l.l->destroy(copy);
                if (r ? (bool)copy : copy != e) pbt::fail("Destroy left the handle variable as %s", hs(copy));
            }
            if (r) {
                if (res.st != OK) pbt::fail("Destroy of valid entity %s threw: %s", hs(e), res.what.c_str());
                modelUnset(w, *r, 7);
                r->alive = false;
                heldRemove(w, -1, e);
                w.changedMeta = true;
                mutated(w);
                flushReleases(w);
            } else {
                expectRes(w, l, "Destroy", e, "", res, false, 0);
            }
        }
        void opSet(Inst &w, int c, Entity e, uint64_t how) {
            LockH *l = writeLock(w, compBit(c));
            if (!l) return;
            EntRec *r = curRec(w, e);
            bool ar = caps[l->l->type].addRemove;
            bool ok = r && ((r->mask & (1u << c)) || ar);
            if (!ok && !CHECKED) return;
            uint64_t v = newId();
            int variant = (int)(how & 3) % 3;
            uint64_t want = variant == 2 ? DEFAULTS[c] : v;
            PLOG("    set %s.%s = %llu%s via <%s>", hs(e), cname(c), (ull)want, ok ? "" : " (invalid)", caps[l->l->type].name);
            const Entity *alias = (how & 12) == 12 && ok ? aliasOf(*l, e) : nullptr;
            Res res = l->l->set(alias ? *alias : e, c, v, variant);
            expectRes(w, *l, "Set", e, cname(c), res, ok, want);
            if (ok) {
                if (!(r->mask & (1u << c))) w.changedMeta = true;
                r->mask |= 1u << c;
                r->val[c] = want;
                mutated(w);
            }
        }
        void opGetMut(Inst &w, int c, Entity e, bool assign) {
            LockH *l = readLock(w, compBit(c));
            if (!l) return;
            bool wr = caps[l->l->type].write & compBit(c);
            bool ar = caps[l->l->type].addRemove;
            const State &st = seen(w, *l);
            const EntRec *pr = lookup(st, w, e);
            bool ok = pr && ((pr->mask & (1u << c)) || ar);
            if (!ok && !CHECKED) return;
            uint64_t v = newId();
            uint64_t want = pr && (pr->mask & (1u << c)) ? pr->val[c] : DEFAULTS[c];
            PLOG("    get %s.%s%s%s via <%s>", hs(e), cname(c), wr && assign ? " and assign " : "", ok ? "" : " (invalid)",
                caps[l->l->type].name);
            Res res = l->l->getPlain(e, c, assign ? &v : nullptr);
            expectRes(w, *l, "Get", e, cname(c), res, ok, want);
            if (res.st == OK && res.wasConst == wr)
                pbt::fail("Get through <%s> returned a %s reference", caps[l->l->type].name, res.wasConst ? "const" : "mutable");
            if (ok && wr) {
                EntRec *r = curRec(w, e);
                if (!(r->mask & (1u << c))) {
                    w.changedMeta = true;
                    pbt::label("Get added a component");
                }
                r->mask |= 1u << c;
                r->val[c] = assign ? v : want;
                mutated(w);
            }
        }
        void opUnset(Inst &w, LockH &l, Entity e, unsigned mask, bool viaAlias) {
            EntRec *r = curRec(w, e);
            if (!r && !CHECKED) return;
            PLOG("    unset %s mask %x%s", hs(e), mask, r ? "" : " (invalid)");
            const Entity *alias = viaAlias && r ? aliasOf(l, e) : nullptr;
            if (alias) pbt::label("operation through list reference");
            Res res = l.l->unset(alias ? *alias : e, mask);
            if (r) {
                if (res.st != OK) pbt::fail("Unset on valid entity %s threw: %s", hs(e), res.what.c_str());
                if (r->mask & mask) mutated(w);
                modelUnset(w, *r, mask);
                flushReleases(w);
            } else {
                expectRes(w, l, "Unset", e, "", res, false, 0);
            }
        }

        void opGlobal(Inst &w) {
            int g = (int)s.below(2);
            nGlobalOps++;
            switch (s.weighted({4, 6, 4, 4, 4})) {
            case 0: { // query
                LockH *l = anyLock(w);
                PLOG("    query globals via %s<%s>", l->ro ? "read-only " : "", caps[l->l->type].name);
                checkGlobals(w, *l, true);
                break;
            }
            case 1: { // set
                LockH *l = writeLock(w, globBit(g));
                if (!l) return;
                bool ok = (w.cur.gmask & (1 << g)) || caps[l->l->type].addRemove;
                if (!ok && !CHECKED) return;
                int variant = (int)s.below(4) % 3;
                uint64_t v = newId(), want = variant == 2 ? GDEFAULTS[g] : v;
                PLOG("    set G%d = %llu%s", g + 1, (ull)want, ok ? "" : " (invalid)");
                expectRes(w, *l, "Set", Entity(), g ? "G2" : "G1", l->l->gSet(g, v, variant), ok, want);
                if (ok) {
                    if (!(w.cur.gmask & (1 << g))) w.changedMeta = true;
                    w.cur.gmask |= 1 << g;
                    w.cur.gval[g] = want;
                    mutated(w);
                }
                break;
            }
            case 2: { // mutable get
                LockH *l = readLock(w, globBit(g));
                if (!l) return;
                const State &st = seen(w, *l);
                bool wr = caps[l->l->type].write & globBit(g);
                bool ok = (st.gmask & (1 << g)) || caps[l->l->type].addRemove;
                if (!ok && !CHECKED) return;
                bool assign = s.chance(1, 2);
                uint64_t v = newId(), want = (st.gmask & (1 << g)) ? st.gval[g] : GDEFAULTS[g];
                PLOG("    get G%d%s%s", g + 1, wr && assign ? " and assign" : "", ok ? "" : " (invalid)");
                Res res = l->l->gGetPlain(g, assign ? &v : nullptr);
                expectRes(w, *l, "Get", Entity(), g ? "G2" : "G1", res, ok, want);
                if (res.st == OK && res.wasConst == wr) pbt::fail("global Get returned a reference of the wrong constness");
                if (ok && wr) {
                    if (!(w.cur.gmask & (1 << g))) w.changedMeta = true;
                    w.cur.gmask |= 1 << g;
                    w.cur.gval[g] = assign ? v : want;
                    mutated(w);
                }
                break;
            }
            case 3: { // unset
                LockH *l = arLock(w);
                if (!l) return;
                unsigned m = 1 + (unsigned)s.below(3);
                PLOG("    unset globals %x", m);
                Res res = l->l->gUnset(m);
                if (res.st != OK) pbt::fail("Unset of global components threw: %s", res.what.c_str());
                if (w.cur.gmask & m) {
                    mutated(w);
                    w.changedMeta = true;
                }
                for (int k = 0; k < 2; k++) {
                    if ((m & (1u << k)) && (w.cur.gmask & (1u << k))) {
                        uint64_t old = w.cur.gval[k];
                        w.cur.gmask &= ~(1u << k);
                        w.cur.gval[k] = 0;
                        bool before = (w.committed.gmask & (1u << k)) && w.committed.gval[k] == old;
                        if (k == 0 && old >= 100 && !before && old < liveById.size() && liveById[old] != 0)
                            pbt::fail("value %llu of a global component was removed in the transaction that set it, but is still alive",
                                (ull)old);
                    }
                }
                break;
            }
            default: { // const get, also where missing
                LockH *l = readLock(w, globBit(g));
                if (!l) return;
                const State &st = seen(w, *l);
                bool ok = st.gmask & (1 << g);
                if (!ok && !CHECKED) return;
                PLOG("    get const G%d%s", g + 1, ok ? "" : " (invalid)");
                expectRes(w, *l, "Get<const>", Entity(), g ? "G2" : "G1", l->l->gGetConst(g), ok, st.gval[g]);
                checkGlobals(w, *l, true);
                break;
            }
            }
        }

        void opDerive(Inst &w) {
            if (w.locks.size() > 12) return;
            LockH &src = *anyLock(w);
            LockH n;
            n.ro = src.ro;
            const Caps &sc = caps[src.l->type];
            switch (s.below(5)) {
            case 0:
                n.l.reset(src.l->copy());
                PLOG("    copy lock <%s>", sc.name);
                break;
            case 1: {
                int t = (int)s.below(NTYPES);
                n.l.reset(src.l->derive(t, (int)s.below(2)));
                if (!n.l) return;
                PLOG("    derive <%s> from %s<%s>", caps[t].name, src.ro ? "read-only " : "", sc.name);
                break;
            }
            case 2:
                n.l.reset(src.l->readOnly());
                n.ro = true;
                PLOG("    read-only subset of <%s>", sc.name);
                pbt::label("read-only subset");
                break;
            case 3: {
                int t = (int)s.below(NTYPES);
                n.l.reset(src.l->dynamicTo(t));
                const Caps &tc = caps[t], &xc = caps[w.kind];
                PLOG("    dynamic lock <%s> from %s<%s>: %s", tc.name, src.ro ? "read-only " : "", sc.name,
                    n.l ? "granted" : "refused");
                if (n.l) {
                    if ((tc.read & ~xc.read) || (tc.write & ~xc.write) || (tc.addRemove && !xc.addRemove))
                        pbt::fail("a dynamic lock from <%s> granted <%s> although the transaction holds only <%s>", sc.name,
                            tc.name, xc.name);
                    if (src.ro && (tc.write || tc.addRemove))
                        pbt::fail("a dynamic lock from a read-only subset granted <%s>", tc.name);
                } else {
                    // static subset of what the source type carries must be granted, unless the source is read-only
                    if (!src.ro && (tc.read & ~sc.read) == 0 && (tc.write & ~sc.write) == 0 && (!tc.addRemove || sc.addRemove))
                        pbt::fail("a dynamic lock from <%s> refused <%s>", sc.name, tc.name);
                    if ((tc.read & ~sc.read) == 0 && tc.write == 0 && !tc.addRemove)
                        pbt::fail("a dynamic lock from <%s> refused reading <%s>", sc.name, tc.name);
                    return;
                }
                break;
            }
            default: // move: the source handle is gone
                n.l.reset(src.l->takeOver());
                src.l.reset();
                PLOG("    move lock <%s>", sc.name);
                for (size_t i = 0; i < w.locks.size(); i++)
                    if (!w.locks[i].l) {
                        w.locks[i] = std::move(n);
                        nScopeOps++;
                        return;
                    }
                return;
            }
            nScopeOps++;
            w.locks.push_back(std::move(n));
        }
        void opDrop(Inst &w) {
            if (w.locks.size() < 2) return;
            size_t i = s.below(w.locks.size());
            PLOG("    drop lock <%s>", caps[w.locks[i].l->type].name);
            w.locks.erase(w.locks.begin() + i);
            nScopeOps++;
        }
        void opNested(Inst &w) {
            if (!NEST_DETECT || !CHECKED || validOnly) return;
            // A second transaction on the same instance must be refused without any effect
            int k = (int)s.below(NKINDS);
            PLOG("    nested start <%s>", caps[k].name);
            bool threw = false;
            try {
                std::unique_ptr<ILock> l(startTx(*w.ecs, k));
            } catch (const std::runtime_error &) {
                threw = true;
            }
            if (!threw)
                pbt::fail("a second transaction <%s> was started while <%s> is active in the same thread and instance",
                    caps[k].name, caps[w.kind].name);
        }

        // ------------------------------------------------------------------ observers
        void opObserve(Inst &w) {
            LockH *l = arLock(w);
            if (!l) return;
            nObsOps++;
            bool haveActive = false;
            for (auto &o : w.obs)
                if (o.active) haveActive = true;
            if (!haveActive || s.chance(3, 5)) {
                if (w.obs.size() >= 10) return;
                int stream = (int)s.below(6);
                Obs o;
                o.o.reset(l->l->watch(stream));
                o.id = obsCounter++;
                PLOG("    watch stream %d -> observer %d", stream, o.id);
                if (!o.o->alive()) pbt::fail("a new observer tests false");
                w.obs.push_back(std::move(o));
            } else {
                size_t i = s.below(w.obs.size());
                Obs &o = w.obs[i];
                if (s.chance(1, 3) && o.copies.size() < 3) {
                    PLOG("    copy the handle of observer %d", o.id);
                    o.copies.emplace_back(handleOf(o).clone());
                    if (o.copies.back()->alive() != o.active) pbt::fail("a copied observer handle tests %d", !o.active);
                    return;
                }
                // an observer that has been stopped can be stopped again, through the same handle or another
                IObserver &h = handleOf(o);
                PLOG("    stop observer %d%s", o.id, o.active ? "" : " again");
                if (!o.active) pbt::label("stopped again");
                l->l->stop(h, (int)s.below(2));
                o.active = false;
                o.pending.clear();
                checkStopped(*l, *o.o);
                for (auto &c : o.copies)
                    checkStopped(*l, *c);
                pbt::label("observer stopped");
            }
        }
        IObserver &handleOf(Obs &o) {
            size_t k = o.copies.empty() ? 0 : s.below(o.copies.size() + 1);
            return k == 0 ? *o.o : *o.copies[k - 1];
        }
        void checkStopped(LockH &l, IObserver &o) {
            if (o.alive()) pbt::fail("a stopped observer tests true");
            Event ev;
            if (l.l->poll(o, ev)) pbt::fail("polling a stopped observer returned an event");
        }
        void pollOne(Inst &w, LockH &l, Obs &o, bool drain) {
            if (!o.active) {
                checkStopped(l, handleOf(o));
                return;
            }
            IObserver &h = handleOf(o);
            if (!h.alive()) pbt::fail("observer %d tests false although it was not stopped", o.id);
            do {
                while (!o.pending.empty() && o.pending.front().empty())
                    o.pending.pop_front();
                Event ev;
                bool got = l.l->poll(h, ev);
                PLOG("    poll observer %d -> %s", o.id, got ? "event" : "none");
                if (!got) {
                    if (!o.pending.empty()) {
                        auto &m = o.pending.front()[0];
                        pbt::fail("observer %d (stream %d) has no more events, but the model expects %zu more commits, next %s entity %llx value %llu",
                            o.id, o.o->stream, o.pending.size(), m.type == 1 ? "ADDED" : "REMOVED", (ull)m.e, (ull)m.v);
                    }
                    return;
                }
                nEvents++;
                MEvent m{ev.type, (uint64_t)ev.e, ev.v};
                if (o.pending.empty())
                    pbt::fail("observer %d (stream %d) delivered an event nobody expects: %s entity %llx value %llu", o.id,
                        o.o->stream, m.type == 1 ? "ADDED" : m.type == 2 ? "REMOVED" : "INVALID", (ull)m.e, (ull)m.v);
                auto &grp = o.pending.front();
                auto it = std::find(grp.begin(), grp.end(), m);
                if (it == grp.end())
                    pbt::fail("observer %d (stream %d) delivered %s entity %llx value %llu, which is not among the %zu events of that commit (first: %s entity %llx value %llu)",
                        o.id, o.o->stream, m.type == 1 ? "ADDED" : m.type == 2 ? "REMOVED" : "INVALID", (ull)m.e, (ull)m.v,
                        grp.size(), grp[0].type == 1 ? "ADDED" : "REMOVED", (ull)grp[0].e, (ull)grp[0].v);
                *it = grp.back();
                grp.pop_back();
                pbt::digest(m.type);
                pbt::digest(m.v);
                if (m.e) {
                    auto known = w.byHandle.find(m.e);
                    pbt::digest(known == w.byHandle.end() ? ~0ull : known->second);
                }
            } while (drain);
        }
        void opPoll(Inst &w) {
            if (w.obs.empty()) return;
            Obs &o = w.obs[s.below(w.obs.size())];
            LockH *l = anyLock(w);
            pollOne(w, *l, o, s.chance(1, 3));
            nObsOps++;
        }
        // Events of the commit that is about to happen
        void appendEvents(Inst &w) {
            bool any = false;
            for (auto &o : w.obs)
                if (o.active) any = true;
            if (!any) return;
            std::vector<MEvent> ev[6];
            for (size_t i = 0; i < w.cur.ents.size(); i++) {
                static const EntRec none;
                const EntRec &o = i < w.committed.ents.size() ? w.committed.ents[i] : none;
                const EntRec &n = w.cur.ents[i];
                uint64_t h = (uint64_t)n.h;
                if (o.alive && !n.alive) ev[0].push_back({2, h, 0});
                if (!o.alive && n.alive) ev[0].push_back({1, h, 0});
                static const int stream[3] = {1, 3, 4};
                for (int c = 0; c < 3; c++) {
                    bool b = o.alive && (o.mask & (1u << c)), a = n.alive && (n.mask & (1u << c));
                    if (b && !a) ev[stream[c]].push_back({2, h, o.val[c]});
                    if (!b && a) ev[stream[c]].push_back({1, h, n.val[c]});
                }
            }
            for (int g = 0; g < 2; g++) {
                bool b = w.committed.gmask & (1 << g), a = w.cur.gmask & (1 << g);
                int stream = g == 0 ? 2 : 5;
                if (b && !a) ev[stream].push_back({2, 0, w.committed.gval[g]});
                if (!b && a) ev[stream].push_back({1, 0, w.cur.gval[g]});
            }
            for (auto &o : w.obs)
                if (o.active && !ev[o.o->stream].empty()) o.pending.push_back(ev[o.o->stream]);
        }

        // ------------------------------------------------------------------ bulk operations
        // only every stride'th entity gets components
        void bulkCreate(Inst &w, LockH &l, int n, unsigned pattern, int stride = 1) {
            PLOG("    bulk create %d entities, component pattern %03x on one of %d", n, pattern, stride);
            if (n >= 400) pbt::label("bulk of 400 or more");
            for (int i = 0; i < n; i++) {
                Entity e = opNew(w, l);
                unsigned mask = i % stride ? 0 : (pattern >> ((i / stride % 4) * 3)) & 7;
                for (int c = 0; c < 3; c++) {
                    if (!(mask & (1u << c))) continue;
                    uint64_t v = newId();
                    Res res = l.l->set(e, c, v, 0);
                    expectRes(w, l, "Set", e, cname(c), res, true, v);
                    EntRec &r = w.cur.ents.back();
                    r.mask |= 1u << c;
                    r.val[c] = v;
                }
            }
        }
        // A first transaction that gives the instance something to work on
        void populate(Inst &w) {
            static const int sizes[] = {1, 2, 3, 5, 9, 20, 60};
            begin(w, 1);
            int n = sizes[s.below(7)];
            if (large && &w == insts[0].get()) {
                n = s.chance(1, 4) ? 32700 + (int)s.below(200) : 65450 + (int)s.below(800);
                pbt::label("more entities than 16 bits can number");
            }
            unsigned pattern = (unsigned)s.below(4096);
            // few of many entities: commits copy in another way
            int stride = large && s.chance(1, 2) ? 7 + (int)s.below(60) : 1;
            if (stride > 1) pbt::label("large world with few components");
            bulkCreate(w, w.locks[0], n, pattern, stride);
            for (uint64_t g = s.below(3); g > 0; g--)
                opGlobal(w);
            finish(w);
        }
        // single operations are checked against every list that is held: fewer of them in a large world
        uint64_t fewer(Inst &w) {
            return w.cur.ents.size() > 20000 ? 97 : 1;
        }
        void opBulk(Inst &w) {
            LockH *l = arLock(w);
            uint64_t what = s.below(6);
            if (!l) { // bulk value writes
                int c = (int)s.below(3);
                LockH *wl = writeLock(w, compBit(c));
                if (!wl) return;
                uint64_t every = (1 + s.below(4)) * fewer(w);
                size_t k = 0;
                PLOG("    bulk write %s of every %llu", cname(c), (ull)every);
                for (auto &r : w.cur.ents) {
                    if (!r.alive || !(r.mask & (1u << c)) || k++ % every) continue;
                    uint64_t v = newId();
                    Res res = wl->l->set(r.h, c, v, 0);
                    expectRes(w, *wl, "Set", r.h, cname(c), res, true, v);
                    r.val[c] = v;
                    mutated(w);
                }
                return;
            }
            if (what <= 2) { // create
                static const int sizes[] = {3, 9, 20, 60, 130, 400, 1100, 2300};
                int limit = w.cur.ents.size() > 1500 ? 4 : 8;
                int n = sizes[s.weighted({20, 20, 16, 10, 6, 3, 2, 1}) % limit];
                bulkCreate(w, *l, n, (unsigned)s.below(4096));
            } else if (what == 3) { // destroy many
                uint64_t every = (1 + s.below(5)) * fewer(w), off = s.below(5);
                PLOG("    bulk destroy every %llu offset %llu", (ull)every, (ull)off);
                size_t k = 0;
                for (size_t i = 0; i < w.cur.ents.size(); i++) {
                    if (!w.cur.ents[i].alive || (k++ + off) % every) continue;
                    opDestroy(w, *l, w.cur.ents[i].h, 0);
                }
            } else { // unset or set many
                int c = (int)s.below(3);
                uint64_t every = (1 + s.below(5)) * fewer(w), off = s.below(5);
                size_t k = 0;
                PLOG("    bulk %s %s every %llu", what == 4 ? "unset" : "set", cname(c), (ull)every);
                for (size_t i = 0; i < w.cur.ents.size(); i++) {
                    if (!w.cur.ents[i].alive || (k++ + off) % every) continue;
                    if (what == 4) {
                        opUnset(w, *l, w.cur.ents[i].h, 1u << c, false);
                    } else {
                        opSet(w, c, w.cur.ents[i].h, 0);
                    }
                }
            }
        }
        // Mutate while walking over a list of the library
        void opIterate(Inst &w) {
            LockH *l = arLock(w);
            if (!l) return;
            int comp = (int)s.below(4) - 1;
            uint64_t period = 1 + s.below(4), action = s.below(5);
            int c2 = (int)s.below(3);
            unsigned mask = 1 + (unsigned)s.below(7);
            PLOG("    iterate list %d, action %llu on every %llu", comp, (ull)action, (ull)period);
            auto view = listOf(*l, comp, false);
            size_t n = view.size(), i = 0;
            size_t budget = 300;
            for (const Entity &e : view) {
                size_t k = i++;
                if (!e || k % period || budget-- == 0) continue;
                Entity copy = e;
                EntRec *r = curRec(w, copy);
                if (!r) pbt::fail("a list contains %s, which does not exist", hs(copy));
                switch (action) {
                case 0: { // destroy through the list's own reference
                    Res res = l->l->destroyConst(e);
                    if (res.st != OK) pbt::fail("Destroy while iterating threw: %s", res.what.c_str());
                    modelUnset(w, *r, 7);
                    r->alive = false;
                    heldRemove(w, -1, copy);
                    w.changedMeta = true;
                    mutated(w);
                    flushReleases(w);
                    break;
                }
                case 1: { // unset through the list's own reference
                    Res res = l->l->unset(e, mask);
                    if (res.st != OK) pbt::fail("Unset while iterating threw: %s", res.what.c_str());
                    modelUnset(w, *r, mask);
                    mutated(w);
                    flushReleases(w);
                    break;
                }
                case 2: {
                    uint64_t v = newId();
                    Res res = l->l->set(e, c2, v, 0);
                    expectRes(w, *l, "Set", copy, cname(c2), res, true, v);
                    r->mask |= 1u << c2;
                    r->val[c2] = v;
                    w.changedMeta = true;
                    mutated(w);
                    break;
                }
                case 3: { // add an entity with the component being walked
                    if (w.cur.ents.size() > 4000) break;
                    Entity x = opNew(w, *l);
                    if (comp >= 0) opSetKnown(w, *l, comp, x);
                    break;
                }
                default: { // remove and add again
                    opUnset(w, *l, copy, 1u << c2, false);
                    opSetKnown(w, *l, c2, copy);
                    break;
                }
                }
            }
            if (i != n || view.size() != n) pbt::fail("the list changed its size while iterating");
        }
        void opSetKnown(Inst &w, LockH &l, int c, const Entity &e) {
            EntRec *r = curRec(w, e);
            uint64_t v = newId();
            Res res = l.l->set(e, c, v, 0);
            expectRes(w, l, "Set", e, cname(c), res, true, v);
            r->mask |= 1u << c;
            r->val[c] = v;
            w.changedMeta = true;
            mutated(w);
        }
        void opHold(Inst &w) {
            if (w.held.size() >= 6) return;
            LockH &l = *anyLock(w);
            int comp = (int)s.below(4) - 1;
            bool prev = s.chance(1, 4);
            Held h;
            h.view = listOf(l, comp, prev);
            h.comp = comp;
            h.prev = prev || l.ro;
            for (const Entity &e : h.view)
                h.expect.push_back(e);
            checkList(w, l, h.view, comp, prev, prev ? w.committed : seen(w, l));
            PLOG("    hold %s list %d (%zu entries)", h.prev ? "previous" : "current", comp, h.expect.size());
            w.held.push_back(std::move(h));
        }
        // Reads a held list in other ways than front to back: by index, from the back, by iterator
        // arithmetic, through parts of it
        void opWalk(Inst &w) {
            if (w.held.empty()) return;
            Held &h = w.held[s.below(w.held.size())];
            size_t n = h.expect.size(), from = 0;
            PLOG("    walk over held list of %zu entries", n);
            auto view = h.view;
            if (s.chance(1, 2)) { // a part of the list
                from = s.below(n + 1);
                size_t count = s.below(n - from + 3);
                view = s.chance(1, 4) ? view.subview(from) : view.subview(from, count);
                if (view.size() > n - from) pbt::fail("a part of a list of %zu entries from %zu has %zu entries", n, from, (size_t)view.size());
                n = view.size();
                pbt::digest(n);
            }
            auto same = [&](const Entity &got, size_t i, const char *how) {
                if (got != h.expect[from + i])
                    pbt::fail("entry %zu of a held list read %s is %s, expected %s", i, how, hs(got), hs(h.expect[from + i]));
            };
            if (view.empty() != (n == 0)) pbt::fail("empty() of a list of %zu entries is wrong", n);
            if ((size_t)(view.end() == view.begin()) != (n == 0)) pbt::fail("begin() and end() of a list of %zu entries", n);
            size_t i = n;
            size_t budget = 60;
            for (auto r = view.rbegin(); r != view.rend() && budget--; ++r)
                same(*r, --i, "from the back");
            if (n == 0) return;
            auto it = view.begin();
            size_t pos = 0;
            for (uint64_t k = 4 + s.below(12); k > 0; k--) {
                size_t to = s.below(n);
                long d = (long)to - (long)pos;
                switch (s.below(10)) {
                case 0:
                    same(view[to], to, "by index");
                    break;
                case 1:
                    same(it[d], to, "by iterator and offset");
                    break;
                case 2:
                    same(*(it + d), to, "by iterator sum");
                    break;
                case 3:
                    same(*(it - -d), to, "by iterator difference");
                    break;
                case 4:
                    it += d;
                    pos = to;
                    break;
                case 5:
                    it -= -d;
                    pos = to;
                    break;
                case 6:
                    if (pos + 1 < n) same(*++it, ++pos, "by increment");
                    break;
                case 7:
                    if (pos > 0) same(*--it, --pos, "by decrement");
                    break;
                case 8:
                    if (pos + 1 < n) {
                        same(*it++, pos, "by postfix increment");
                        pos++;
                    }
                    break;
                default:
                    if (pos > 0) {
                        same(*it--, pos, "by postfix decrement");
                        pos--;
                    }
                    break;
                }
                same(*it, pos, "through an iterator");
                if (it->index != h.expect[from + pos].index) pbt::fail("operator-> of a list iterator");
            }
            nWalks++;
        }
        void opInvalid(Inst &w) {
            if (!CHECKED) return;
            Entity e = s.chance(1, 3) && !w.cur.ents.empty() ? w.cur.ents[s.below(w.cur.ents.size())].h : strangeHandle(w);
            int c = (int)s.below(3);
            PLOG("   try operations with %s", hs(e));
            switch (s.below(5)) {
            case 0:
                opSet(w, c, e, s.below(16));
                break;
            case 1:
                opGetMut(w, c, e, s.chance(1, 2));
                break;
            case 2: {
                if (LockH *l = arLock(w)) opUnset(w, *l, e, 1 + (unsigned)s.below(7), false);
                break;
            }
            case 3: {
                LockH *l = arLock(w);
                if (l && !curRec(w, e)) opDestroy(w, *l, e, (int)s.below(2));
                break;
            }
            default: {
                LockH &l = *anyLock(w);
                queryEntity(w, l, e, 1 + (unsigned)s.below(7));
                queryPrev(w, l, e, 1 + (unsigned)s.below(7));
                readValue(w, l, e, c);
                readPrev(w, l, e, c);
            }
            }
            if (s.chance(1, 3)) audit(w, *anyLock(w), true, 20);
        }

        // One step of the active transaction of w
        void step(Inst &w) {
            size_t op = s.weighted({p.wNew, p.wSet, p.wQuery, p.wDestroy, p.wGetMut, p.wGetConst, p.wUnset, p.wPrev, p.wList,
                p.wHeld, p.wGlobal, p.wDerive, p.wDrop, p.wObserve, p.wPoll, p.wAudit, p.wBulk, p.wIterate, p.wInvalid,
                p.wNested});
            switch (op) {
            case 0: {
                LockH *l = arLock(w);
                if (!l) {
                    // not an add/remove transaction: write something instead
                    int c = (int)s.below(3);
                    opGetMut(w, c, pickEntity(w), true);
                    break;
                }
                Entity e = opNew(w, *l);
                unsigned m = (unsigned)s.below(8);
                for (int c = 0; c < 3; c++)
                    if (m & (1u << c)) opSetKnown(w, *l, c, e);
                break;
            }
            case 1: {
                int c = (int)s.below(3);
                Entity e = pickEntity(w);
                opSet(w, c, e, s.below(16));
                break;
            }
            case 2: {
                LockH &l = *anyLock(w);
                Entity e = pickEntity(w);
                queryEntity(w, l, e, 1 + (unsigned)s.below(7));
                break;
            }
            case 3: {
                LockH *l = arLock(w);
                if (!l) break;
                Entity e = pickEntity(w);
                if (!curRec(w, e) && p.invalidTargets == 0) break;
                opDestroy(w, *l, e, (int)s.below(3));
                break;
            }
            case 4: {
                int c = (int)s.below(3);
                Entity e = pickEntity(w);
                opGetMut(w, c, e, s.chance(1, 2));
                break;
            }
            case 5: {
                int c = (int)s.below(3);
                LockH *l = readLock(w, compBit(c));
                if (l) readValue(w, *l, pickEntity(w), c);
                break;
            }
            case 6: {
                LockH *l = arLock(w);
                if (!l) break;
                Entity e = pickEntity(w);
                unsigned m = 1 + (unsigned)s.below(7);
                opUnset(w, *l, e, m, s.chance(1, 3));
                break;
            }
            case 7: {
                LockH &l = *anyLock(w);
                Entity e = pickEntity(w);
                queryPrev(w, l, e, 1 + (unsigned)s.below(7));
                int c = (int)s.below(3);
                readPrev(w, l, e, c);
                if (l.ro) readValue(w, l, e, c);
                break;
            }
            case 8: {
                LockH &l = *anyLock(w);
                int comp = (int)s.below(4) - 1;
                bool prev = s.chance(1, 3);
                checkList(w, l, listOf(l, comp, prev), comp, prev, prev ? w.committed : seen(w, l));
                break;
            }
            case 9:
                if (w.held.empty() || s.chance(1, 2))
                    opHold(w);
                else if (s.chance(1, 2))
                    checkHeld(w);
                if (s.chance(2, 3)) opWalk(w);
                break;
            case 10:
                opGlobal(w);
                break;
            case 11:
                opDerive(w);
                break;
            case 12:
                opDrop(w);
                break;
            case 13:
                opObserve(w);
                break;
            case 14:
                opPoll(w);
                break;
            case 15:
                PLOG("    audit");
                {
                    LockH &l = *anyLock(w);
                    bool prevToo = s.chance(1, 2);
                    audit(w, l, prevToo, 60);
                }
                break;
            case 16:
                opBulk(w);
                break;
            case 17:
                opIterate(w);
                break;
            case 18:
                opInvalid(w);
                break;
            default:
                opNested(w);
            }
            checkHeldCheap(w);
        }
        void checkHeldCheap(Inst &w) {
            if (!w.held.empty() && w.mutations % 4 == 0) checkHeld(w);
        }

        void begin(Inst &w, int kind) {
            PLOG("  start <%s> on instance %d", caps[kind].name, w.no);
            std::unique_ptr<ILock> l;
            try {
                l.reset(startTx(*w.ecs, kind));
            } catch (const std::exception &e) {
                pbt::fail("starting a transaction <%s> threw: %s", caps[kind].name, e.what());
            }
            if (&l->instance() != w.ecs.get()) pbt::fail("the lock refers to another instance");
            w.active = true;
            w.kind = kind;
            w.locks.clear();
            w.locks.push_back({std::move(l), false});
            w.held.clear();
            w.cur = w.committed;
            w.mutations = 0;
            w.changedMeta = false;
            nTx++;
            nKindsMask |= 1 << kind;
            int act = 0;
            for (auto &o : insts)
                if (o->active) act++;
            if (act > 1) nNestedTx++;
        }
        void finish(Inst &w) {
            checkHeld(w);
            w.held.clear();
            PLOG("  end <%s> on instance %d", caps[w.kind].name, w.no);
            if (w.changedMeta || w.mutations) appendEvents(w);
            // give up the lock handles in any order and any way
            uint64_t how = s.below(8);
            while (w.locks.size() > 1) {
                size_t i = s.below(w.locks.size());
                w.locks.erase(w.locks.begin() + i);
                nScopeOps++;
                if (how == 3) opNested(w); // still active
                if (how == 4 && w.locks.size() == 1) {
                    // the changes are still only pending
                    LockH &l = w.locks[0];
                    for (size_t k = 0; k < w.cur.ents.size() && k < 10; k++)
                        queryPrev(w, l, w.cur.ents[w.cur.ents.size() - 1 - k].h, 1 + (unsigned)(k % 7));
                }
            }
            if (how == 5) { // by an exception
                try {
                    LockH last = std::move(w.locks[0]);
                    w.locks.clear();
                    throw std::string("unwind");
                } catch (const std::string &) {
                }
                pbt::label("released by unwinding");
            } else {
                w.locks.clear();
            }
            w.active = false;
            w.committed = w.cur;
            w.commits++;
            if (caps[w.kind].addRemove && w.mutations) w.arCommits++;
            afterCommit(w);
        }
        // Values that are neither part of a state nor of an undelivered event must be gone
        void afterCommit(Inst &w) {
            if (p.name[0] != 'r' && nTx % 4 != 0) return;
            for (auto &o : insts)
                if (o->active) return;
            static std::vector<uint8_t> ref;
            ref.assign(nextId + 1, 0);
            auto addRef = [&](uint64_t v) {
                if (v < ref.size()) ref[v] = 1;
            };
            for (auto &o : insts) {
                for (auto &r : o->committed.ents)
                    if (r.alive)
                        for (int c = 0; c < 3; c++)
                            if (r.mask & (1u << c)) addRef(r.val[c]);
                for (int g = 0; g < 2; g++)
                    if (o->committed.gmask & (1 << g)) addRef(o->committed.gval[g]);
                for (auto &ob : o->obs)
                    if (ob.active)
                        for (auto &grp : ob.pending)
                            for (auto &e : grp)
                                addRef(e.v);
            }
            for (uint64_t id = 100; id < nextId; id++) {
                if (!ref[id] && id < liveById.size() && liveById[id] != 0)
                    pbt::fail("value %llu is not part of the state nor of an undelivered event, but %d copies are still alive",
                        (ull)id, liveById[id]);
                if (ref[id]) continue;
                if (id < liveById.size()) nReleased++;
            }
        }

        // Destroy and create again and again, so that indexes are reused many times
        void churn(Inst &w, uint32_t cycles) {
            if (w.active) return;
            PLOG("  churn %u cycles on instance %d", cycles, w.no);
            pbt::label("long index reuse");
            std::vector<Entity> old;
            Entity cur;
            for (uint32_t i = 0; i < cycles; i++) {
                std::unique_ptr<ILock> l(startTx(*w.ecs, 1));
                if (cur) {
                    if (!l->exists(cur)) pbt::fail("entity %s vanished", hs(cur));
                    Res r = l->destroyConst(cur);
                    if (r.st != OK) pbt::fail("Destroy threw: %s", r.what.c_str());
                    if (i % 97 == 0 || (i & (i - 1)) == 0) old.push_back(cur);
                    if (i % 2) { // leave the index free over a commit, so that it is reused
                        cur = Entity();
                        continue;
                    }
                }
                Res r = l->newEntity(cur);
                if (r.st != OK) pbt::fail("NewEntity threw: %s", r.what.c_str());
                if (!cur || !w.issued.insert((uint64_t)cur).second)
                    pbt::fail("NewEntity returned handle %s, which was issued before (cycle %u)", hs(cur), i);
                if (l->has(cur, 1) || l->has(cur, 2) || l->has(cur, 4)) pbt::fail("new entity %s has components", hs(cur));
                if (i % 64 == 0) {
                    Res s1 = l->set(cur, 0, i + 1, 0);
                    if (s1.st != OK) pbt::fail("Set threw: %s", s1.what.c_str());
                    for (auto &o : old)
                        if (l->exists(o) || l->has(o, 1)) pbt::fail("destroyed handle %s denotes an existing entity again", hs(o));
                }
            }
            // leave nothing behind
            std::unique_ptr<ILock> l(startTx(*w.ecs, 1));
            if (cur) l->destroyConst(cur);
            for (auto &o : old)
                if (l->exists(o)) pbt::fail("destroyed handle %s denotes an existing entity again", hs(o));
        }

        // An operation on an instance of another type: nothing of it may be seen here, and nothing of ours there
        void meet() {
            IStranger &x = *strangers[s.below(strangers.size())];
            std::vector<Entity> made;
            int create = (int)s.below(5);
            int destroy = (int)s.below(4);
            PLOG("  an instance of another type creates %d entities and destroys %d", create, destroy);
            x.step(create, destroy, made);
            x.check();
            pbt::label("operations on an instance of another type");
            for (auto &w : insts) {
                for (auto &e : made) {
                    if (w->byHandle.count((uint64_t)e))
                        pbt::fail("the new entity %s of an instance of another type has a handle issued by instance %d", hs(e), w->no);
                    if (w->active && !w->locks.empty()) {
                        queryEntity(*w, w->locks[0], e, 1);
                        queryPrev(*w, w->locks[0], e, 1);
                    }
                }
                if (w->cur.ents.empty()) continue;
                for (int i = 0; i < 4; i++) {
                    const Entity &e = w->cur.ents[s.below(w->cur.ents.size())].h;
                    if (e && x.denotes(e)) pbt::fail("entity %s of instance %d denotes an entity of an instance of another type", hs(e), w->no);
                }
            }
        }

        void run() {
            size_t n = 1;
            if (s.below(16) >= 16 - (uint64_t)p.secondWorld) n = 2 + s.below(2);
            // instance identifiers: a known starting point, so that a case is a function of its choices
            if (sizeof(TECS_ENTITY_ECS_IDENTIFIER_TYPE) == 1) {
                unsigned want = 1;
                if (p.manyInstances && s.chance(1, 2)) want = 1 + (unsigned)s.below(249);
                for (int guard = 0; guard < 600; guard++) {
                    Tecs::ECS<B> dummy;
                    if ((uint8_t)(dummy.GetInstanceId() + 1) == want) break;
                }
                if (want > 200) pbt::label("more than 200 instances before");
            }
            // instances of other types before, between or after
            unsigned nStrangers = p.strangers && s.chance(1, 2) ? 1 + (unsigned)s.below(2) : 0;
            for (size_t i = 0; i < n; i++) {
                if (nStrangers && s.chance(1, 2)) {
                    strangers.emplace_back(makeStranger((int)s.below(2)));
                    nStrangers--;
                }
                insts.push_back(std::make_unique<Inst>());
                insts.back()->no = (int)i;
                insts.back()->ecs = std::make_unique<ECS>();
            }
            for (; nStrangers; nStrangers--)
                strangers.emplace_back(makeStranger((int)s.below(2)));
            s.stepsLeft = std::min<uint32_t>(s.stepsLeft, 4000);
            for (auto &w : insts) {
                s.mark();
                if (s.chance(3, 4) || large) populate(*w);
            }
            // the history: transactions on the instances, possibly nested across instances
            std::vector<Inst *> stack;
            int txBudget = large ? 7 : 60;
            while (true) {
                if (!strangers.empty() && s.below(12) == 11) {
                    meet();
                    continue;
                }
                Inst *top = nullptr;
                if (!stack.empty()) top = stack[s.below(stack.size())];
                if (!top) {
                    if (txBudget-- <= 0 || !s.more(p.meanTx)) break;
                    Inst &w = *insts[s.below(insts.size())];
                    if (p.wChurn && s.below(512) >= 512 - p.wChurn * 5) {
                        churn(w, 40 + (uint32_t)s.below(300));
                        continue;
                    }
                    int kind = (int)s.weighted({2, 40, 6, 14, 3, 8, 8, 8, 3, 8});
                    if (w.commits == 0 && kind != 1 && s.chance(1, 2)) kind = 1;
                    begin(w, kind);
                    stack.push_back(&w);
                    continue;
                }
                if (stack.size() < insts.size() && s.below(24) == 23 && txBudget-- > 0) {
                    // a transaction on another instance while this one is active
                    for (auto &o : insts) {
                        if (!o->active) {
                            begin(*o, (int)s.weighted({2, 30, 6, 14, 3, 8, 8, 8, 3, 8}));
                            stack.push_back(o.get());
                            pbt::label("nested transactions on two instances");
                            break;
                        }
                    }
                    continue;
                }
                if (!s.more(p.meanOps)) {
                    finish(*top);
                    stack.erase(std::find(stack.begin(), stack.end(), top));
                    continue;
                }
                step(*top);
            }
            while (!stack.empty()) {
                finish(*stack.back());
                stack.pop_back();
            }
            if (!strangers.empty()) meet();
            // everything must be visible to later readers and writers alike
            for (auto &w : insts) {
                for (int kind : {2, 1, 3, 0}) {
                    begin(*w, kind);
                    audit(*w, w->locks[0], true, kind == 2 ? 400 : 60);
                    if (kind != 2 && insts.size() > 1) {
                        for (auto &o : insts) {
                            if (o == w) continue;
                            for (size_t i = 0; i < o->cur.ents.size() && i < 20; i++) {
                                queryEntity(*w, w->locks[0], o->cur.ents[i].h, 1);
                                queryPrev(*w, w->locks[0], o->cur.ents[i].h, 2);
                            }
                        }
                    }
                    if (kind == 0)
                        for (auto &o : w->obs)
                            pollOne(*w, w->locks[0], o, true);
                    finish(*w);
                }
            }
            // end of life
            for (auto &w : insts) {
                w->ecs.reset();
                for (auto &o : w->obs)
                {
                    if (o.o->alive()) pbt::fail("observer %d tests true after its instance was destroyed", o.id);
                    for (auto &c : o.copies)
                        if (c->alive()) pbt::fail("a handle of observer %d tests true after its instance was destroyed", o.id);
                }
            }
            for (auto &w : insts)
                w->obs.clear();
            if (liveObjects != 0) pbt::fail("%lld component values are still alive after the instance was destroyed", (long long)liveObjects);
            for (uint64_t id = 0; id < liveById.size(); id++)
                if (liveById[id] != 0) pbt::fail("value %llu is still alive after the instance was destroyed", (ull)id);
            classify();
        }

        void classify() {
            std::string n = p.name;
            bool nt = false;
            if (n == "core") nt = nQueryAfterMut >= 3 && nMut >= 3;
            else if (n == "commit") nt = nTx >= 6 && __builtin_popcount(nKindsMask) >= 3 && nMut >= 4;
            else if (n == "prev") nt = nPrevAfterMut >= 4 && nTx >= 6;
            else if (n == "handles") nt = nReuse >= 1;
            else if (n == "lists") nt = nHeldChanged >= 1;
            else if (n == "invalid") nt = nRejected >= 3;
            else if (n == "events") nt = nEvents >= 3;
            else if (n == "observers") nt = nEvents >= 2 && obsCounter >= 2;
            else if (n == "globals") nt = nGlobalOps >= 4;
            else if (n == "scope") nt = nScopeOps >= 4;
            else if (n == "release") nt = nReleased >= 3;
            else if (n == "multi") nt = nNestedTx >= 1 && insts.size() > 1;
            else nt = nMut >= 5 && nTx >= 6;
            if (nt) pbt::nontrivial();
            pbt::count("transactions", nTx);
            pbt::count("mutations", nMut);
            pbt::count("events delivered", nEvents);
            pbt::count("rejected accesses", nRejected);
        }
    };

    const Profile *profile = nullptr;
} // namespace

void pbt_init() {
    const char *name = pbt::param("profile", "core");
    for (auto &p : profiles)
        if (!strcmp(p.name, name)) profile = &p;
    if (!profile) pbt::broken("unknown profile %s", name);
    validOnly = !strcmp(name, "valid");
}

void pbt_case(pbt::Src &s) {
    trackReset();
    liveObjects = 0;
    if (pbt::paramInt("churn", 0)) {
        Machine m(s, *profile);
        m.insts.push_back(std::make_unique<Inst>());
        m.insts[0]->ecs = std::make_unique<ECS>();
        m.churn(*m.insts[0], (uint32_t)pbt::paramInt("churn", 0) + (uint32_t)s.below(1000));
        pbt::nontrivial();
        return;
    }
    Machine m(s, *profile);
    m.large = pbt::paramInt("large", 0) != 0;
    m.run();
}
