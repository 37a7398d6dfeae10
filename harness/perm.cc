// C16: conversions of locks. Chains of conversions between the specifications of a generated pool, on real transactions,
// compared with plain sets of permissions.
#include "perm.hh"

#include <algorithm>
#include <bitset>
#include <memory>
#include <stdexcept>
#include <string>

#include "pbt.hh"

using namespace perm;

namespace {
    struct Perms {
        std::bitset<128> r, w;
        bool ar = false;
        bool within(const Perms &o) const {
            return (r & ~o.r).none() && (w & ~o.w).none() && (!ar || o.ar);
        }
        Perms readOnly() const {
            Perms p;
            p.r = r;
            return p;
        }
    };
    std::vector<Row> rows;
    std::vector<Perms> perms;
    std::vector<int> roots; // specifications that transactions are started with

    struct Value {
        bool has = false;
        uint64_t v = 0;
    };
    struct EntityState {
        bool alive = false;
        std::vector<Value> c;
    };
    struct State {
        std::vector<EntityState> ent;
        std::vector<Value> glob;
    };

    struct Node {
        int dyn = 0, spec = 0;
        void *p = nullptr;
        bool ro = false;
        Perms from; // dynamic: the permissions of the type it was made from
        bool beyond = false; // more than the source's type promised
    };

    const char *kind(int dyn) {
        return dyn ? "DynamicLock" : "Lock";
    }

    struct Case {
        pbt::Src &s;
        void *world;
        State prev, cur;
        std::vector<uint64_t> ids;
        std::vector<Node> nodes;
        uint64_t next = 1, txId = 0;
        int root = 0;
        size_t granted = 0, refused = 0, between = 0, writes = 0, chains = 0;

        Case(pbt::Src &s) : s(s), world(newWorld()) {
            cur.glob.resize(observed.size());
        }
        ~Case() {
            for (auto &n : nodes)
                rows[n.spec].del[n.dyn](n.p);
            deleteWorld(world);
        }

        std::string name(const Node &n) {
            return std::string(n.ro ? "read-only " : "") + kind(n.dyn) + "<" + rows[n.spec].text + ">";
        }

        void add(int dyn, int spec, void *p, bool ro, const Perms &from, bool beyond) {
            Node n;
            n.dyn = dyn, n.spec = spec, n.p = p, n.ro = ro, n.from = from, n.beyond = beyond;
            nodes.push_back(n);
            if (nodes.size() > 2) chains++;
        }

        void check(const Node &n, const char *when) {
            View v;
            rows[n.spec].view[n.dyn](n.p, ids, v);
            const Perms &p = perms[n.spec];
            std::string who = name(n) + std::string(" ") + when;
            if (v.addRemove != p.ar) pbt::fail("%s: is_add_remove_allowed is %d", who.c_str(), v.addRemove);
            if (v.txId != txId)
                pbt::fail("%s: transaction id %llu, not %llu", who.c_str(), (unsigned long long)v.txId, (unsigned long long)txId);
            if (v.useCount != (long)nodes.size())
                pbt::fail("%s: UseCount is %ld with %zu locks", who.c_str(), v.useCount, nodes.size());
            const State &now = n.ro ? prev : cur;
            size_t alive = 0, before = 0;
            for (size_t e = 0; e < ids.size(); e++) {
                bool a = e < now.ent.size() && now.ent[e].alive, b = e < prev.ent.size() && prev.ent[e].alive;
                alive += a;
                before += b;
                if (v.ent[e].exists != a || v.ent[e].existed != b || v.ent[e].listed != a || v.ent[e].listedPrev != b)
                    pbt::fail("%s: entity %zu: exists %d existed %d listed %d listed before %d, expected %d %d", who.c_str(), e,
                        v.ent[e].exists, v.ent[e].existed, v.ent[e].listed, v.ent[e].listedPrev, a, b);
            }
            if (v.entities != alive || v.entitiesPrev != before)
                pbt::fail("%s: lists %zu and %zu entities, expected %zu and %zu", who.c_str(), v.entities, v.entitiesPrev, alive,
                    before);
            for (size_t c = 0; c < observed.size(); c++) {
                int comp = observed[c];
                size_t count = isGlobal(comp) ? 1 : ids.size();
                if (v.comp[c].size() != count) pbt::broken("component count");
                for (size_t e = 0; e < count; e++) {
                    const Seen &x = v.comp[c][e];
                    Value a, b;
                    if (isGlobal(comp)) a = now.glob[c], b = prev.glob[c];
                    else {
                        if (e < now.ent.size() && now.ent[e].alive) a = now.ent[e].c[c];
                        if (e < prev.ent.size() && prev.ent[e].alive) b = prev.ent[e].c[c];
                    }
                    if (x.readable != p.r[comp] || x.writable != p.w[comp])
                        pbt::fail("%s: component %d: readable %d writable %d", who.c_str(), comp, x.readable, x.writable);
                    if (x.has != a.has || x.had != b.has)
                        pbt::fail("%s: component %d of entity %zu: has %d had %d, expected %d %d", who.c_str(), comp, e, x.has,
                            x.had, a.has, b.has);
                    if (!isGlobal(comp) && (x.listed != a.has || x.listedPrev != b.has))
                        pbt::fail("%s: component %d of entity %zu: listed %d listed before %d, expected %d %d", who.c_str(), comp,
                            e, x.listed, x.listedPrev, a.has, b.has);
                    if (!p.r[comp]) continue;
                    int64_t ca = a.has ? (int64_t)a.v : -1, cb = b.has ? (int64_t)b.v : -1;
                    if (x.cur != ca || x.prev != cb)
                        pbt::fail("%s: component %d of entity %zu: reads %lld, previous %lld, expected %lld, previous %lld",
                            who.c_str(), comp, e, (long long)x.cur, (long long)x.prev, (long long)ca, (long long)cb);
                }
            }
        }

        // One change through lock n; false: nothing it may change
        bool change(const Node &n) {
            const Perms &p = perms[n.spec];
            const Row &r = rows[n.spec];
            if (p.ar && s.chance(1, 3)) {
                unsigned what = (unsigned)s.weighted({3, 1, 3});
                if (what == 0) {
                    if (ids.size() >= 6) return false;
                    uint64_t id = r.create[n.dyn](n.p);
                    if (!id) pbt::fail("%s: creates no entity", name(n).c_str());
                    for (uint64_t o : ids)
                        if (o == id) pbt::fail("%s: created an old entity", name(n).c_str());
                    ids.push_back(id);
                    cur.ent.resize(ids.size());
                    prev.ent.resize(ids.size());
                    cur.ent.back().alive = true;
                    cur.ent.back().c.assign(observed.size(), Value());
                    prev.ent.back().c.assign(observed.size(), Value());
                    PLOG("  %s: entity %zu created", name(n).c_str(), ids.size() - 1);
                    return true;
                }
                if (what == 1) {
                    if (ids.empty()) return false;
                    size_t e = s.below(ids.size());
                    if (!cur.ent[e].alive) return false;
                    if (!r.destroy[n.dyn](n.p, ids[e])) pbt::fail("%s may not destroy", name(n).c_str());
                    cur.ent[e].alive = false;
                    for (auto &v : cur.ent[e].c)
                        v = Value();
                    PLOG("  %s: entity %zu destroyed", name(n).c_str(), e);
                    return true;
                }
                size_t c = s.below(observed.size());
                if (isGlobal(observed[c])) {
                    if (!r.unset[n.dyn](n.p, observed[c], 0)) pbt::fail("%s may not remove", name(n).c_str());
                    cur.glob[c] = Value();
                } else {
                    if (ids.empty()) return false;
                    size_t e = s.below(ids.size());
                    if (!cur.ent[e].alive) return false;
                    if (!r.unset[n.dyn](n.p, observed[c], ids[e])) pbt::fail("%s may not remove", name(n).c_str());
                    cur.ent[e].c[c] = Value();
                }
                PLOG("  %s: component %d removed", name(n).c_str(), observed[c]);
                return true;
            }
            std::vector<size_t> may;
            for (size_t c = 0; c < observed.size(); c++)
                if (p.w[observed[c]]) may.push_back(c);
            if (may.empty()) return false;
            size_t c = may[s.below(may.size())];
            int comp = observed[c];
            Value *v = nullptr;
            uint64_t id = 0;
            if (isGlobal(comp)) v = &cur.glob[c];
            else {
                if (ids.empty()) return false;
                size_t e = s.below(ids.size());
                if (!cur.ent[e].alive) return false;
                v = &cur.ent[e].c[c];
                id = ids[e];
            }
            if (!v->has && !p.ar) return false;
            int mode = (int)s.below(3);
            v->has = true;
            v->v = next++;
            PLOG("  %s: component %d = %llu", name(n).c_str(), comp, (unsigned long long)v->v);
            if (!rows[n.spec].write[n.dyn](n.p, comp, id, v->v, mode)) pbt::fail("%s may not write component %d", name(n).c_str(), comp);
            writes++;
            return true;
        }

        void types(int i, int j) {
            static const char *names[INFO_COUNT] = {"Lock<from>::has_permissions<to...>", "Lock<from>::has_permissions<Lock<to>>",
                "Lock<from>::has_permissions<DynamicLock<to>>", "Lock<from>::has_permissions<const Lock<to>>",
                "Lock<to>::is_lock_subset<from...>", "convertible from Lock", "constructible from Lock",
                "convertible from DynamicLock", "convertible from the read-only subset"};
            for (int k = 0; k < INFO_COUNT; k++) {
                bool got = rows[i].info[j] >> k & 1;
                bool want = k == ConvRL ? perms[j].within(perms[i].readOnly()) : perms[j].within(perms[i]);
                if (got != want)
                    pbt::fail("from <%s> to <%s>: %s is %d", rows[i].text, rows[j].text, names[k], got);
            }
        }

        // Any j, or (often) one that the model says is possible
        int target(const Perms &p) {
            if (s.chance(1, 4)) return (int)s.below(N);
            int first = (int)s.below(N);
            for (int k = 0; k < N; k++)
                if (perms[(first + k) % N].within(p)) return (first + k) % N;
            return first;
        }

        void made(void *p, bool possible, int dyn, int j, const Node &from, bool ro, const Perms &source, const char *how) {
            if (!p) {
                if (possible)
                    pbt::fail("%s of %s: no %s<%s>", how, name(from).c_str(), kind(dyn), rows[j].text);
                return;
            }
            Node f = from;
            if (!possible) {
                add(dyn, j, p, ro, source, false);
                pbt::fail("%s of %s: yields %s<%s>", how, name(f).c_str(), kind(dyn), rows[j].text);
            }
            add(dyn, j, p, ro, source, f.beyond);
            PLOG("  %zu: %s of %s -> %s", nodes.size() - 1, how, name(f).c_str(), name(nodes.back()).c_str());
            check(nodes.back(), "(just made)");
        }

        void transaction(int spec, unsigned mean) {
            root = spec;
            PLOG("transaction <%s>", rows[spec].text);
            bool trace = tracing() && s.chance(1, 2);
            if (trace) startTrace(world);
            prev = cur;
            int mode = (int)s.below(2);
            void *p = rows[spec].start(world, mode);
            {
                View v;
                rows[spec].view[0](p, ids, v);
                if (v.txId == txId) pbt::fail("the transaction id is that of the transaction before");
                txId = v.txId;
            }
            add(0, spec, p, false, perms[spec], false);
            check(nodes[0], "(start)");
            s.stepsLeft = 40;
            while (!nodes.empty() && s.more(mean)) {
                size_t k = s.below(nodes.size());
                Node n = nodes[k];
                const Perms &st = perms[n.spec];
                unsigned what = (unsigned)s.weighted({3, 2, 4, 1, 1, 6, 5, 1, 2});
                if (nodes.size() >= 12 && what < 6) what = 8;
                switch (what) {
                case 0: {
                    int j = target(st);
                    made(rows[n.spec].toLock[n.dyn][j](n.p, (int)s.below(2)), perms[j].within(st), 0, j, n, n.ro, st, "conversion");
                    break;
                }
                case 1: { // a dynamic lock of a dynamic lock
                    if (!n.dyn) {
                        for (size_t o = 0; o < nodes.size(); o++)
                            if (nodes[o].dyn) n = nodes[o];
                    }
                    const Perms &own = perms[n.spec];
                    int j = target(own);
                    made(rows[n.spec].toDyn[n.dyn][j](n.p, (int)s.below(2)), perms[j].within(own), 1, j, n, n.ro,
                        n.dyn && j == n.spec ? n.from : own, "dynamic lock");
                    break;
                }
                case 2: {
                    int j = target(st);
                    made(rows[n.spec].toDyn[n.dyn][j](n.p, (int)s.below(2)), perms[j].within(st), 1, j, n, n.ro,
                        n.dyn && j == n.spec ? n.from : st, "dynamic lock");
                    break;
                }
                case 3: {
                    int j = target(st.readOnly());
                    made(rows[n.spec].roToLock[n.dyn][j](n.p, (int)s.below(2)), perms[j].within(st.readOnly()), 0, j, n, true,
                        st.readOnly(), "read-only subset");
                    break;
                }
                case 4: {
                    int j = target(st.readOnly());
                    made(rows[n.spec].roToDyn[n.dyn][j](n.p, 0), perms[j].within(st.readOnly()), 1, j, n, true, st.readOnly(),
                        "read-only dynamic lock");
                    break;
                }
                case 5: {
                    for (size_t o = 0; o < nodes.size() && !n.dyn; o++)
                        if (nodes[(k + o) % nodes.size()].dyn) n = nodes[(k + o) % nodes.size()];
                    if (!n.dyn) break;
                    unsigned aim = (unsigned)s.weighted({3, 2, 3});
                    int j = aim == 0 ? target(n.from) : aim == 1 ? target(perms[root]) : (int)s.below(N);
                    const Perms &d = perms[j];
                    bool must = d.within(n.from);
                    bool mustNot = !d.within(perms[root]) || (n.ro && (d.w.any() || d.ar));
                    if (must && mustNot) pbt::broken("model");
                    void *r = rows[n.spec].tryLock[j](n.p, 0);
                    std::string who = name(n);
                    if (must && !r)
                        pbt::fail("TryLock<%s> on %s fails, although it was made from a lock with these permissions", rows[j].text,
                            who.c_str());
                    if (r) {
                        add(0, j, r, n.ro, perms[j], !must);
                        if (mustNot)
                            pbt::fail("TryLock<%s> on %s succeeds in a transaction <%s>", rows[j].text, who.c_str(), rows[root].text);
                        PLOG("  %zu: TryLock<%s> of %s", nodes.size() - 1, rows[j].text, who.c_str());
                        check(nodes.back(), "(from TryLock)");
                        granted++;
                    } else {
                        PLOG("  TryLock<%s> of %s: refused", rows[j].text, who.c_str());
                        if (mustNot) refused++;
                    }
                    if (!must && !mustNot) between++;
                    break;
                }
                case 6:
                    for (size_t o = 0; o < nodes.size() && !perms[n.spec].w.any(); o++)
                        n = nodes[(k + o) % nodes.size()];
                    if (change(n)) check(nodes[s.below(nodes.size())], "(after a change)");
                    break;
                case 7:
                    check(n, "");
                    break;
                default:
                    if (nodes.size() < 2) break;
                    PLOG("  drop %s", name(n).c_str());
                    rows[n.spec].del[n.dyn](n.p);
                    nodes.erase(nodes.begin() + (long)k);
                    check(nodes[s.below(nodes.size())], "(after one was dropped)");
                    break;
                }
            }
            for (auto &n : nodes)
                check(n, "(at the end)");
            while (!nodes.empty()) {
                size_t k = s.below(nodes.size());
                Node n = nodes[k];
                rows[n.spec].del[n.dyn](n.p);
                nodes.erase(nodes.begin() + (long)k);
            }
            if (trace) {
                bool full = false;
                auto a = stopTrace(world, full);
                const Perms &p2 = perms[spec];
                if (full) pbt::broken("trace capacity");
                for (int c = 0; c < COMPS; c++)
                    if (a[c].w != p2.w[c] || a[c].r != (p2.r[c] && !p2.w[c]))
                        pbt::fail("transaction <%s> took %s%s lock of component %d", rows[spec].text,
                            a[c].r ? "the read" : a[c].w ? "" : "no", a[c].w ? "the write" : "", c);
                if (a[COMPS].w != p2.ar || a[COMPS].r == p2.ar)
                    pbt::fail("transaction <%s>: metadata lock read %d write %d", rows[spec].text, a[COMPS].r, a[COMPS].w);
            }
        }

        // The state after the commit, in a transaction of its own
        void after() {
            prev = cur;
            txId = 0;
            void *p = rows[1].start(world, 0);
            View v;
            rows[1].view[0](p, ids, v);
            txId = v.txId;
            add(0, 1, p, false, perms[1], false);
            check(nodes[0], "(after the commit)");
            rows[1].del[0](p);
            nodes.clear();
        }
    };
} // namespace

void pbt_init() {
    for (int i = 0; i < N; i++) {
        rows.push_back(makeRow(i));
        if (rows[i].start) roots.push_back(i);
        Perms p;
        for (int c : rows[i].set.r)
            p.r[c] = true;
        for (int c : rows[i].set.w)
            p.w[c] = true;
        p.ar = rows[i].set.ar;
        perms.push_back(p);
    }
}

void pbt_case(pbt::Src &s) {
    Case c(s);
    for (int k = 0; k < 4; k++)
        c.types((int)s.below(N), (int)s.below(N));
    // Entities and components to begin with
    if (s.chance(3, 4)) {
        c.prev = c.cur;
        void *p = rows[0].start(c.world, 0);
        unsigned n = 3 - (unsigned)s.weighted({3, 3, 2, 1});
        for (unsigned i = 0; i < n; i++) {
            c.ids.push_back(rows[0].create[0](p));
            c.cur.ent.emplace_back().alive = true;
            c.cur.ent.back().c.resize(observed.size());
            for (size_t k = 0; k < observed.size(); k++) {
                if (isGlobal(observed[k]) || !s.chance(2, 3)) continue;
                c.cur.ent.back().c[k] = {true, c.next};
                rows[0].write[0](p, observed[k], c.ids.back(), c.next++, 0);
            }
        }
        for (size_t k = 0; k < observed.size(); k++) {
            if (!isGlobal(observed[k]) || !s.chance(1, 2)) continue;
            c.cur.glob[k] = {true, c.next};
            rows[0].write[0](p, observed[k], 0, c.next++, 0);
        }
        rows[0].del[0](p);
        c.after();
    }
    unsigned rounds = 1 + (unsigned)s.weighted({4, 2, 1});
    for (unsigned r = 0; r < rounds; r++) {
        s.mark();
        c.transaction(s.chance(1, 3) ? roots[s.below(2)] : roots[s.below(roots.size())], 18);
        c.after();
    }
    if (c.granted) pbt::label("TryLock granted");
    if (c.refused) pbt::label("TryLock refused");
    if (c.between) pbt::label("TryLock beyond the source's type");
    if (c.writes) pbt::label("writes");
    if (c.granted && c.refused && c.writes) pbt::nontrivial();
}
