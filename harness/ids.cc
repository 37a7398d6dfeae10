// C21: entity handles as values, for the id types this file is compiled with.
#include <Tecs.hh>

#include <algorithm>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "pbt.hh"

using Tecs::Entity;
using Index = TECS_ENTITY_INDEX_TYPE;
using Gen = TECS_ENTITY_GENERATION_TYPE;
using Id = TECS_ENTITY_ECS_IDENTIFIER_TYPE;

namespace {
    constexpr unsigned INDEX_BITS = sizeof(Index) * 8, GEN_BITS = sizeof(Gen) * 8, ID_BITS = sizeof(Id) * 8;
    constexpr unsigned BARE_BITS = GEN_BITS - ID_BITS;

    // What the handle must be, with plain wide integers
    struct Want {
        uint64_t index, bare, id; // bare: generation without the identifier
        uint64_t gen() const {
            return (id << BARE_BITS) | bare;
        }
        bool operator==(const Want &o) const {
            return index == o.index && bare == o.bare && id == o.id;
        }
    };

    std::string show(const Want &w) {
        char b[128];
        snprintf(b, sizeof b, "{index %llu, generation %llu, instance %llu}", (unsigned long long)w.index,
            (unsigned long long)w.bare, (unsigned long long)w.id);
        return b;
    }

    uint64_t mask(unsigned bits) {
        return bits >= 64 ? ~0ull : (1ull << bits) - 1;
    }

    uint64_t field(pbt::Src &s, unsigned bits) {
        switch (s.weighted({4, 2, 2, 2, 3, 2})) {
        case 0:
            return s.below(4);
        case 1:
            return mask(bits) - s.below(3);
        case 2:
            return (1ull << s.below(bits)) & mask(bits);
        case 3:
            return ((1ull << s.below(bits)) - 1) & mask(bits);
        case 4:
            return s.bits64() & mask(bits);
        default:
            return (s.bits64() & s.bits64() & s.bits64()) & mask(bits);
        }
    }

    // Builds the handle in one of the documented ways
    Entity build(pbt::Src &s, const Want &w) {
        switch (s.below(5)) {
        case 0:
            return Entity((Index)w.index, (Gen)w.bare, (Id)w.id);
        case 1:
            return Entity((Index)w.index, (Gen)w.gen());
        case 2:
            return Entity((w.gen() << INDEX_BITS) | w.index);
        case 3: {
            // an identifier already in the generation is replaced
            Gen other = (Gen)((field(s, ID_BITS) << BARE_BITS) | w.bare);
            return Entity((Index)w.index, other, (Id)w.id);
        }
        default: {
            Entity e;
            e = Entity((Index)w.index, Tecs::GenerationWithIdentifier((Gen)w.bare, (Id)w.id));
            Entity f = e;
            return f;
        }
        }
    }
} // namespace

void pbt_init() {}

void pbt_case(pbt::Src &s) {
    std::vector<Want> want;
    std::vector<Entity> ent;
    s.stepsLeft = 14;
    while (want.size() < 2 || s.more(8)) {
        Want w;
        if (want.empty() || s.chance(1, 2)) {
            w = {field(s, INDEX_BITS), field(s, BARE_BITS), s.chance(1, 2) ? 1 : field(s, ID_BITS)};
        } else {
            // close to one that is there: same, or one field changed or swapped
            w = want[s.below(want.size())];
            switch (s.below(8)) {
            case 0:
                break;
            case 1:
                w.index ^= 1ull << s.below(INDEX_BITS);
                break;
            case 2:
                w.bare ^= 1ull << s.below(BARE_BITS);
                break;
            case 3:
                w.id ^= 1ull << s.below(ID_BITS);
                break;
            case 4: {
                uint64_t t = w.index & mask(BARE_BITS);
                w.index = w.bare & mask(INDEX_BITS);
                w.bare = t;
                break;
            }
            case 5:
                w.index = (w.index + 1) & mask(INDEX_BITS);
                w.bare = (w.bare - 1) & mask(BARE_BITS);
                break;
            case 6: {
                uint64_t t = w.id & mask(BARE_BITS);
                w.id = w.bare & mask(ID_BITS);
                w.bare = t;
                break;
            }
            default:
                w.bare = (w.bare + 1) & mask(BARE_BITS);
                break;
            }
        }
        want.push_back(w);
        ent.push_back(build(s, w));
        PLOG("  %zu: %s\n", want.size() - 1, show(w).c_str());
        if (want.size() >= 14) break;
    }
    size_t n = want.size();
    std::hash<Entity> hash;
    std::vector<std::string> printed;
    bool near = false, nulls = false;
    for (size_t i = 0; i < n; i++) {
        const Want &w = want[i];
        const Entity &e = ent[i];
        std::string t = show(w);
        // parts
        if (e.index != w.index) pbt::fail("%s: index comes back as %llu", t.c_str(), (unsigned long long)e.index);
        if (e.generation != w.gen()) pbt::fail("%s: generation comes back as %llx", t.c_str(), (unsigned long long)e.generation);
        if (Tecs::GenerationWithoutIdentifier(e.generation) != w.bare)
            pbt::fail("%s: generation without identifier is %llu", t.c_str(),
                (unsigned long long)Tecs::GenerationWithoutIdentifier(e.generation));
        if (Tecs::IdentifierFromGeneration(e.generation) != w.id)
            pbt::fail("%s: identifier is %llu", t.c_str(), (unsigned long long)Tecs::IdentifierFromGeneration(e.generation));
        if (Tecs::GenerationWithIdentifier(Tecs::GenerationWithoutIdentifier(e.generation),
                Tecs::IdentifierFromGeneration(e.generation)) != e.generation)
            pbt::fail("%s: taking the generation apart and together changes it", t.c_str());
        // 64 bits
        uint64_t packed = (uint64_t)e;
        if (!(Entity(packed) == e)) pbt::fail("%s: packing into 64 bits and back gives %s", t.c_str(), std::to_string(Entity(packed)).c_str());
        if ((uint64_t)Entity(packed) != packed) pbt::fail("%s: packing is not stable", t.c_str());
        // null
        bool null = w.gen() == 0;
        nulls |= null;
        if ((bool)e == null || !e != null) pbt::fail("%s: bool is %d, ! is %d", t.c_str(), (bool)e, !e);
        printed.push_back(std::to_string(e));
    }
    if (Entity() || !!Entity() || Entity().generation != 0) pbt::fail("a default entity is not null");
    for (size_t i = 0; i < n; i++) {
        for (size_t j = 0; j < n; j++) {
            const Entity &a = ent[i], &b = ent[j];
            bool same = want[i] == want[j];
            std::string t = show(want[i]) + " and " + show(want[j]);
            if ((a == b) != same) pbt::fail("%s: == is %d", t.c_str(), a == b);
            if ((a != b) == same) pbt::fail("%s: != is %d", t.c_str(), a != b);
            if ((int)(a < b) + (int)(b < a) + (int)(a == b) != 1)
                pbt::fail("%s: < %d, > %d, == %d: not exactly one holds", t.c_str(), a < b, b < a, a == b);
            if (((uint64_t)a == (uint64_t)b) != same) pbt::fail("%s: packed integers equal: %d", t.c_str(), !same);
            if (same && hash(a) != hash(b)) pbt::fail("%s: equal entities have different hashes", t.c_str());
            if (same && printed[i] != printed[j]) pbt::fail("%s: equal entities print differently", t.c_str());
            if (!same && a && b && printed[i] == printed[j]) pbt::fail("%s: both print as %s", t.c_str(), printed[i].c_str());
            if (a && !b && printed[i] == printed[j]) pbt::fail("%s: prints like a null entity: %s", t.c_str(), printed[i].c_str());
            if (i < j && !same &&
                ((want[i].index == want[j].index) + (want[i].bare == want[j].bare) + (want[i].id == want[j].id)) == 2)
                near = true;
        }
    }
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++)
            for (size_t k = 0; k < n; k++)
                if (ent[i] < ent[j] && ent[j] < ent[k] && !(ent[i] < ent[k]))
                    pbt::fail("ordering is not transitive: %s < %s < %s", show(want[i]).c_str(), show(want[j]).c_str(),
                        show(want[k]).c_str());
    // containers built on these operations
    std::set<Entity> ordered(ent.begin(), ent.end());
    std::unordered_set<Entity> hashed(ent.begin(), ent.end());
    std::set<uint64_t> distinct;
    for (auto &w : want)
        distinct.insert((w.gen() << INDEX_BITS) | w.index);
    if (ordered.size() != distinct.size() || hashed.size() != distinct.size())
        pbt::fail("%zu distinct entities, %zu in a set, %zu in an unordered set", distinct.size(), ordered.size(), hashed.size());
    std::vector<Entity> sorted = ent;
    std::sort(sorted.begin(), sorted.end());
    for (size_t i = 1; i < n; i++)
        if (sorted[i] < sorted[i - 1]) pbt::fail("std::sort does not sort entities");
    if (nulls) pbt::label("null entities");
    if (near) pbt::label("entities that differ in one field");
    if (near && distinct.size() >= 3) pbt::nontrivial();
}
