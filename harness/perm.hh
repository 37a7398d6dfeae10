// C16: the interface between a generated pool of permission specifications (templates, see lib/permgen.py) and the
// driver (perm.cc), which knows nothing about the library's types.
#pragma once
#include <cstddef>
#include <cstdint>
#include <optional>
#include <utility>
#include <vector>

namespace perm {
    // What one lock shows of one component of one entity (entity -1: a global component)
    struct Seen {
        bool readable = false, writable = false;
        bool has = false, had = false;
        int64_t cur = -1, prev = -1; // -1: threw, or may not be read
        bool listed = false, listedPrev = false;
    };
    struct SeenEntity {
        bool exists = false, existed = false, listed = false, listedPrev = false;
    };
    struct View {
        bool addRemove = false;
        uint64_t txId = 0;
        long useCount = 0;
        size_t entities = 0, entitiesPrev = 0;
        std::vector<SeenEntity> ent;
        std::vector<std::vector<Seen>> comp; // [component][entity]; one entry for a global component
    };
    struct Acquired {
        bool r = false, w = false;
    };

    enum Info {
        HasList, HasLock, HasDynamic, HasConstLock, LockSubset, ConvLL, ConsLL, ConvDL, ConvRL, INFO_COUNT
    };

    struct Set {
        std::vector<int> r, w;
        bool ar = false;
    };

    // Everything that can be done with locks of one specification. Null results: not possible with these types, or
    // TryLock returned nothing.
    struct Row {
        Set set; // as written in the specification
        const char *text;
        void *(*start)(void *world, int mode);
        void (*del[2])(void *);
        void (*view[2])(const void *, const std::vector<uint64_t> &ents, View &);
        bool (*write[2])(const void *, int comp, uint64_t ent, uint64_t value, int mode);
        uint64_t (*create[2])(const void *);
        bool (*destroy[2])(const void *, uint64_t ent);
        bool (*unset[2])(const void *, int comp, uint64_t ent);
        std::vector<void *(*)(const void *, int)> toLock[2], toDyn[2], roToLock[2], roToDyn[2], tryLock;
        std::vector<uint32_t> info; // per target: bits of Info
    };

    extern const int N, COMPS;
    extern const std::vector<int> observed; // component numbers
    bool isGlobal(int comp);
    Row makeRow(int i);
    void *newWorld();
    void deleteWorld(void *);
    bool tracing();
    void startTrace(void *world);
    // per component number, then the metadata
    std::vector<Acquired> stopTrace(void *world, bool &full);
} // namespace perm
