// World and type-erased transactions for the concurrent harnesses.
#pragma once
#include "pbt.hh"
#include "shim.hh"

namespace cw {
    // A two-word value; copying and reading it can be interrupted by the scheduler between the words.
    template<int K>
    struct Val {
        uint64_t v = 0;
        uint64_t w = ~0ull;
        Val() = default;
        explicit Val(uint64_t x) : v(x), w(~x) {}
        Val(const Val &o) {
            v = o.v;
            if (v) sched::point();
            w = o.w;
        }
        Val &operator=(const Val &o) {
            v = o.v;
            if (v) sched::point();
            w = o.w;
            return *this;
        }
        uint64_t value() const {
            uint64_t x = v;
            sched::point();
            if (w != ~x)
                pbt::fail("torn value of component %d: %llx / %llx", K, (unsigned long long)x, (unsigned long long)~w);
            return x;
        }
        void assign(uint64_t x) {
            v = x;
            sched::point();
            w = ~x;
        }
    };
    using A = Val<0>;
    using B = Val<1>;
    using C = Val<2>;
    using G = Val<3>;
} // namespace cw
TECS_GLOBAL_COMPONENT(cw::G)

namespace cw {
    using ECS = Tecs::ECS<A, G, B, C>;
    using Entity = Tecs::Entity;
    using Tecs::AddRemove;
    using Tecs::Read;
    using Tecs::ReadAll;
    using Tecs::Write;
    using Tecs::WriteAll;
    // Resources: what a transaction can hold or change
    enum { rA = 0, rB = 1, rC = 2, rG = 3, rM = 4, NRES = 5 };
    static const char *const resName[] = {"A", "B", "C", "G", "entities"};

    template<int I>
    struct Kind;
#define CW_KIND(I, R, W, AR, ...)                                                                                      \
    template<>                                                                                                         \
    struct Kind<I> {                                                                                                   \
        using type = Tecs::Lock<ECS __VA_OPT__(, ) __VA_ARGS__>;                                                       \
        static constexpr unsigned read = R, write = W;                                                                 \
        static constexpr bool ar = AR;                                                                                 \
        static constexpr const char *name = "<" #__VA_ARGS__ ">";                                                      \
    };
    CW_KIND(0, 0, 0, false)
    CW_KIND(1, 15, 15, true, AddRemove)
    CW_KIND(2, 15, 0, false, ReadAll)
    CW_KIND(3, 15, 15, false, WriteAll)
    CW_KIND(4, 1, 0, false, Read<A>)
    CW_KIND(5, 2, 0, false, Read<B>)
    CW_KIND(6, 3, 0, false, Read<A, B>)
    CW_KIND(7, 1, 1, false, Write<A>)
    CW_KIND(8, 2, 2, false, Write<B>)
    CW_KIND(9, 3, 3, false, Write<A, B>)
    CW_KIND(10, 3, 2, false, Read<A>, Write<B>)
    CW_KIND(11, 3, 1, false, Read<B>, Write<A>)
    CW_KIND(12, 8, 0, false, Read<G>)
    CW_KIND(13, 8, 8, false, Write<G>)
    CW_KIND(14, 12, 12, false, Write<C, G>)
    CW_KIND(15, 12, 0, false, Read<C, G>)
    CW_KIND(16, 7, 4, false, Read<A, B>, Write<C>)
    CW_KIND(17, 15, 2, false, ReadAll, Write<B>)
    static constexpr int NKINDS = 18;

    struct KindInfo {
        unsigned read, write;
        bool ar;
        const char *name;
    };

    struct Obs {
        virtual ~Obs() {}
        // kind of event, entity, value; false when there is none
        int stream = 0; // 0 entities, 1 component A, 2 global G
    };

    struct Tx {
        int kind;
        virtual ~Tx() {}
        virtual size_t txid() const = 0;
        virtual bool exists(const Entity &e) const = 0;
        virtual bool existed(const Entity &e) const = 0;
        virtual unsigned has(const Entity &e) const = 0; // mask of A B C
        virtual unsigned had(const Entity &e) const = 0;
        virtual uint64_t get(const Entity &e, int c) const = 0;
        virtual uint64_t getPrev(const Entity &e, int c) const = 0;
        virtual void set(const Entity &e, int c, uint64_t v, int how) const = 0; // how 0 Set, 1 Get&, 2 Set from lvalue
        virtual void touch(const Entity &e, int c) const = 0;                   // mutable Get without a change
        virtual void unset(const Entity &e, int c) const = 0;
        virtual void destroy(const Entity &e) const = 0;
        virtual Entity create() const = 0;
        virtual bool gHas() const = 0;
        virtual bool gHad() const = 0;
        virtual uint64_t gGet() const = 0;
        virtual uint64_t gGetPrev() const = 0;
        virtual void gSet(uint64_t v, int how) const = 0;
        virtual void gTouch() const = 0;
        virtual void gUnset() const = 0;
        virtual Tecs::EntityView list(int c, bool prev) const = 0; // c == 3: all entities
        virtual Obs *watch(int stream) const = 0;
        virtual bool poll(Obs &o, int &type, Entity &e, uint64_t &v) const = 0;
        virtual void stop(Obs &o) const = 0;
        // keeps the transaction alive through another lock only: mode 0 copy, 1 read-only subset, 2 Lock<ECS>
        virtual void keepOther(int mode) = 0;
        virtual void dropMain() = 0;
        virtual void dropOther() = 0;
    };
    extern const KindInfo kinds[NKINDS];
    Tx *start(ECS &ecs, int kind);
} // namespace cw
