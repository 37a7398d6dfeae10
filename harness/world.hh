// The world used by the sequential and configuration harnesses, and a type-erased view of its locks.
#pragma once
#include "pbt.hh"
#include "shim.hh"

namespace world {
    // ---- tracked values: every live object is counted, per payload id ----
    extern std::vector<int32_t> liveById;
    extern int64_t liveObjects;
    extern int64_t constructions;
    void trackReset();
    void trackInc(uint64_t id);
    void trackDec(uint64_t id);

    // Heap-owning value. K distinguishes types, Movable decides whether it has (noexcept) moves.
    template<int K, bool Movable>
    struct Tracked {
        static constexpr uint32_t ALIVE = 0xA11FE000u + K, DEAD = 0xDEADBEEFu;
        uint64_t *p; // null: the default value
        uint32_t magic;

        Tracked() : p(nullptr), magic(ALIVE) {
            liveObjects++;
            constructions++;
        }
        explicit Tracked(uint64_t v) : p(v ? new uint64_t(v) : nullptr), magic(ALIVE) {
            liveObjects++;
            constructions++;
            trackInc(v);
        }
        Tracked(const Tracked &o) : p(nullptr), magic(ALIVE) {
            o.check();
            liveObjects++;
            constructions++;
            if (o.p) {
                p = new uint64_t(*o.p);
                trackInc(*p);
            }
        }
        Tracked(Tracked &&o) noexcept : p(nullptr), magic(ALIVE) {
            o.check();
            liveObjects++;
            constructions++;
            if constexpr (Movable) {
                p = o.p;
                o.p = nullptr;
            } else if (o.p) {
                p = new uint64_t(*o.p);
                trackInc(*p);
            }
        }
        Tracked &operator=(const Tracked &o) {
            check();
            o.check();
            if (this == &o) return *this;
            drop();
            if (o.p) {
                p = new uint64_t(*o.p);
                trackInc(*p);
            }
            return *this;
        }
        Tracked &operator=(Tracked &&o) noexcept {
            check();
            o.check();
            if (this == &o) return *this;
            drop();
            if (Movable) {
                p = o.p;
                o.p = nullptr;
            } else if (o.p) {
                p = new uint64_t(*o.p);
                trackInc(*p);
            }
            return *this;
        }
        ~Tracked() {
            check();
            drop();
            magic = DEAD;
            liveObjects--;
        }
        uint64_t value() const {
            check();
            return p ? *p : 0;
        }
        void assign(uint64_t v) {
            check();
            drop();
            if (v) {
                p = new uint64_t(v);
                trackInc(v);
            }
        }

    private:
        void drop() {
            if (p) {
                trackDec(*p);
                delete p;
                p = nullptr;
            }
        }
        void check() const {
            if (magic != ALIVE) pbt::fail("a component value was used outside its lifetime (magic %08x)", magic);
        }
    };

    using A = Tracked<0, true>;
    using C = Tracked<1, false>;
    using G1 = Tracked<2, true>;
    struct B {
        uint64_t v = 5;
        uint64_t twice = 10;
        B() = default;
        explicit B(uint64_t x) : v(x), twice(2 * x) {}
        uint64_t value() const {
            if (twice != 2 * v) pbt::fail("torn component value: %llu %llu", (unsigned long long)v, (unsigned long long)twice);
            return v;
        }
        void assign(uint64_t x) {
            v = x;
            twice = 2 * x;
        }
    };
    struct G2 {
        uint64_t v = 9;
        G2() = default;
        explicit G2(uint64_t x) : v(x) {}
        uint64_t value() const {
            return v;
        }
        void assign(uint64_t x) {
            v = x;
        }
    };
} // namespace world

TECS_GLOBAL_COMPONENT(world::G1)
TECS_GLOBAL_COMPONENT(world::G2)
TECS_NAME_COMPONENT(world::B, "Bee")

namespace world {
    using ECS = Tecs::ECS<A, G1, B, C, G2>;
    using Entity = Tecs::Entity;
    // Component numbers: bits of a mask
    enum { cA = 1, cG1 = 2, cB = 4, cC = 8, cG2 = 16, cALL = 31, cENT = cA | cB | cC };
    static constexpr uint64_t DEFAULTS[3] = {0, 5, 0}; // A B C
    static constexpr uint64_t GDEFAULTS[2] = {0, 9};   // G1 G2

    template<typename... P>
    using L = Tecs::Lock<ECS, P...>;
    using Tecs::AddRemove;
    using Tecs::Read;
    using Tecs::ReadAll;
    using Tecs::Write;
    using Tecs::WriteAll;

    // Lock types: number, readable components, writable components, add/remove. The first NKINDS start transactions.
    template<int I>
    struct LT;
    template<>
    struct LT<0> {
        using type = L<>;
        static constexpr unsigned read = 0, write = 0;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<1> {
        using type = L<AddRemove>;
        static constexpr unsigned read = 31, write = 31;
        static constexpr bool addRemove = true;
    };
    template<>
    struct LT<2> {
        using type = L<ReadAll>;
        static constexpr unsigned read = 31, write = 0;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<3> {
        using type = L<WriteAll>;
        static constexpr unsigned read = 31, write = 31;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<4> {
        using type = L<Read<A>>;
        static constexpr unsigned read = cA, write = 0;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<5> {
        using type = L<Write<A>>;
        static constexpr unsigned read = cA, write = cA;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<6> {
        using type = L<Read<A>, Write<B, G1>>;
        static constexpr unsigned read = cA | cB | cG1, write = cB | cG1;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<7> {
        using type = L<Write<C>, Read<B, G2>>;
        static constexpr unsigned read = cB | cC | cG2, write = cC;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<8> {
        using type = L<Read<G1, B>>;
        static constexpr unsigned read = cB | cG1, write = 0;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<9> {
        using type = L<ReadAll, Write<C, G2>>;
        static constexpr unsigned read = 31, write = cC | cG2;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<10> {
        using type = L<Read<>>;
        static constexpr unsigned read = 0, write = 0;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<11> {
        using type = L<Read<A, G1, B, C, G2>>;
        static constexpr unsigned read = 31, write = 0;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<12> {
        using type = L<Read<A, G1, B>>;
        static constexpr unsigned read = cA | cG1 | cB, write = 0;
        static constexpr bool addRemove = false;
    };
    template<>
    struct LT<13> {
        using type = L<Read<B, C, G2>>;
        static constexpr unsigned read = cB | cC | cG2, write = 0;
        static constexpr bool addRemove = false;
    };
    static constexpr int NKINDS = 10, NTYPES = 14;

    struct Caps {
        unsigned read, write;
        bool addRemove;
        const char *name;
    };
    extern const Caps caps[NTYPES];

    enum Status { OK, THREW, NOT_ALLOWED, OTHER_EXCEPTION };
    struct Res {
        Status st = NOT_ALLOWED;
        uint64_t v = 0;
        bool wasConst = false;
        std::string what;
    };
    struct Event {
        int type; // 1 added, 2 removed
        Entity e;
        uint64_t v;
    };
    // Observer of event stream s: 0 entities, 1..5 components A G1 B C G2
    struct IObserver {
        int stream;
        virtual ~IObserver() {}
        virtual bool alive() const = 0;
        virtual IObserver *clone() const = 0;
    };

    // Entity components are numbered 0..2 (A B C), globals 0..1 (G1 G2); masks use those numbers as bits.
    struct ILock {
        int type;
        virtual ~ILock() {}
        virtual long useCount() const = 0;
        virtual ECS &instance() const = 0;
        virtual size_t txid() const = 0;
        virtual bool exists(const Entity &e) const = 0;
        virtual bool existed(const Entity &e) const = 0;
        virtual bool has(const Entity &e, unsigned mask) const = 0;
        virtual bool had(const Entity &e, unsigned mask) const = 0;
        virtual Res getConst(const Entity &e, int c) const = 0;
        virtual Res getPlain(const Entity &e, int c, const uint64_t *assign) const = 0;
        virtual Res getPrevious(const Entity &e, int c) const = 0;
        virtual Res set(const Entity &e, int c, uint64_t v, int variant) const = 0;
        virtual Res unset(const Entity &e, unsigned mask) const = 0;
        virtual Res destroyConst(const Entity &e) const = 0;
        virtual Res destroy(Entity &e) const = 0;
        virtual Res newEntity(Entity &out) const = 0;
        virtual bool gHas(unsigned mask) const = 0;
        virtual bool gHad(unsigned mask) const = 0;
        virtual Res gGetConst(int g) const = 0;
        virtual Res gGetPlain(int g, const uint64_t *assign) const = 0;
        virtual Res gGetPrevious(int g) const = 0;
        virtual Res gSet(int g, uint64_t v, int variant) const = 0;
        virtual Res gUnset(unsigned mask) const = 0;
        virtual Tecs::EntityView entities() const = 0;
        virtual Tecs::EntityView previousEntities() const = 0;
        virtual Tecs::EntityView entitiesWith(int c) const = 0;
        virtual Tecs::EntityView previousEntitiesWith(int c) const = 0;
        virtual ILock *copy() const = 0;
        virtual ILock *takeOver() = 0; // move-construct a new lock from this one
        virtual ILock *derive(int type, int how) const = 0; // null if not a static subset
        virtual ILock *readOnly() const = 0;
        virtual ILock *dynamicTo(int type) const = 0; // DynamicLock<ECS>(lock).TryLock
        virtual IObserver *watch(int stream) const = 0;
        virtual bool stop(IObserver &o, int variant) const = 0;
        virtual bool poll(IObserver &o, Event &out) const = 0;
    };
    // An instance of another type (stranger.cc)
    struct IStranger {
        virtual ~IStranger() = default;
        virtual void step(int create, int destroy, std::vector<Entity> &made) = 0;
        virtual void check() = 0;
        virtual bool denotes(const Entity &e) = 0; // e must not be one of its own
        virtual bool isAlive(const Entity &e) = 0;
    };
    IStranger *makeStranger(int which);
    ILock *startTx(ECS &ecs, int kind); // throws what the library throws

    template<int I>
    ILock *wrap(const typename LT<I>::type &l);
    template<int I>
    ILock *wrapMove(typename LT<I>::type &&l);
    template<>
    ILock *wrap<0>(const LT<0>::type &l);
    template<>
    ILock *wrapMove<0>(LT<0>::type &&l);
    template<>
    ILock *wrap<1>(const LT<1>::type &l);
    template<>
    ILock *wrapMove<1>(LT<1>::type &&l);
    template<>
    ILock *wrap<2>(const LT<2>::type &l);
    template<>
    ILock *wrapMove<2>(LT<2>::type &&l);
    template<>
    ILock *wrap<3>(const LT<3>::type &l);
    template<>
    ILock *wrapMove<3>(LT<3>::type &&l);
    template<>
    ILock *wrap<4>(const LT<4>::type &l);
    template<>
    ILock *wrapMove<4>(LT<4>::type &&l);
    template<>
    ILock *wrap<5>(const LT<5>::type &l);
    template<>
    ILock *wrapMove<5>(LT<5>::type &&l);
    template<>
    ILock *wrap<6>(const LT<6>::type &l);
    template<>
    ILock *wrapMove<6>(LT<6>::type &&l);
    template<>
    ILock *wrap<7>(const LT<7>::type &l);
    template<>
    ILock *wrapMove<7>(LT<7>::type &&l);
    template<>
    ILock *wrap<8>(const LT<8>::type &l);
    template<>
    ILock *wrapMove<8>(LT<8>::type &&l);
    template<>
    ILock *wrap<9>(const LT<9>::type &l);
    template<>
    ILock *wrapMove<9>(LT<9>::type &&l);
    template<>
    ILock *wrap<10>(const LT<10>::type &l);
    template<>
    ILock *wrapMove<10>(LT<10>::type &&l);
    template<>
    ILock *wrap<11>(const LT<11>::type &l);
    template<>
    ILock *wrapMove<11>(LT<11>::type &&l);
    template<>
    ILock *wrap<12>(const LT<12>::type &l);
    template<>
    ILock *wrapMove<12>(LT<12>::type &&l);
    template<>
    ILock *wrap<13>(const LT<13>::type &l);
    template<>
    ILock *wrapMove<13>(LT<13>::type &&l);
} // namespace world
