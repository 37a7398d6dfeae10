// Implementation of the type-erased locks; included by the TUs that own a range of lock types.
#pragma once
#include "world.hh"

namespace world {
    template<typename T>
    struct tag {
        using type = T;
    };
    template<typename F>
    auto entComp(int c, F f) {
        switch (c) {
        case 0:
            return f(tag<A>{}, std::integral_constant<unsigned, cA>{});
        case 1:
            return f(tag<B>{}, std::integral_constant<unsigned, cB>{});
        default:
            return f(tag<C>{}, std::integral_constant<unsigned, cC>{});
        }
    }
    template<typename F>
    auto globComp(int c, F f) {
        switch (c) {
        case 0:
            return f(tag<G1>{}, std::integral_constant<unsigned, cG1>{});
        default:
            return f(tag<G2>{}, std::integral_constant<unsigned, cG2>{});
        }
    }

    template<typename F>
    Res guarded(F f) {
        Res r;
        try {
            f(r);
            r.st = OK;
        } catch (const std::runtime_error &e) {
            r.st = THREW;
            r.what = e.what();
        } catch (const std::exception &e) {
            r.st = OTHER_EXCEPTION;
            r.what = e.what();
        }
        return r;
    }

    template<typename Ev>
    struct ObserverImpl : IObserver {
        Tecs::Observer<ECS, Ev> o;
        bool alive() const override {
            return (bool)o;
        }
        IObserver *clone() const override {
            auto *n = new ObserverImpl<Ev>();
            n->stream = stream;
            n->o = o;
            return n;
        }
    };
    template<typename Ev>
    uint64_t eventValue(const Ev &ev) {
        if constexpr (std::is_same_v<Ev, Tecs::EntityEvent>) {
            return 0;
        } else {
            return ev.component.value();
        }
    }
    template<typename F>
    auto eventType(int s, F f) {
        switch (s) {
        case 0:
            return f(tag<Tecs::EntityEvent>{});
        case 1:
            return f(tag<Tecs::ComponentEvent<A>>{});
        case 2:
            return f(tag<Tecs::ComponentEvent<G1>>{});
        case 3:
            return f(tag<Tecs::ComponentEvent<B>>{});
        case 4:
            return f(tag<Tecs::ComponentEvent<C>>{});
        default:
            return f(tag<Tecs::ComponentEvent<G2>>{});
        }
    }

    template<int I>
    struct LockImpl final : ILock {
        using Type = typename LT<I>::type;
        static constexpr unsigned R = LT<I>::read, W = LT<I>::write;
        static constexpr bool AR = LT<I>::addRemove;
        Type lock;

        explicit LockImpl(const Type &l) : lock(l) {
            type = I;
        }
        explicit LockImpl(Type &&l) : lock(std::move(l)) {
            type = I;
        }
        long useCount() const override {
            return lock.UseCount();
        }
        ECS &instance() const override {
            return lock.GetInstance();
        }
        size_t txid() const override {
#ifdef TECS_HEADER_ONLY
            return 0;
#else
            return lock.GetTransactionId();
#endif
        }
        bool exists(const Entity &e) const override {
            return e.Exists(lock);
        }
        bool existed(const Entity &e) const override {
            return e.Existed(lock);
        }
        bool has(const Entity &e, unsigned mask) const override {
            switch (mask) {
            case 1:
                return e.Has<A>(lock);
            case 2:
                return e.Has<B>(lock);
            case 4:
                return e.Has<C>(lock);
            case 3:
                return e.Has<A, B>(lock);
            case 5:
                return e.Has<C, A>(lock);
            case 6:
                return e.Has<B, C>(lock);
            default:
                return e.Has<A, B, C>(lock);
            }
        }
        bool had(const Entity &e, unsigned mask) const override {
            switch (mask) {
            case 1:
                return e.Had<A>(lock);
            case 2:
                return e.Had<B>(lock);
            case 4:
                return e.Had<C>(lock);
            case 3:
                return e.Had<B, A>(lock);
            case 5:
                return e.Had<A, C>(lock);
            case 6:
                return e.Had<B, C>(lock);
            default:
                return e.Had<A, B, C>(lock);
            }
        }
        Res getConst(const Entity &e, int c) const override {
            return entComp(c, [&](auto t, auto bit) {
                using T = typename decltype(t)::type;
                if constexpr ((R & decltype(bit)::value) != 0) {
                    return guarded([&](Res &r) {
                        const T &v = e.template Get<const T>(lock);
                        r.v = v.value();
                    });
                } else {
                    return Res();
                }
            });
        }
        Res getPlain(const Entity &e, int c, const uint64_t *assign) const override {
            return entComp(c, [&](auto t, auto bit) {
                using T = typename decltype(t)::type;
                if constexpr ((R & decltype(bit)::value) != 0) {
                    return guarded([&](Res &r) {
                        auto &v = e.template Get<T>(lock);
                        r.v = v.value();
                        constexpr bool isConst = std::is_const_v<std::remove_reference_t<decltype(v)>>;
                        r.wasConst = isConst;
                        if constexpr (!isConst) {
                            if (assign) v.assign(*assign);
                        }
                    });
                } else {
                    return Res();
                }
            });
        }
        Res getPrevious(const Entity &e, int c) const override {
            return entComp(c, [&](auto t, auto bit) {
                using T = typename decltype(t)::type;
                if constexpr ((R & decltype(bit)::value) != 0) {
                    return guarded([&](Res &r) {
                        r.v = e.template GetPrevious<T>(lock).value();
                    });
                } else {
                    return Res();
                }
            });
        }
        Res set(const Entity &e, int c, uint64_t v, int variant) const override {
            return entComp(c, [&](auto t, auto bit) {
                using T = typename decltype(t)::type;
                if constexpr ((W & decltype(bit)::value) != 0) {
                    return guarded([&](Res &r) {
                        if (variant == 0) {
                            r.v = e.template Set<T>(lock, v).value();
                        } else if (variant == 1) {
                            T val(v);
                            r.v = e.template Set<T>(lock, val).value();
                            if (val.value() != v) pbt::fail("Set changed its argument");
                        } else {
                            r.v = e.template Set<T>(lock).value(); // default constructed
                        }
                    });
                } else {
                    return Res();
                }
            });
        }
        Res unset(const Entity &e, unsigned mask) const override {
            if constexpr (AR) {
                return guarded([&](Res &) {
                    switch (mask) {
                    case 1:
                        return e.Unset<A>(lock);
                    case 2:
                        return e.Unset<B>(lock);
                    case 4:
                        return e.Unset<C>(lock);
                    case 3:
                        return e.Unset<A, B>(lock);
                    case 5:
                        return e.Unset<C, A>(lock);
                    case 6:
                        return e.Unset<B, C>(lock);
                    default:
                        return e.Unset<A, B, C>(lock);
                    }
                });
            } else {
                return Res();
            }
        }
        Res destroyConst(const Entity &e) const override {
            if constexpr (AR) {
                return guarded([&](Res &) {
                    e.Destroy(lock);
                });
            } else {
                return Res();
            }
        }
        Res destroy(Entity &e) const override {
            if constexpr (AR) {
                return guarded([&](Res &) {
                    e.Destroy(lock);
                });
            } else {
                return Res();
            }
        }
        Res newEntity(Entity &out) const override {
            if constexpr (AR) {
                return guarded([&](Res &) {
                    out = lock.NewEntity();
                });
            } else {
                return Res();
            }
        }
        bool gHas(unsigned mask) const override {
            return mask == 1 ? lock.template Has<G1>() : mask == 2 ? lock.template Has<G2>() : lock.template Has<G1, G2>();
        }
        bool gHad(unsigned mask) const override {
            return mask == 1 ? lock.template Had<G1>() : mask == 2 ? lock.template Had<G2>() : lock.template Had<G2, G1>();
        }
        Res gGetConst(int g) const override {
            return globComp(g, [&](auto t, auto bit) {
                using T = typename decltype(t)::type;
                if constexpr ((R & decltype(bit)::value) != 0) {
                    return guarded([&](Res &r) {
                        r.v = lock.template Get<const T>().value();
                    });
                } else {
                    return Res();
                }
            });
        }
        Res gGetPlain(int g, const uint64_t *assign) const override {
            return globComp(g, [&](auto t, auto bit) {
                using T = typename decltype(t)::type;
                if constexpr ((R & decltype(bit)::value) != 0) {
                    return guarded([&](Res &r) {
                        auto &v = lock.template Get<T>();
                        r.v = v.value();
                        constexpr bool isConst = std::is_const_v<std::remove_reference_t<decltype(v)>>;
                        r.wasConst = isConst;
                        if constexpr (!isConst) {
                            if (assign) v.assign(*assign);
                        }
                    });
                } else {
                    return Res();
                }
            });
        }
        Res gGetPrevious(int g) const override {
            return globComp(g, [&](auto t, auto bit) {
                using T = typename decltype(t)::type;
                if constexpr ((R & decltype(bit)::value) != 0) {
                    return guarded([&](Res &r) {
                        r.v = lock.template GetPrevious<T>().value();
                    });
                } else {
                    return Res();
                }
            });
        }
        Res gSet(int g, uint64_t v, int variant) const override {
            return globComp(g, [&](auto t, auto bit) {
                using T = typename decltype(t)::type;
                if constexpr ((W & decltype(bit)::value) != 0) {
                    return guarded([&](Res &r) {
                        if (variant == 0) {
                            r.v = lock.template Set<T>(v).value();
                        } else if (variant == 1) {
                            T val(v);
                            r.v = lock.template Set<T>(val).value();
                            if (val.value() != v) pbt::fail("Set changed its argument");
                        } else {
                            r.v = lock.template Set<T>().value();
                        }
                    });
                } else {
                    return Res();
                }
            });
        }
        Res gUnset(unsigned mask) const override {
            if constexpr (AR) {
                return guarded([&](Res &) {
                    if (mask == 1)
                        lock.template Unset<G1>();
                    else if (mask == 2)
                        lock.template Unset<G2>();
                    else
                        lock.template Unset<G1, G2>();
                });
            } else {
                return Res();
            }
        }
        Tecs::EntityView entities() const override {
            return lock.Entities();
        }
        Tecs::EntityView previousEntities() const override {
            return lock.PreviousEntities();
        }
        Tecs::EntityView entitiesWith(int c) const override {
            return entComp(c, [&](auto t, auto) -> Tecs::EntityView {
                return lock.template EntitiesWith<typename decltype(t)::type>();
            });
        }
        Tecs::EntityView previousEntitiesWith(int c) const override {
            return entComp(c, [&](auto t, auto) -> Tecs::EntityView {
                return lock.template PreviousEntitiesWith<typename decltype(t)::type>();
            });
        }
        ILock *copy() const override {
            return wrap<I>(lock);
        }
        ILock *takeOver() override {
            return wrapMove<I>(std::move(lock));
        }
        template<int J>
        static constexpr bool subsetOk() {
            return (LT<J>::read & ~R) == 0 && (LT<J>::write & ~W) == 0 && (!LT<J>::addRemove || AR);
        }
        template<int J>
        ILock *deriveTo(int how) const {
            if constexpr (subsetOk<J>()) {
                using Target = typename LT<J>::type;
                if (how == 0) {
                    Target t(lock); // conversion
                    return wrap<J>(t);
                } else {
                    return wrap<J>(subsetHelper(tag<Target>{}));
                }
            } else {
                return nullptr;
            }
        }
        template<typename... P>
        L<P...> subsetHelper(tag<L<P...>>) const {
            return lock.template Subset<P...>();
        }
        template<int J>
        ILock *dynTo() const {
            return dynHelper<J>(tag<typename LT<J>::type>{});
        }
        template<int J, typename... P>
        ILock *dynHelper(tag<L<P...>>) const {
            Tecs::DynamicLock<ECS> d(lock);
            auto opt = d.template TryLock<P...>();
            if (!opt) return nullptr;
            return wrap<J>(*opt);
        }
        ILock *derive(int t, int how) const override {
            switch (t) {
#define CASE(n)                                                                                                        \
    case n:                                                                                                            \
        return deriveTo<n>(how);
                CASE(0)
                CASE(1) CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(7) CASE(8) CASE(9) CASE(10) CASE(11) CASE(12)
                    CASE(13)
#undef CASE
            }
            return nullptr;
        }
        ILock *dynamicTo(int t) const override {
            switch (t) {
#define CASE(n)                                                                                                        \
    case n:                                                                                                            \
        return dynTo<n>();
                CASE(0)
                CASE(1) CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(7) CASE(8) CASE(9) CASE(10) CASE(11) CASE(12)
                    CASE(13)
#undef CASE
            }
            return nullptr;
        }
        static constexpr int roIndex() {
            return R == 31                ? 11
                   : R == 0               ? 10
                   : R == cA              ? 4
                   : R == (cB | cG1)      ? 8
                   : R == (cA | cG1 | cB) ? 12
                                          : 13;
        }
        ILock *readOnly() const override {
            static_assert(LT<roIndex()>::read == R, "read-only type");
            typename LT<roIndex()>::type ro(lock.ReadOnlySubset());
            return wrap<roIndex()>(ro);
        }
        IObserver *watch(int stream) const override {
            if constexpr (AR) {
                return eventType(stream, [&](auto t) -> IObserver * {
                    using Ev = typename decltype(t)::type;
                    auto *o = new ObserverImpl<Ev>();
                    o->stream = stream;
                    o->o = lock.template Watch<Ev>();
                    return o;
                });
            } else {
                return nullptr;
            }
        }
        bool stop(IObserver &io, int variant) const override {
            if constexpr (AR) {
                eventType(io.stream, [&](auto t) {
                    using Ev = typename decltype(t)::type;
                    auto &o = static_cast<ObserverImpl<Ev> &>(io).o;
                    if (variant)
                        o.Stop(lock);
                    else
                        lock.StopWatching(o);
                });
                return true;
            } else {
                return false;
            }
        }
        bool poll(IObserver &io, Event &out) const override {
            return eventType(io.stream, [&](auto t) -> bool {
                using Ev = typename decltype(t)::type;
                auto &o = static_cast<ObserverImpl<Ev> &>(io).o;
                Ev ev;
                if (!o.Poll(lock, ev)) return false;
                out.type = ev.type == Tecs::EventType::ADDED     ? 1
                           : ev.type == Tecs::EventType::REMOVED ? 2
                                                                 : 0;
                out.e = ev.entity;
                out.v = eventValue(ev);
                return true;
            });
        }
    };

#define DEFINE_WRAP(n)                                                                                                 \
    template<>                                                                                                         \
    ILock *wrap<n>(const LT<n>::type &l) {                                                                             \
        return new LockImpl<n>(l);                                                                                     \
    }                                                                                                                  \
    template<>                                                                                                         \
    ILock *wrapMove<n>(LT<n>::type && l) {                                                                             \
        return new LockImpl<n>(std::move(l));                                                                          \
    }
} // namespace world
