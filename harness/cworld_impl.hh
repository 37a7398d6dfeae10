#pragma once
#include "cworld.hh"

namespace cw {
    template<typename Ev>
    struct ObsT : Obs {
        Tecs::Observer<ECS, Ev> o;
    };
    template<typename CompT>
    struct ObsC : ObsT<Tecs::ComponentEvent<CompT>> {};

    template<int I>
    struct TxT : Tx {
        using LockT = typename Kind<I>::type;
        using RO = decltype(std::declval<const LockT &>().ReadOnlySubset());
        std::optional<LockT> l;
        std::optional<LockT> copy;
        std::optional<RO> ro;
        std::optional<Tecs::Lock<ECS>> empty;

        TxT(ECS &ecs) : l(std::in_place, ecs) {
            kind = I;
        }
        size_t txid() const override {
#ifdef TECS_HEADER_ONLY
            return 0;
#else
            return l->GetTransactionId();
#endif
        }
        bool exists(const Entity &e) const override {
            return e.Exists(*l);
        }
        bool existed(const Entity &e) const override {
            return l ? e.Existed(*l) : copy ? e.Existed(*copy) : ro ? e.Existed(*ro) : e.Existed(*empty);
        }
        unsigned has(const Entity &e) const override {
            return (e.Has<A>(*l) ? 1 : 0) | (e.Has<B>(*l) ? 2 : 0) | (e.Has<C>(*l) ? 4 : 0);
        }
        template<typename LL>
        static unsigned hadOf(const Entity &e, const LL &k) {
            return (e.Had<A>(k) ? 1 : 0) | (e.Had<B>(k) ? 2 : 0) | (e.Had<C>(k) ? 4 : 0);
        }
        unsigned had(const Entity &e) const override {
            return l ? hadOf(e, *l) : copy ? hadOf(e, *copy) : ro ? hadOf(e, *ro) : hadOf(e, *empty);
        }
        template<typename T, int BIT>
        uint64_t getT(const Entity &e, bool prev) const {
            if constexpr ((Kind<I>::read >> BIT) & 1) {
                if (l) return prev ? e.GetPrevious<T>(*l).value() : e.Get<const T>(*l).value();
                if (copy) return e.GetPrevious<T>(*copy).value();
                if (ro) return e.Get<const T>(*ro).value();
            }
            pbt::broken("read of a component without permission");
        }
        uint64_t get(const Entity &e, int c) const override {
            return c == 0 ? getT<A, 0>(e, false) : c == 1 ? getT<B, 1>(e, false) : getT<C, 2>(e, false);
        }
        uint64_t getPrev(const Entity &e, int c) const override {
            return c == 0 ? getT<A, 0>(e, true) : c == 1 ? getT<B, 1>(e, true) : getT<C, 2>(e, true);
        }
        template<typename T, int BIT>
        void setT(const Entity &e, uint64_t v, int how) const {
            if constexpr ((Kind<I>::write >> BIT) & 1) {
                if (how == 0) {
                    e.Set<T>(*l, v);
                } else if (how == 1) {
                    e.Get<T>(*l).assign(v);
                } else {
                    T x(v);
                    e.Set<T>(*l, x);
                }
                return;
            }
            pbt::broken("write of a component without permission");
        }
        void set(const Entity &e, int c, uint64_t v, int how) const override {
            if (c == 0) setT<A, 0>(e, v, how);
            else if (c == 1) setT<B, 1>(e, v, how);
            else setT<C, 2>(e, v, how);
        }
        template<typename T, int BIT>
        void touchT(const Entity &e) const {
            if constexpr ((Kind<I>::write >> BIT) & 1) {
                e.Get<T>(*l).value();
            } else {
                pbt::broken("write of a component without permission");
            }
        }
        void touch(const Entity &e, int c) const override {
            if (c == 0) touchT<A, 0>(e);
            else if (c == 1) touchT<B, 1>(e);
            else touchT<C, 2>(e);
        }
        void unset(const Entity &e, int c) const override {
            if constexpr (Kind<I>::ar) {
                if (c == 0) e.Unset<A>(*l);
                else if (c == 1) e.Unset<B>(*l);
                else e.Unset<C>(*l);
            }
        }
        void destroy(const Entity &e) const override {
            if constexpr (Kind<I>::ar) {
                Entity x = e;
                x.Destroy(*l);
            }
        }
        Entity create() const override {
            if constexpr (Kind<I>::ar) return l->NewEntity();
            return Entity();
        }
        bool gHas() const override {
            return l->template Has<G>();
        }
        bool gHad() const override {
            return l ? l->template Had<G>() : copy ? copy->template Had<G>() : ro ? ro->template Had<G>() : empty->template Had<G>();
        }
        uint64_t gGet() const override {
            if constexpr (Kind<I>::read & 8) return l->template Get<const G>().value();
            pbt::broken("no permission");
        }
        uint64_t gGetPrev() const override {
            if constexpr (Kind<I>::read & 8) {
                if (l) return l->template GetPrevious<G>().value();
                if (copy) return copy->template GetPrevious<G>().value();
                if (ro) return ro->template Get<G>().value();
            }
            pbt::broken("no permission");
        }
        void gSet(uint64_t v, int how) const override {
            if constexpr (Kind<I>::write & 8) {
                if (how == 0) {
                    l->template Set<G>(v);
                } else if (how == 1) {
                    l->template Get<G>().assign(v);
                } else {
                    G x(v);
                    l->template Set<G>(x);
                }
            }
        }
        void gTouch() const override {
            if constexpr (Kind<I>::write & 8) l->template Get<G>().value();
        }
        void gUnset() const override {
            if constexpr (Kind<I>::ar) l->template Unset<G>();
        }
        template<typename LL>
        static Tecs::EntityView listOf(const LL &k, int c, bool prev) {
            if (c == 3) return prev ? k.PreviousEntities() : k.Entities();
            if (c == 0) return prev ? k.template PreviousEntitiesWith<A>() : k.template EntitiesWith<A>();
            if (c == 1) return prev ? k.template PreviousEntitiesWith<B>() : k.template EntitiesWith<B>();
            return prev ? k.template PreviousEntitiesWith<C>() : k.template EntitiesWith<C>();
        }
        Tecs::EntityView list(int c, bool prev) const override {
            return l ? listOf(*l, c, prev) : copy ? listOf(*copy, c, true) : ro ? listOf(*ro, c, true) : listOf(*empty, c, true);
        }
        Obs *watch(int stream) const override {
            if constexpr (Kind<I>::ar) {
                if (stream == 0) {
                    auto *o = new ObsT<Tecs::EntityEvent>();
                    o->o = l->template Watch<Tecs::EntityEvent>();
                    o->stream = 0;
                    return o;
                } else if (stream == 1) {
                    auto *o = new ObsT<Tecs::ComponentEvent<A>>();
                    o->o = l->template Watch<Tecs::ComponentEvent<A>>();
                    o->stream = 1;
                    return o;
                } else {
                    auto *o = new ObsT<Tecs::ComponentEvent<G>>();
                    o->o = l->template Watch<Tecs::ComponentEvent<G>>();
                    o->stream = 2;
                    return o;
                }
            }
            return nullptr;
        }
        bool poll(Obs &o, int &type, Entity &e, uint64_t &v) const override {
            if (o.stream == 0) {
                Tecs::EntityEvent ev;
                if (!static_cast<ObsT<Tecs::EntityEvent> &>(o).o.Poll(*l, ev)) return false;
                type = (int)ev.type;
                e = ev.entity;
                v = 0;
                return true;
            } else if (o.stream == 1) {
                Tecs::ComponentEvent<A> ev;
                if (!static_cast<ObsT<Tecs::ComponentEvent<A>> &>(o).o.Poll(*l, ev)) return false;
                type = (int)ev.type;
                e = ev.entity;
                v = ev.component.value();
                return true;
            } else {
                Tecs::ComponentEvent<G> ev;
                if (!static_cast<ObsT<Tecs::ComponentEvent<G>> &>(o).o.Poll(*l, ev)) return false;
                type = (int)ev.type;
                e = ev.entity;
                v = ev.component.value();
                return true;
            }
        }
        void stop(Obs &o) const override {
            if constexpr (Kind<I>::ar) {
                if (o.stream == 0) static_cast<ObsT<Tecs::EntityEvent> &>(o).o.Stop(*l);
                else if (o.stream == 1) static_cast<ObsT<Tecs::ComponentEvent<A>> &>(o).o.Stop(*l);
                else static_cast<ObsT<Tecs::ComponentEvent<G>> &>(o).o.Stop(*l);
            }
        }
        void keepOther(int mode) override {
            if (mode == 0) copy.emplace(*l);
            else if (mode == 1) ro.emplace(l->ReadOnlySubset());
            else empty.emplace(*l);
        }
        void dropMain() override {
            l.reset();
        }
        void dropOther() override {
            copy.reset();
            ro.reset();
            empty.reset();
        }
    };
} // namespace cw
