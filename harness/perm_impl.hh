// Included by the generated sources: the templates behind perm::Row. The including file defines PERM_GLOBAL(i).
#pragma once
#include <Tecs.hh>

#include "perm.hh"

template<int I>
struct X {
    uint64_t v = 0;
    X() = default;
    X(uint64_t v) : v(v) {}
};

template<int I>
struct Tecs::is_global_component<X<I>> : std::bool_constant<PERM_GLOBAL(I)> {};

namespace perm {
    template<int I>
    struct Spec; // L, D, ECS (generated)

    template<int... I>
    struct Comps {};

    template<class L>
    struct Parts;
    template<class E, class... P>
    struct Parts<Tecs::Lock<E, P...>> {
        template<class M>
        static constexpr bool has() {
            return M::template has_permissions<P...>();
        }
        template<class M>
        static constexpr bool fits() {
            return M::template is_lock_subset<P...>();
        }
        static Tecs::Lock<E, P...> start(E &e) {
            return e.template StartTransaction<P...>();
        }
        template<class M>
        static Tecs::Lock<E, P...> subset(const M &m) {
            return m.template Subset<P...>();
        }
        template<class D>
        static std::optional<Tecs::Lock<E, P...>> tryLock(const D &d) {
            return d.template TryLock<P...>();
        }
    };

    inline uint64_t pack(Tecs::Entity e) {
        return (uint64_t)e.index | (uint64_t)e.generation << 32;
    }
    inline Tecs::Entity unpack(uint64_t v) {
        Tecs::Entity e;
        e.index = (TECS_ENTITY_INDEX_TYPE)v;
        e.generation = (TECS_ENTITY_GENERATION_TYPE)(v >> 32);
        return e;
    }

    template<class K, class T, int I>
    void viewComp(const K &k, const std::vector<uint64_t> &ents, View &v) {
        using C = X<I>;
        auto &list = v.comp.emplace_back();
        auto base = [&](Seen &s) {
            s.readable = Tecs::is_read_allowed<C, K>() && Tecs::is_read_allowed<C, const K>();
            s.writable = Tecs::is_write_allowed<C, K>() && Tecs::is_write_allowed<C, const K>();
        };
        if constexpr (PERM_GLOBAL(I)) {
            Seen &s = list.emplace_back();
            base(s);
            s.has = k.template Has<C>();
            s.had = k.template Had<C>();
            if constexpr (Tecs::is_read_allowed<C, K>()) {
                try {
                    s.cur = (int64_t)k.template Get<const C>().v;
                } catch (const std::runtime_error &) {
                }
                try {
                    s.prev = (int64_t)k.template GetPrevious<C>().v;
                } catch (const std::runtime_error &) {
                }
            }
        } else {
            for (uint64_t id : ents) {
                Tecs::Entity e = unpack(id);
                Seen &s = list.emplace_back();
                base(s);
                s.has = e.template Has<C>(k);
                s.had = e.template Had<C>(k);
                if constexpr (Tecs::is_read_allowed<C, K>()) {
                    try {
                        s.cur = (int64_t)e.template Get<const C>(k).v;
                    } catch (const std::runtime_error &) {
                    }
                    try {
                        s.prev = (int64_t)e.template GetPrevious<C>(k).v;
                    } catch (const std::runtime_error &) {
                    }
                }
                for (auto &o : k.template EntitiesWith<C>())
                    if (o == e) s.listed = true;
                for (auto &o : k.template PreviousEntitiesWith<C>())
                    if (o == e) s.listedPrev = true;
            }
        }
    }

    template<class K, int... I>
    void viewAll(const void *p, const std::vector<uint64_t> &ents, View &v, Comps<I...>) {
        const K &k = *(const K *)p;
        v.addRemove = Tecs::is_add_remove_allowed<K>() && Tecs::is_add_remove_allowed<const K>();
        v.txId = k.GetTransactionId();
        v.useCount = k.UseCount();
        v.ent.resize(ents.size());
        for (size_t i = 0; i < ents.size(); i++) {
            Tecs::Entity e = unpack(ents[i]);
            v.ent[i].exists = e.Exists(k);
            v.ent[i].existed = e.Existed(k);
        }
        for (auto &o : k.Entities()) {
            if (!o) continue;
            v.entities++;
            for (size_t i = 0; i < ents.size(); i++)
                if (pack(o) == ents[i]) v.ent[i].listed = true;
        }
        for (auto &o : k.PreviousEntities()) {
            if (!o) continue;
            v.entitiesPrev++;
            for (size_t i = 0; i < ents.size(); i++)
                if (pack(o) == ents[i]) v.ent[i].listedPrev = true;
        }
        (viewComp<K, void, I>(k, ents, v), ...);
    }

    template<class K, int I>
    bool writeComp(const K &k, uint64_t ent, uint64_t value, int mode) {
        using C = X<I>;
        if constexpr (Tecs::is_write_allowed<C, K>()) {
            C c(value);
            if constexpr (PERM_GLOBAL(I)) {
                if (mode == 0) k.template Set<C>(c);
                else if (mode == 1) k.template Set<C>(value);
                else k.template Get<C>().v = value;
            } else {
                Tecs::Entity e = unpack(ent);
                if (mode == 0) e.template Set<C>(k, c);
                else if (mode == 1) e.template Set<C>(k, value);
                else e.template Get<C>(k).v = value;
            }
            return true;
        }
        return false;
    }
    template<class K, int... I>
    bool writeAny(const void *p, int comp, uint64_t ent, uint64_t value, int mode, Comps<I...>) {
        const K &k = *(const K *)p;
        bool done = false;
        ((comp == I ? (void)(done = writeComp<K, I>(k, ent, value, mode)) : void()), ...);
        return done;
    }
    template<class K, int I>
    bool unsetComp(const K &k, uint64_t ent) {
        if constexpr (Tecs::is_add_remove_allowed<K>()) {
            if constexpr (PERM_GLOBAL(I)) k.template Unset<X<I>>();
            else unpack(ent).template Unset<X<I>>(k);
            return true;
        }
        return false;
    }
    template<class K, int... I>
    bool unsetAny(const void *p, int comp, uint64_t ent, Comps<I...>) {
        const K &k = *(const K *)p;
        bool done = false;
        ((comp == I ? (void)(done = unsetComp<K, I>(k, ent)) : void()), ...);
        return done;
    }

    using Observed = PERM_OBSERVED;

    template<int I>
    struct Maker {
        using L = typename Spec<I>::L;
        using D = typename Spec<I>::D;
        using RO = decltype(std::declval<const L &>().ReadOnlySubset());

        static void *start(void *w, int mode) {
            auto &e = *(typename Spec<I>::World *)w;
            if (mode) return new L(e);
            return new L(Parts<L>::start(e));
        }
        template<class K>
        static void del(void *p) {
            delete (K *)p;
        }
        template<class K>
        static void view(const void *p, const std::vector<uint64_t> &ents, View &v) {
            viewAll<K>(p, ents, v, Observed());
        }
        template<class K>
        static bool write(const void *p, int comp, uint64_t ent, uint64_t value, int mode) {
            return writeAny<K>(p, comp, ent, value, mode, Observed());
        }
        template<class K>
        static bool unset(const void *p, int comp, uint64_t ent) {
            return unsetAny<K>(p, comp, ent, Observed());
        }
        template<class K>
        static uint64_t create(const void *p) {
            if constexpr (Tecs::is_add_remove_allowed<K>()) return pack(((const K *)p)->NewEntity());
            return 0;
        }
        template<class K>
        static bool destroy(const void *p, uint64_t ent) {
            if constexpr (Tecs::is_add_remove_allowed<K>()) {
                unpack(ent).Destroy(*(const K *)p);
                return true;
            }
            return false;
        }
        template<class K, int J>
        static void *toLock(const void *p, int mode) {
            using T = typename Spec<J>::L;
            if constexpr (std::is_convertible_v<const K &, T>) {
                const K &k = *(const K *)p;
                if constexpr (Parts<T>::template has<L>()) {
                    if (mode == 1) return new T(Parts<T>::subset(k));
                }
                T t = k;
                return new T(t);
            }
            return nullptr;
        }
        template<class K, int J>
        static void *toDyn(const void *p, int mode) {
            using T = typename Spec<J>::D;
            // (the constructor from a lock takes anything, so it is asked for the lock the dynamic lock is based on)
            if constexpr (std::is_convertible_v<const K &, typename Spec<J>::L>) {
                const K &k = *(const K *)p;
                if (mode == 1) {
                    T t(k);
                    return new T(t);
                }
                return new T(k);
            }
            return nullptr;
        }
        template<class K, int J>
        static void *roToLock(const void *p, int mode) {
            using T = typename Spec<J>::L;
            if constexpr (std::is_convertible_v<const RO &, T>) {
                auto ro = ((const K *)p)->ReadOnlySubset();
                if (mode == 1) {
                    auto twice = ro.ReadOnlySubset();
                    return new T(twice);
                }
                return new T(ro);
            }
            return nullptr;
        }
        template<class K, int J>
        static void *roToDyn(const void *p, int mode) {
            using T = typename Spec<J>::D;
            if constexpr (std::is_convertible_v<const RO &, typename Spec<J>::L>) {
                auto ro = ((const K *)p)->ReadOnlySubset();
                return new T(ro);
            }
            return nullptr;
        }
        template<int J>
        static void *tryLock(const void *p, int mode) {
            using T = typename Spec<J>::L;
            auto r = Parts<T>::tryLock(*(const D *)p);
            if (!r) return nullptr;
            return new T(*r);
        }
        template<int J>
        static uint32_t info() {
            using TL = typename Spec<J>::L;
            using TD = typename Spec<J>::D;
            uint32_t v = 0;
            v |= (uint32_t)Parts<TL>::template has<L>() << HasList;
            v |= (uint32_t)L::template has_permissions<TL>() << HasLock;
            v |= (uint32_t)L::template has_permissions<TD>() << HasDynamic;
            v |= (uint32_t)L::template has_permissions<const TL>() << HasConstLock;
            v |= (uint32_t)Parts<L>::template fits<TL>() << LockSubset;
            v |= (uint32_t)std::is_convertible_v<const L &, TL> << ConvLL;
            v |= (uint32_t)std::is_constructible_v<TL, const L &> << ConsLL;
            v |= (uint32_t)std::is_convertible_v<const D &, TL> << ConvDL;
            v |= (uint32_t)std::is_convertible_v<const RO &, TL> << ConvRL;
            return v;
        }

        template<int... J>
        static Row make(std::integer_sequence<int, J...>) {
            Row r;
            r.set = Spec<I>::set();
            r.text = Spec<I>::text;
            r.start = nullptr;
            if constexpr (Spec<I>::root) r.start = start;
            r.del[0] = del<L>, r.del[1] = del<D>;
            r.view[0] = view<L>, r.view[1] = view<D>;
            r.write[0] = write<L>, r.write[1] = write<D>;
            r.create[0] = create<L>, r.create[1] = create<D>;
            r.destroy[0] = destroy<L>, r.destroy[1] = destroy<D>;
            r.unset[0] = unset<L>, r.unset[1] = unset<D>;
            r.toLock[0] = {toLock<L, J>...}, r.toLock[1] = {toLock<D, J>...};
            r.toDyn[0] = {toDyn<L, J>...}, r.toDyn[1] = {toDyn<D, J>...};
            r.roToLock[0] = {roToLock<L, J>...}, r.roToLock[1] = {roToLock<D, J>...};
            r.roToDyn[0] = {roToDyn<L, J>...}, r.roToDyn[1] = {roToDyn<D, J>...};
            r.tryLock = {tryLock<J>...};
            r.info = {info<J>()...};
            return r;
        }
    };
} // namespace perm
