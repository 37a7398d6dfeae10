#include "world.hh"
namespace world {
    std::vector<int32_t> liveById;
    int64_t liveObjects = 0, constructions = 0;
    void trackReset() {
        liveById.assign(1, 0);
        constructions = 0;
    }
    void trackInc(uint64_t id) {
        if (id >= liveById.size()) liveById.resize(id + 64, 0);
        liveById[id]++;
    }
    void trackDec(uint64_t id) {
        if (id >= liveById.size() || liveById[id] <= 0)
            pbt::fail("component value %llu destroyed more often than constructed", (unsigned long long)id);
        liveById[id]--;
    }
    template<typename... P>
    static L<P...> startHelper(ECS &ecs, L<P...> *) {
        return ecs.StartTransaction<P...>();
    }
    template<int... I>
    static ILock *startAny(ECS &ecs, int kind, std::integer_sequence<int, I...>) {
        ILock *r = nullptr;
        (void)((kind == I ? (r = wrapMove<I>(startHelper(ecs, (typename LT<I>::type *)nullptr)), true) : false) || ...);
        return r;
    }
    ILock *startTx(ECS &ecs, int kind) {
        return startAny(ecs, kind, std::make_integer_sequence<int, NKINDS>());
    }

#define CAP(i, n) {LT<i>::read, LT<i>::write, LT<i>::addRemove, n}
    const Caps caps[NTYPES] = {CAP(0, "<>"), CAP(1, "AddRemove"), CAP(2, "ReadAll"), CAP(3, "WriteAll"), CAP(4, "Read<A>"),
        CAP(5, "Write<A>"), CAP(6, "Read<A>,Write<B,G1>"), CAP(7, "Write<C>,Read<B,G2>"), CAP(8, "Read<G1,B>"),
        CAP(9, "ReadAll,Write<C,G2>"), CAP(10, "Read<>"), CAP(11, "Read<A,G1,B,C,G2>"), CAP(12, "Read<A,G1,B>"),
        CAP(13, "Read<B,C,G2>")};
}
