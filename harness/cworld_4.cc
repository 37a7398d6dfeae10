#include "cworld_impl.hh"
namespace cw {
    Tx *start_1(ECS &ecs, int kind);
    Tx *start_2(ECS &ecs, int kind);
    Tx *start_3(ECS &ecs, int kind);
#define CW_INFO(I) {Kind<I>::read, Kind<I>::write, Kind<I>::ar, Kind<I>::name}
    const KindInfo kinds[NKINDS] = {CW_INFO(0), CW_INFO(1), CW_INFO(2), CW_INFO(3), CW_INFO(4), CW_INFO(5), CW_INFO(6),
        CW_INFO(7), CW_INFO(8), CW_INFO(9), CW_INFO(10), CW_INFO(11), CW_INFO(12), CW_INFO(13), CW_INFO(14), CW_INFO(15),
        CW_INFO(16), CW_INFO(17)};
    Tx *start(ECS &ecs, int kind) {
        switch (kind) {
        case 14: return new TxT<14>(ecs);
        case 15: return new TxT<15>(ecs);
        case 16: return new TxT<16>(ecs);
        case 17: return new TxT<17>(ecs);
        }
        if (Tx *t = start_1(ecs, kind)) return t;
        if (Tx *t = start_2(ecs, kind)) return t;
        return start_3(ecs, kind);
    }
} // namespace cw
