#include "cworld_impl.hh"
namespace cw {
    Tx *start_2(ECS &ecs, int kind) {
        switch (kind) {
        case 2: return new TxT<2>(ecs);
        case 3: return new TxT<3>(ecs);
        case 6: return new TxT<6>(ecs);
        case 7: return new TxT<7>(ecs);
        case 8: return new TxT<8>(ecs);
        }
        return nullptr;
    }
} // namespace cw
