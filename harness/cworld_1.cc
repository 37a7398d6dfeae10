#include "cworld_impl.hh"
namespace cw {
    Tx *start_1(ECS &ecs, int kind) {
        switch (kind) {
        case 1: return new TxT<1>(ecs);
        case 0: return new TxT<0>(ecs);
        case 4: return new TxT<4>(ecs);
        case 5: return new TxT<5>(ecs);
        }
        return nullptr;
    }
} // namespace cw
