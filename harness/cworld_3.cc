#include "cworld_impl.hh"
namespace cw {
    Tx *start_3(ECS &ecs, int kind) {
        switch (kind) {
        case 9: return new TxT<9>(ecs);
        case 10: return new TxT<10>(ecs);
        case 11: return new TxT<11>(ecs);
        case 12: return new TxT<12>(ecs);
        case 13: return new TxT<13>(ecs);
        }
        return nullptr;
    }
} // namespace cw
