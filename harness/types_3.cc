#include "types.hh"

Totals types_3(pbt::Src &s) {
    return history<Tecs::ECS<GAligned, Aligned, Big, std::shared_ptr<int>, CopyOnly, Square, std::optional<int>, int *>, Big, GAligned, CopyOnly>(s);
}
