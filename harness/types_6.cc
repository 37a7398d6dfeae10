#include "types.hh"

Totals types_6(pbt::Src &s) {
    return history<Tecs::ECS<Assigned, GAssigned, Listed, GListed, int, Throwing>, Assigned, GAssigned, GListed>(s);
}
