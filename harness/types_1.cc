#include "types.hh"

Totals types_1(pbt::Src &s) {
    return history<Tecs::ECS<int, float, uint8_t, std::string, GSelf, Self, Tag, Moving>, std::string, GSelf, Self, float>(s);
}
