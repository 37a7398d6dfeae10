#include "types.hh"

Totals types_4(pbt::Src &s) {
    return history<Tecs::ECS<std::u16string, NoAddress, FromUnique, Greedy, std::pair<int, std::string>, double, Color>, FromUnique, std::u16string, double>(s);
}
