#include "types.hh"

Totals types_2(pbt::Src &s) {
    return history<Tecs::ECS<Plain, std::vector<int>, std::deque<int>, std::vector<bool>, GInit, Init, std::map<int, std::string>>, std::vector<int>, Init, GInit>(s);
}
