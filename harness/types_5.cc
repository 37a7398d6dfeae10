#include "types.hh"

Totals types_5(pbt::Src &s) {
    return history<Tecs::ECS<std::function<int(int)>, std::list<std::string>, std::array<int, 5>, std::variant<int, std::string>, std::bitset<70>, Cursor, GCursor>, std::list<std::string>, std::function<int(int)>, Cursor>(s);
}
