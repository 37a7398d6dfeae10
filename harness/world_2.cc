#include "world_impl.hh"
namespace world {
    DEFINE_WRAP(2) DEFINE_WRAP(3) DEFINE_WRAP(4)
}
