#include "world_impl.hh"
namespace world {
    DEFINE_WRAP(5) DEFINE_WRAP(6) DEFINE_WRAP(7) DEFINE_WRAP(8)
}
