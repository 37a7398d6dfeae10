#include "world_impl.hh"
namespace world {
    DEFINE_WRAP(0) DEFINE_WRAP(1)
}
