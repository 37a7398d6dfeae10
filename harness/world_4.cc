#include "world_impl.hh"
namespace world {
    DEFINE_WRAP(9) DEFINE_WRAP(10) DEFINE_WRAP(11) DEFINE_WRAP(12) DEFINE_WRAP(13)
}
