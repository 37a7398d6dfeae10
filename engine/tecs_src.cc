// The library's own source file, compiled with the scheduler-aware atomics. Built with
// -DVERIF_TECS_SOURCE='"<repo>/src/Tecs.cc"'
#include "shim.hh"
