#include "pbt.hh"
#include "sched.hh"

namespace verif {
    void blockedForEver(const char *what) {
        pbt::fail("the thread blocks for ever in %s although no other transaction is active", what);
    }
    static unsigned loneYields = 0;
    void yieldHook() {
        if (sched::active()) {
            sched::yieldNow();
        } else if (++loneYields > 10000) {
            blockedForEver("a spin loop");
        }
    }
    void resetYields() {
        loneYields = 0;
    }
} // namespace verif
