// Stands in for the Tracy client (which is not installed): enough of its interface for the library's hooks to compile.
#pragma once
#include <cstdint>

#include <cstddef>

#define ZoneNamedN(var, name, active) tracy::ScopedZone var(nullptr, active)
#define ZoneTextV(var, text, size) (var).Text(text, size)

namespace tracy {
    struct SourceLocationData {
        const char *name;
        const char *function;
        const char *file;
        uint32_t line;
        uint32_t color;
    };
    struct ScopedZone {
        ScopedZone(const SourceLocationData *, bool) {}
        ScopedZone(const SourceLocationData *, int, bool) {}
        ~ScopedZone() {}
        void Text(const char *, size_t) {}
    };
    struct LockableCtx {
        explicit LockableCtx(const SourceLocationData *) {}
        ~LockableCtx() {}
        bool BeforeLock() {
            return true;
        }
        void AfterLock() {}
        void AfterUnlock() {}
        void AfterTryLock(bool) {}
    };
    struct SharedLockableCtx : LockableCtx {
        explicit SharedLockableCtx(const SourceLocationData *l) : LockableCtx(l) {}
        bool BeforeLockShared() {
            return true;
        }
        void AfterLockShared() {}
        void AfterUnlockShared() {}
        void AfterTryLockShared(bool) {}
    };
} // namespace tracy
