#pragma once
// C27: any copyable, default-constructible type works as a component and keeps
// its own value semantics. Histories over one world of many types; what is
// stored is compared, as text, with what constructing, copying and changing the
// same values outside of the library gives.
#include "pbt.hh"

#include <Tecs.hh>
#include <array>
#include <bitset>
#include <cmath>
#include <complex>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

// Types whose default constructor is explicit are used in the programs of C26:
// what they need is that it compiles.
using Tecs::Entity;

// ----------------------------------------------------------------------------------------------------
// component types
enum class Color : uint16_t { Red, Green, Blue = 500 };
struct Plain { // no initializers, padding: T() has to be all zero
    int a;
    char b;
    double c;
};
struct alignas(64) Aligned {
    int v = 5;
    Aligned() {}
    Aligned(int v) : v(v) {}
};
struct Self { // knows its own address
    const Self *me;
    int v;
    Self(int v = 11) : me(this), v(v) {}
    Self(const Self &o) : me(this), v(o.good()) {}
    Self &operator=(const Self &o) {
        v = o.good();
        return *this;
    }
    ~Self() {
        me = nullptr;
        v = -99;
    }
    int good() const {
        return me == this ? v : -77777;
    }
};
struct Init { // T(a, b) and T{a, b} differ
    std::string how = "default";
    Init() {}
    Init(int a, int b) : how("two " + std::to_string(a) + " " + std::to_string(b)) {}
    Init(std::initializer_list<int> l) : how("list of " + std::to_string(l.size())) {}
};
struct Shape {
    virtual ~Shape() {}
    virtual std::string name() const {
        return "shape";
    }
};
struct Square : Shape {
    int side = 1;
    Square() {}
    explicit Square(int side) : side(side) {}
    std::string name() const override {
        return "square " + std::to_string(side);
    }
};
struct Big {
    unsigned char bytes[2000];
    Big(int v = 0) {
        for (size_t i = 0; i < sizeof(bytes); i++)
            bytes[i] = (unsigned char)(v + i * 7);
    }
};
struct NoAddress { // neither & nor , can be used on it
    int v = 2;
    NoAddress() {}
    explicit NoAddress(int v) : v(v) {}
    NoAddress *operator&() = delete;
    const NoAddress *operator&() const = delete;
    template<typename T>
    void operator,(const T &) const = delete;
};
struct FromUnique { // constructed from a type that can only be moved
    int v = 0;
    FromUnique() {}
    FromUnique(std::unique_ptr<int> p) : v(p ? *p : -1) {}
    FromUnique(std::unique_ptr<int> p, const std::string &s) : v((p ? *p : -1) + (int)s.size()) {}
};
struct Greedy { // a constructor that takes anything
    std::string from = "nothing";
    Greedy() {}
    Greedy(const Greedy &) = default;
    Greedy &operator=(const Greedy &) = default;
    template<typename T, typename = std::enable_if_t<!std::is_same<std::decay_t<T>, Greedy>::value>>
    Greedy(T &&) : from(std::is_lvalue_reference<T>::value ? "lvalue" : "rvalue") {}
    bool operator==(int) const = delete;
};
struct CopyOnly { // copying must not be replaced by moving
    std::string text = "fresh";
    CopyOnly() {}
    CopyOnly(const std::string &t) : text(t) {}
    CopyOnly(const CopyOnly &o) : text(o.text) {}
    CopyOnly &operator=(const CopyOnly &o) {
        if (this != std::addressof(o)) text = o.text;
        return *this;
    }
};
struct Moving { // a moved-from one is recognisable
    std::string text = "start";
    Moving() {}
    Moving(int v) : text("value " + std::to_string(v)) {}
    Moving(const Moving &) = default;
    Moving &operator=(const Moving &) = default;
    Moving(Moving &&o) noexcept : text(std::move(o.text)) {
        o.text = "moved from";
    }
    Moving &operator=(Moving &&o) noexcept {
        if (this != &o) {
            text = std::move(o.text);
            o.text = "moved from";
        }
        return *this;
    }
};
struct Assigned { // x = {} assigns a number
    int v = 5;
    Assigned() {}
    explicit Assigned(double d) : v((int)d * 10) {}
    Assigned &operator=(const Assigned &) = default;
    Assigned(const Assigned &) = default;
    Assigned &operator=(int x) {
        v = x + 1000;
        return *this;
    }
};
struct Listed { // x = {} assigns an empty list
    std::string how = "default";
    Listed() {}
    Listed(int a) : how("one " + std::to_string(a)) {}
    Listed(const Listed &) = default;
    Listed &operator=(const Listed &) = default;
    Listed &operator=(std::initializer_list<int> l) {
        how = "assigned list of " + std::to_string(l.size());
        return *this;
    }
};
struct GAssigned : Assigned {
    using Assigned::Assigned;
    using Assigned::operator=;
};
struct GListed : Listed {
    using Listed::Listed;
    using Listed::operator=;
};
struct Throwing { // some constructions throw; copies never do
    int v = 9;
    Throwing() {}
    explicit Throwing(int v) : v(v) {
        if (v % 3 == 0) throw std::invalid_argument("Throwing");
    }
};
struct Cursor { // points into itself, and has nothing to clean up
    int cells[3] = {4, 5, 6};
    int *at = cells;
    Cursor() {}
    explicit Cursor(int v) : at(cells + v % 3) {
        cells[0] = v;
    }
    Cursor(const Cursor &o) {
        *this = o;
    }
    Cursor &operator=(const Cursor &o) {
        for (int i = 0; i < 3; i++)
            cells[i] = o.cells[i];
        at = cells + (o.at - o.cells);
        return *this;
    }
};
struct Tag {};
struct GCursor : Cursor {
    using Cursor::Cursor;
};
struct GSelf : Self {
    using Self::Self;
};
struct GInit : Init {
    using Init::Init;
};
struct alignas(32) GAligned {
    double v = 1.5;
    GAligned() {}
    GAligned(double v) : v(v) {}
};

// ----------------------------------------------------------------------------------------------------
// values as text
static inline std::string repr(bool v) {
    return v ? "yes" : "no";
}
template<typename T, typename = std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>>
static inline std::string repr(const T &v) {
    return std::to_string((long long)v);
}
static inline std::string reprBits(const void *p, size_t n) {
    std::string s;
    char b[4];
    for (size_t i = 0; i < n; i++) {
        snprintf(b, sizeof(b), "%02x", ((const unsigned char *)p)[i]);
        s += b;
    }
    return s;
}
static inline std::string repr(const double &v) {
    return reprBits(&v, sizeof(v));
}
static inline std::string repr(const float &v) {
    return reprBits(&v, sizeof(v));
}
static inline std::string repr(const Color &v) {
    return "color " + std::to_string((int)v);
}
static int cells[8] = {};
static inline std::string repr(int *const &v) {
    return v ? "cell " + std::to_string(v - cells) : "null";
}
static inline std::string repr(const std::string &v) {
    return "\"" + v + "\"";
}
static inline std::string repr(const std::u16string &v) {
    std::string s = "u";
    for (auto c : v)
        s += " " + std::to_string((int)c);
    return s;
}
template<typename C>
static inline std::string reprAll(const C &v) {
    std::string s = "[";
    for (const auto &x : v)
        s += repr(x) + " ";
    return s + "]";
}
static inline std::string repr(const std::vector<int> &v) {
    return reprAll(v);
}
static inline std::string repr(const std::vector<bool> &v) {
    std::string s = "bits ";
    for (bool b : v)
        s += b ? "1" : "0";
    return s;
}
static inline std::string repr(const std::deque<int> &v) {
    return "deque" + reprAll(v);
}
static inline std::string repr(const std::list<std::string> &v) {
    return "list" + reprAll(v);
}
static inline std::string repr(const std::array<int, 5> &v) {
    return reprAll(v);
}
static inline std::string repr(const std::optional<int> &v) {
    return v ? "some " + repr(*v) : "none";
}
static inline std::string repr(const std::shared_ptr<int> &v) {
    return v ? "shared " + repr(*v) : "null";
}
static inline std::string repr(const std::map<int, std::string> &v) {
    std::string s = "map";
    for (auto &x : v)
        s += " " + repr(x.first) + ":" + repr(x.second);
    return s;
}
static inline std::string repr(const std::function<int(int)> &v) {
    return v ? "function " + repr(v(10)) : "no function";
}
static inline std::string repr(const std::pair<int, std::string> &v) {
    return repr(v.first) + "/" + repr(v.second);
}
static inline std::string repr(const std::variant<int, std::string> &v) {
    return std::to_string(v.index()) + ":" + (v.index() ? repr(std::get<1>(v)) : repr(std::get<0>(v)));
}
static inline std::string repr(const std::bitset<70> &v) {
    return v.to_string();
}
static inline std::string repr(const Plain &v) {
    return repr(v.a) + " " + repr((int)v.b) + " " + repr(v.c);
}
static inline std::string repr(const Aligned &v) {
    return (reinterpret_cast<uintptr_t>(&v) % 64 ? "misaligned " : "aligned ") + repr(v.v);
}
static inline std::string repr(const GAligned &v) {
    return (reinterpret_cast<uintptr_t>(&v) % 32 ? "misaligned " : "aligned ") + repr(v.v);
}
static inline std::string repr(const Self &v) {
    return "self " + repr(v.good());
}
static inline std::string repr(const Init &v) {
    return v.how;
}
static inline std::string repr(const Square &v) {
    return static_cast<const Shape &>(v).name();
}
static inline std::string repr(const Big &v) {
    for (size_t i = 0; i < sizeof(v.bytes); i++)
        if (v.bytes[i] != (unsigned char)(v.bytes[0] + i * 7)) return "big, torn at " + repr(i);
    return "big " + repr(v.bytes[0]);
}
static inline std::string repr(const NoAddress &v) {
    return "no address " + repr(v.v);
}
static inline std::string repr(const FromUnique &v) {
    return "from unique " + repr(v.v);
}
static inline std::string repr(const Greedy &v) {
    return "greedy " + v.from;
}
static inline std::string repr(const CopyOnly &v) {
    return "copy only " + v.text;
}
static inline std::string repr(const Moving &v) {
    return "moving " + v.text;
}
static inline std::string repr(const Assigned &v) {
    return "assigned " + repr(v.v);
}
static inline std::string repr(const Cursor &v) {
    bool good = v.at >= v.cells && v.at < v.cells + 3;
    return "cursor " + (good ? repr(v.at - v.cells) : std::string("astray")) + repr(v.cells[0]) + repr(v.cells[2]);
}
static inline std::string repr(const Throwing &v) {
    return "throwing " + repr(v.v);
}
static inline std::string repr(const Listed &v) {
    return v.how;
}
static inline std::string repr(const Tag &) {
    return "tag";
}

TECS_GLOBAL_COMPONENT(GSelf);
TECS_GLOBAL_COMPONENT(GInit);
TECS_GLOBAL_COMPONENT(GAligned);
TECS_GLOBAL_COMPONENT(GListed);
TECS_GLOBAL_COMPONENT(GAssigned);
TECS_GLOBAL_COMPONENT(GCursor);
TECS_GLOBAL_COMPONENT(std::u16string);
TECS_GLOBAL_COMPONENT(std::deque<int>);
TECS_GLOBAL_COMPONENT(float);
template<>
struct Tecs::is_global_component<std::list<std::string>> : std::true_type {};

template<typename W>
struct Of;
template<typename... T>
struct Of<Tecs::ECS<T...>> {
    using tuple = std::tuple<T...>;
    static constexpr size_t count = sizeof...(T);
};
struct Totals {
    size_t changes = 0, commits = 0, grown = 0, touched = 0;
};

// ------------------------------------------------------------------- making values
// set(args...) constructs the component from the arguments; returns what T(args...) is, as text
static const char *const WORDS[] = {"",
    "x",
    "a word",
    "a text that is too long to be stored inside of the string object itself"};

template<typename T, typename S>
static std::string make(pbt::Src &s, S &&set) {
    int a = (int)s.below(7), b = (int)s.below(5);
    std::string w = WORDS[s.below(4)];
    const std::string kept = w;
    std::string out;
    auto use = [&](auto... args) {
        out = repr(T(args...));
        set(args...);
        std::string again = repr(T(args...));
        if (again != out)
            pbt::fail("setting a component changed an argument: now they make %s instead of %s", again.c_str(), out.c_str());
    };
    if (s.chance(1, 6)) {
        set();
        return repr(T());
    }
    if constexpr (std::is_same_v<T, int> || std::is_same_v<T, uint8_t>) {
        use((T)(a * 40));
    } else if constexpr (std::is_same_v<T, double>) {
        const double values[] = {0.0, -0.0, 1e300, std::nan("7"), 5e-324, -INFINITY, 0.1};
        use(values[a]);
    } else if constexpr (std::is_same_v<T, float>) {
        use((float)a / 3);
    } else if constexpr (std::is_same_v<T, Color>) {
        use(a % 2 ? Color::Blue : Color::Green);
    } else if constexpr (std::is_same_v<T, int *>) {
        use(cells + a);
    } else if constexpr (std::is_same_v<T, std::string>) {
        switch (b % 3) {
        case 0:
            use((size_t)a * 9, (char)('a' + b));
            break; // braces would make a string of two characters
        case 1:
            use(WORDS[a % 4]);
            break;
        default:
            use(w, (size_t)0, (size_t)a);
            break;
        }
    } else if constexpr (std::is_same_v<T, std::vector<int>>) {
        if (b % 2) use((size_t)a, b); // braces would make a vector of two elements
        else
            use((size_t)a * 20);
    } else if constexpr (std::is_same_v<T, std::vector<bool>>) {
        use((size_t)a * 11, b % 2 == 0);
    } else if constexpr (std::is_same_v<T, std::deque<int>>) {
        use((size_t)a, b);
    } else if constexpr (std::is_same_v<T, std::list<std::string>>) {
        use((size_t)a, w);
    } else if constexpr (std::is_same_v<T, std::u16string>) {
        use((size_t)a, (char16_t)(60 + b));
    } else if constexpr (std::is_same_v<T, std::optional<int>>) {
        if (b) use(a);
        else
            use(std::nullopt);
    } else if constexpr (std::is_same_v<T, std::shared_ptr<int>>) {
        set(std::make_shared<int>(a));
        out = "shared " + repr(a);
    } else if constexpr (std::is_same_v<T, std::array<int, 5>>) {
        std::array<int, 5> x{{a, b, 3, 4, a + b}};
        use(x);
    } else if constexpr (std::is_same_v<T, std::map<int, std::string>>) {
        T x;
        for (int i = 0; i < a; i++)
            x[i * b] = WORDS[i % 4];
        use(x.begin(), x.end());
    } else if constexpr (std::is_same_v<T, std::function<int(int)>>) {
        use([a, w](int x) {
            return x * a + (int)w.size();
        });
    } else if constexpr (std::is_same_v<T, std::pair<int, std::string>>) {
        use(a, w);
    } else if constexpr (std::is_same_v<T, std::variant<int, std::string>>) {
        if (b % 2) use(a);
        else
            use(std::in_place_index<1>, w);
    } else if constexpr (std::is_same_v<T, std::bitset<70>>) {
        use((unsigned long long)a * 0x123456789abcull);
    } else if constexpr (std::is_same_v<T, Plain>) {
        use(Plain{a, (char)b, 0.5});
    } else if constexpr (std::is_same_v<T, GAligned>) {
        use(a * 0.25);
    } else if constexpr (std::is_base_of_v<Init, T>) {
        use(a, b);
    } else if constexpr (std::is_same_v<T, FromUnique>) {
        if (b % 2) {
            set(std::make_unique<int>(a));
            out = "from unique " + repr(a);
        } else {
            set(std::make_unique<int>(a), w);
            out = "from unique " + repr(a + (int)w.size());
        }
    } else if constexpr (std::is_same_v<T, Greedy>) {
        set(3);
        out = "greedy rvalue";
    } else if constexpr (std::is_same_v<T, CopyOnly>) {
        use(w);
    } else if constexpr (std::is_base_of_v<Assigned, T>) {
        use(a * 1.0);
    } else if constexpr (std::is_same_v<T, Throwing>) {
        use(3 * a + 1 + b % 2);
    } else if constexpr (std::is_same_v<T, Tag>) {
        use(Tag());
    } else {
        use(a);
    }
    if (w != kept) pbt::fail("setting a component changed an argument: \"%s\" became \"%s\"", kept.c_str(), w.c_str());
    return out;
}
// A value on its own
template<typename T>
static T value(pbt::Src &s) {
    T x = T();
    make<T>(s, [&](auto &&...args) {
        x = T(std::forward<decltype(args)>(args)...);
    });
    return x;
}

// ----------------------------------------------------------------------------------------------------
// the histories
namespace {
    template<size_t N>
    using ValuesOf = std::array<std::optional<std::string>, N>;
    template<size_t N>
    struct ObjOf {
        Entity e;
        bool alive = false, was = false;
        ValuesOf<N> now, before;
    };

    template<typename F, typename... T>
    void pick(size_t i, F &&f, std::tuple<T...> *) {
        size_t k = 0;
        ((k++ == i ? (f(static_cast<T *>(nullptr)), 0) : 0), ...);
    }

    // Some: the types that the transactions with few permissions write
    template<typename World, typename... Some>
    struct Case {
        using All = typename Of<World>::tuple;
        static constexpr size_t N = Of<World>::count;
        using Obj = ObjOf<N>;
        using Values = ValuesOf<N>;
        pbt::Src &s;
        World w;
        std::vector<Obj> objs;
        Values now, before; // global ones
        size_t changes = 0, commits = 0, grown = 0, kinds = 0;
        std::set<size_t> touched;
        std::tuple<Tecs::Observer<World, Tecs::ComponentEvent<Some>>...> observers;
        std::array<std::vector<std::string>, sizeof...(Some)> expected; // events that were not polled yet
        bool watching = false;

        Case(pbt::Src &s) : s(s) {}

        template<typename F>
        static void withType(size_t i, F &&f) {
            pick(i, std::forward<F>(f), static_cast<All *>(nullptr));
        }
        static bool isGlobal(size_t i) {
            bool global = false;
            withType(i, [&](auto *t) {
                global = Tecs::is_global_component<std::remove_pointer_t<decltype(t)>>();
            });
            return global;
        }

        template<typename L>
        void check(const L &lock, size_t i, Obj &o, bool previous) {
            withType(i, [&](auto *t) {
                using T = std::remove_pointer_t<decltype(t)>;
                if constexpr (Tecs::is_read_allowed<T, L>()) {
                    std::string name = World::template GetComponentName<T>();
                    const std::optional<std::string> &want = Tecs::is_global_component<T>()
                                                                 ? (previous ? before[i] : now[i])
                                                                 : (previous ? o.before[i] : o.now[i]);
                    bool has;
                    std::string got = "absent";
                    if constexpr (Tecs::is_global_component<T>()) {
                        has = previous ? lock.template Had<T>() : lock.template Has<T>();
                        if (has && want)
                            got = previous ? repr(lock.template GetPrevious<T>()) : repr(lock.template Get<const T>());
                    } else {
                        has = previous ? o.e.template Had<T>(lock) : o.e.template Has<T>(lock);
                        if (has && want)
                            got = previous ? repr(o.e.template GetPrevious<T>(lock))
                                           : repr(o.e.template Get<const T>(lock));
                    }
                    if (has != want.has_value())
                        pbt::fail("%s of entity %zu: %s, expected %s%s",
                            name.c_str(),
                            (size_t)o.e.index,
                            has ? "there" : "absent",
                            want ? "it to be there" : "it to be absent",
                            previous ? " (previous)" : "");
                    if (want && got != *want)
                        pbt::fail("%s of entity %zu is %s, expected %s%s",
                            name.c_str(),
                            (size_t)o.e.index,
                            got.c_str(),
                            want->c_str(),
                            previous ? " (previous)" : "");
                }
            });
        }

        template<typename L>
        void checkAll(const L &lock) {
            Obj none;
            for (size_t i = 0; i < N; i++) {
                if (isGlobal(i)) {
                    check(lock, i, none, false);
                } else {
                    for (auto &o : objs)
                        if (o.alive) check(lock, i, o, false);
                }
            }
        }

        // Sets, gets or changes component i of o (or the global one) through a lock
        // that may write it
        template<typename L>
        void change(const L &lock, size_t i, Obj &o, const Obj *other) {
            withType(i, [&](auto *t) {
                using T = std::remove_pointer_t<decltype(t)>;
                constexpr bool global = Tecs::is_global_component<T>();
                constexpr bool adds = Tecs::is_add_remove_allowed<L>();
                if constexpr (Tecs::is_write_allowed<T, L>()) {
                    auto &slot = global ? now[i] : o.now[i];
                    if (!slot && !adds) return;
                    auto get = [&]() -> T & {
                        if constexpr (global) return lock.template Get<T>();
                        else
                            return o.e.template Get<T>(lock);
                    };
                    size_t how = s.below(7);
                    if constexpr (std::is_same_v<T, Throwing>) {
                        if (s.chance(1, 3)) { // what was there stays
                            bool thrown = false;
                            try {
                                o.e.template Set<T>(lock, 3 * (int)s.below(4));
                            } catch (const std::invalid_argument &) {
                                thrown = true;
                            }
                            PLOG("  set %zu of %zu throws", i, (size_t)o.e.index);
                            if (!thrown) pbt::fail("Set did not pass the exception of the constructor on");
                            // a missing one may have been added, with the default value
                            if (!slot && o.e.template Has<T>(lock)) slot = repr(T());
                            check(lock, i, o, false);
                            return;
                        }
                    }
                    if (how < 2) {
                        const T *at = nullptr;
                        slot = make<T>(s, [&](auto &&...args) {
                            if constexpr (global)
                                at = std::addressof(lock.template Set<T>(std::forward<decltype(args)>(args)...));
                            else
                                at = std::addressof(o.e.template Set<T>(lock, std::forward<decltype(args)>(args)...));
                        });
                        if (at != std::addressof(get())) pbt::fail("Set returns a reference to something else");
                        PLOG("  set %zu of %zu by arguments: %s", i, (size_t)o.e.index, slot->c_str());
                    } else if (how == 2) {
                        T x = value<T>(s);
                        std::string text = repr(x);
                        if constexpr (global) lock.Set(x);
                        else
                            o.e.Set(lock, x);
                        if (repr(x) != text)
                            pbt::fail("setting from a variable changed it from %s to %s",
                                text.c_str(),
                                repr(x).c_str());
                        slot = text;
                        PLOG("  set %zu of %zu from a variable: %s", i, (size_t)o.e.index, text.c_str());
                    } else if (how == 3) {
                        const T x = value<T>(s);
                        slot = repr(x);
                        if constexpr (global) lock.template Set<T>(x);
                        else
                            o.e.template Set<T>(lock, x);
                        PLOG("  set %zu of %zu from a constant: %s", i, (size_t)o.e.index, slot->c_str());
                    } else if (how == 4) { // the missing one is added with its default value
                        std::string want = slot ? *slot : repr(T());
                        std::string got = repr(get());
                        if (got != want)
                            pbt::fail("getting component %zu for writing gives %s, expected %s",
                                i,
                                got.c_str(),
                                want.c_str());
                        T x = value<T>(s);
                        slot = repr(x);
                        get() = x;
                        PLOG("  assigned %zu of %zu: %s", i, (size_t)o.e.index, slot->c_str());
                    } else if (how == 5) { // from the value of another entity, or from its own
                        if constexpr (!global) {
                            if (!other || !other->now[i]) other = &o;
                            if (!other->now[i]) return;
                            std::string text = *other->now[i];
                            if (s.chance(1, 2)) o.e.Set(lock, other->e.template Get<T>(lock));
                            else
                                o.e.template Set<T>(lock, other->e.template Get<const T>(lock));
                            slot = text;
                            PLOG("  set %zu of %zu from entity %zu: %s",
                                i,
                                (size_t)o.e.index,
                                (size_t)other->e.index,
                                text.c_str());
                        } else if (slot) {
                            if (s.chance(1, 2)) lock.Set(lock.template Get<T>());
                            else
                                lock.template Set<T>(lock.template Get<const T>());
                        }
                    } else if constexpr (adds) {
                        if (global) {
                            if constexpr (global) lock.template Unset<T>();
                        } else {
                            if constexpr (!global) o.e.template Unset<T>(lock);
                        }
                        slot.reset();
                        PLOG("  unset %zu of %zu", i, (size_t)o.e.index);
                    }
                    changes++;
                    touched.insert(i);
                    check(lock, i, o, false);
                }
            });
        }

        Obj *any() {
            std::vector<Obj *> v;
            for (auto &o : objs)
                if (o.alive) v.push_back(&o);
            return v.empty() ? nullptr : v[s.below(v.size())];
        }

        template<typename L>
        void steps(const L &lock) {
            while (s.more(9)) {
                if constexpr (Tecs::is_add_remove_allowed<L>()) {
                    size_t k = s.weighted({6, 2, 1});
                    if (k == 1) {
                        size_t n = 1 + s.below(4);
                        for (size_t i = 0; i < n && objs.size() < 60; i++) {
                            Obj o;
                            o.e = lock.NewEntity();
                            o.alive = true;
                            objs.push_back(o);
                        }
                        grown++;
                        continue;
                    }
                    if (k == 2) {
                        if (Obj *o = any()) {
                            PLOG("  destroy %zu", (size_t)o->e.index);
                            Entity(o->e).Destroy(lock);
                            o->alive = false;
                        }
                        continue;
                    }
                }
                Obj *o = any(), none;
                // the types that are touched are few, so that they meet again
                size_t i = (kinds + s.below(4)) % N;
                bool global = isGlobal(i);
                if (!o && !global) continue;
                if (s.chance(1, 6)) check(lock, i, o ? *o : none, global || (o && o->was));
                else
                    change(lock, i, o ? *o : none, any());
                if (s.chance(1, 12)) kinds = s.below(N);
            }
            if (s.chance(1, 8)) checkAll(lock);
        }

        template<typename... P>
        void transaction() {
            for (auto &o : objs) {
                o.was = o.alive;
                o.before = o.now;
            }
            before = now;
            auto lock = w.template StartTransaction<P...>();
            using L = decltype(lock);
            if constexpr (Tecs::is_write_allowed<std::tuple_element_t<0, All>, L>()) {
                if constexpr (Tecs::is_add_remove_allowed<L>()) {
                    if (!watching && s.chance(1, 3)) {
                        observers = std::make_tuple(lock.template Watch<Tecs::ComponentEvent<Some>>()...);
                        watching = true;
                    }
                }
                steps(lock);
                expectEvents();
                commits++;
            } else {
                checkAll(lock);
                if (watching) poll(lock);
            }
        }

        static std::string event(bool added, Entity e, const std::string &text) {
            return (added ? "added " : "removed ") + std::to_string((size_t)e.index) + "/" +
                   std::to_string((size_t)e.generation) + ": " + text;
        }
        // What the transaction that ends now does to the presence of the watched
        // types
        void expectEvents() {
            if (!watching) return;
            const size_t index[] = {World::template GetComponentIndex<Some>()...};
            for (size_t k = 0; k < sizeof...(Some); k++) {
                size_t i = index[k];
                auto both = [&](Entity e, const std::optional<std::string> &b, const std::optional<std::string> &a) {
                    if (b && !a) expected[k].push_back(event(false, e, *b));
                    if (!b && a) expected[k].push_back(event(true, e, *a));
                };
                if (isGlobal(i)) {
                    both(Entity(), before[i], now[i]);
                    continue;
                }
                for (auto &o : objs)
                    both(o.e, o.was ? o.before[i] : std::nullopt, o.alive ? o.now[i] : std::nullopt);
            }
        }
        template<size_t K = 0, typename L>
        void poll(const L &lock) {
            if constexpr (K < sizeof...(Some)) {
                using T = std::tuple_element_t<K, std::tuple<Some...>>;
                Tecs::ComponentEvent<T> ev;
                std::vector<std::string> got;
                while (std::get<K>(observers).Poll(lock, ev))
                    got.push_back(event(ev.type == Tecs::EventType::ADDED, ev.entity, repr(ev.component)));
                std::sort(got.begin(), got.end());
                std::sort(expected[K].begin(), expected[K].end());
                if (got != expected[K]) {
                    for (auto &g : got)
                        PLOG("  got %s", g.c_str());
                    for (auto &g : expected[K])
                        PLOG("  expected %s", g.c_str());
                    pbt::fail("%zu events with component %s, expected %zu, or other ones",
                        got.size(),
                        World::template GetComponentName<T>().c_str(),
                        expected[K].size());
                }
                expected[K].clear();
                poll<K + 1>(lock);
            }
        }

        void some() {
            // a transaction that writes a few of the types only
            for (auto &o : objs) {
                o.was = o.alive;
                o.before = o.now;
            }
            before = now;
            auto lock = w.template StartTransaction<Tecs::Write<Some...>>();
            while (s.more(4)) {
                Obj *o = any(), none;
                size_t i = s.below(sizeof...(Some));
                pick(
                    i,
                    [&](auto *t) {
                        using T = std::remove_pointer_t<decltype(t)>;
                        if (o || Tecs::is_global_component<T>()) few<T>(lock, o ? *o : none);
                    },
                    static_cast<std::tuple<Some...> *>(nullptr));
            }
            commits++;
        }
        template<typename T, typename L>
        void few(const L &lock, Obj &o) {
            change(lock, World::template GetComponentIndex<T>(), o, any());
        }

        void run() {
            kinds = s.below(N);
            while (s.more(7)) {
                switch (s.weighted({4, 3, 2, 2})) {
                case 0:
                    PLOG("add/remove");
                    transaction<Tecs::AddRemove>();
                    break;
                case 1:
                    PLOG("write all");
                    transaction<Tecs::WriteAll>();
                    break;
                case 2:
                    PLOG("write some");
                    some();
                    break;
                default:
                    PLOG("read all");
                    transaction<Tecs::ReadAll>();
                }
                objs.erase(std::remove_if(objs.begin(),
                               objs.end(),
                               [](const Obj &o) {
                                   return !o.alive;
                               }),
                    objs.end());
            }
            PLOG("final check");
            transaction<Tecs::ReadAll>();
        }
    };

    template<typename World, typename... Some>
    Totals history(pbt::Src &s) {
        Case<World, Some...> c(s);
        c.run();
        return {c.changes, c.commits, c.grown, c.touched.size()};
    }
} // namespace
