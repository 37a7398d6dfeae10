"""Generated programs of one operation each (C26): which compile and which must not, decided by plain sets of permissions.

A case is one line of C++: a world of one to five component types of its own, a lock with generated permissions obtained in a
generated way, and one operation. Many cases are compiled together; a line an error refers to counts as rejected. Every
deviation is confirmed by compiling the case alone and then simplified."""
import concurrent.futures, hashlib, os, random, re, subprocess, threading, time

import build as B
import pbtrun as P

PRELUDE = """#include <Tecs.hh>
#include <optional>
template<int N, int K> struct C { int v; C(int v = 0) : v(v) {} };
template<int N, int K> struct G { int v; G(int v = 0) : v(v) {} };
template<int N> struct C<N, 1> { int v; explicit C(int v = 0) : v(v) {} };
template<int N> struct C<N, 3> { int v; explicit C(int v = 0) : v(v) {} };
template<int N> struct G<N, 0> { int v; explicit G(int v = 0) : v(v) {} };
template<int N> struct G<N, 2> { int v; explicit G(int v = 0) : v(v) {} };
template<int N, int K> struct Tecs::is_global_component<G<N, K>> : std::true_type {};
using Tecs::Lock; using Tecs::DynamicLock; using Tecs::Entity;
using Tecs::Read; using Tecs::Write; using Tecs::ReadAll; using Tecs::WriteAll; using Tecs::AddRemove;
template<typename T> void sink(T &&) {}
"""
CONFIGS = [("c++17", []), ("c++20", []), ("c++17", ["TECS_UNCHECKED_MODE"]), ("c++20", ["TECS_HEADER_ONLY"]),
           ("c++17", ["TECS_ENABLE_PERFORMANCE_TRACING"]),
           ("c++20", ["TECS_UNCHECKED_MODE", "TECS_ENTITY_INDEX_TYPE=uint16_t", "TECS_ENTITY_GENERATION_TYPE=uint16_t"])]
UNKNOWN = -1


# ------------------------------------------------------------------------------------------------------------ permissions
def sets(items, n):
    r, w, ar = set(), set(), False
    for i in items:
        k = i[0]
        if k in ("R", "W"):
            r |= set(i[1])
            if k == "W":
                w |= set(i[1])
        elif k in ("RA", "WA", "AR"):
            r |= set(range(n))
            if k != "RA":
                w |= set(range(n))
            ar |= k == "AR"
        else:
            a, b, c = sets(i[1], n)
            r, w, ar = r | a, w | b, ar or c
    return r, w, ar


def text(items, kinds):
    def one(i):
        if i[0] in ("R", "W"):
            return "%s<%s>" % ("Read" if i[0] == "R" else "Write", ", ".join(comp(c, kinds) for c in i[1]))
        if len(i) == 1:
            return {"RA": "ReadAll", "WA": "WriteAll", "AR": "AddRemove"}[i[0]]
        return "%s<%s>" % ({"L": "Lock", "D": "DynamicLock", "cL": "const Lock", "cD": "const DynamicLock"}[i[0]],
                           ", ".join(["W"] + [one(j) for j in i[1]]))
    return "".join(", " + one(i) for i in items)


def comp(c, kinds):
    return "U" if c == UNKNOWN else "%s%d" % (kinds[c], c)


def gen_items(rng, n, depth=0):
    out = []
    for _ in range(rng.choice((0, 1, 1, 2, 2, 3)) if depth == 0 else rng.choice((0, 1, 1, 2))):
        k = rng.random()
        if k < 0.68:
            m = min(n, rng.choice((0, 1, 1, 1, 2, 2, 3)))
            out.append((rng.choice("RRW"), [rng.randrange(n) for _ in range(m)]))
        elif k < 0.86:
            out.append((rng.choice(("RA", "RA", "WA", "WA", "AR")),))
        elif depth < 2:
            out.append((rng.choice(("L", "D", "cL", "cD")), gen_items(rng, n, depth + 1)))
    return out


def gen_subset(rng, r, w, ar, n):
    """Items within the given permissions."""
    out = []
    for _ in range(rng.choice((0, 1, 1, 2))):
        if ar and rng.random() < 0.3:
            out.append(("AR",))
        elif len(w) == n and rng.random() < 0.3:
            out.append(("WA",))
        elif len(r) == n and rng.random() < 0.3:
            out.append(("RA",))
        elif w and rng.random() < 0.5:
            out.append(("W", rng.sample(sorted(w), rng.randint(1, len(w)))))
        elif r:
            out.append(("R", rng.sample(sorted(r), rng.randint(1, len(r)))))
    if out and rng.random() < 0.15:
        out = [(rng.choice(("L", "D")), out)]
    return out


# -------------------------------------------------------------------------------------------------------------- operations
# name -> (text, needs); %e entity, %l lock, %T component, %S list of components, %Q list with leading comma of a second
# set of permissions. needs: any, read, write, ar, never, ar-list, list, subset; side: entity, global or both
E, GL = "entity", "global"
OPS = {
    # entities
    "exists": ("sink(%e.Exists(%l));", "any", None), "existed": ("sink(%e.Existed(%l));", "any", None),
    "has": ("sink(%e.Has<%S>(%l));", "list", E), "had": ("sink(%e.Had<%S>(%l));", "list", E),
    "get": ("sink(%e.Get<%T>(%l));", "read", E), "get-const": ("sink(%e.Get<const %T>(%l));", "read", E),
    "get-bind-const": ("const %T &x = %e.Get<%T>(%l); sink(x);", "read", E),
    "get-copy": ("%T x = %e.Get<%T>(%l); sink(x);", "read", E),
    "get-bind": ("%T &x = %e.Get<%T>(%l); sink(x);", "write", E),
    "get-auto-assign": ("auto &x = %e.Get<%T>(%l); x.v = 1;", "write", E),
    "get-assign": ("%e.Get<%T>(%l) = %T(1);", "write", E), "get-member": ("%e.Get<%T>(%l).v++;", "write", E),
    "get-const-bind": ("%T &x = %e.Get<const %T>(%l); sink(x);", "never", E),
    "get-const-assign": ("%e.Get<const %T>(%l).v = 1;", "never", E),
    "get-return-type": ("sink(%e.Get<%T, std::decay_t<decltype(%l)>, %T>(%l));", "write", E),
    "prev": ("sink(%e.GetPrevious<%T>(%l));", "read", E), "prev-const": ("sink(%e.GetPrevious<const %T>(%l));", "read", E),
    "prev-copy": ("%T x = %e.GetPrevious<%T>(%l); sink(x);", "read", E),
    "prev-bind": ("%T &x = %e.GetPrevious<%T>(%l); sink(x);", "never", E),
    "prev-assign": ("%e.GetPrevious<%T>(%l).v = 1;", "never", E),
    "set-empty": ("sink(%e.Set<%T>(%l));", "write", E), "set-args": ("sink(%e.Set<%T>(%l, 3));", "write", E),
    "set-value": ("sink(%e.Set<%T>(%l, %T(2)));", "write", E),
    "set-lvalue": ("%T x(2); sink(%e.Set<%T>(%l, x));", "write", E),
    "set-deduced": ("%T x(2); sink(%e.Set(%l, x));", "write", E),
    "set-const": ("const %T x(2); sink(%e.Set<%T>(%l, x));", "write", E),
    "set-result": ("%T &x = %e.Set<%T>(%l, 4); x.v = 1;", "write", E),
    "set-lvalue-result": ("%T x(2); %e.Set(%l, x).v = 3;", "write", E),
    "unset": ("%e.Unset<%S>(%l);", "ar-list", E),
    "destroy": ("%e.Destroy(%l);", "ar", None), "new": ("sink(%l.NewEntity());", "ar", None),
    "new-chain": ("Entity x = %l.NewEntity(); x.Set<%T>(%l, 1); x.Destroy(%l);", "ar-list1", E),
    # globals
    "g-has": ("sink(%l.Has<%S>());", "list", GL), "g-had": ("sink(%l.Had<%S>());", "list", GL),
    "g-get": ("sink(%l.Get<%T>());", "read", GL), "g-get-const": ("sink(%l.Get<const %T>());", "read", GL),
    "g-get-copy": ("%T x = %l.Get<%T>(); sink(x);", "read", GL),
    "g-get-bind": ("%T &x = %l.Get<%T>(); sink(x);", "write", GL),
    "g-get-assign": ("%l.Get<%T>() = %T(1);", "write", GL), "g-get-member": ("%l.Get<%T>().v++;", "write", GL),
    "g-get-const-assign": ("%l.Get<const %T>().v = 1;", "never", GL),
    "g-get-return-type": ("sink(%l.Get<%T, %T>());", "write", GL),
    "g-prev": ("sink(%l.GetPrevious<%T>());", "read", GL), "g-prev-const": ("sink(%l.GetPrevious<const %T>());", "read", GL),
    "g-prev-assign": ("%l.GetPrevious<%T>().v = 1;", "never", GL),
    "g-set-empty": ("sink(%l.Set<%T>());", "write", GL), "g-set-args": ("sink(%l.Set<%T>(3));", "write", GL),
    "g-set-value": ("sink(%l.Set<%T>(%T(2)));", "write", GL),
    "g-set-lvalue": ("%T x(2); sink(%l.Set<%T>(x));", "write", GL),
    "g-set-deduced": ("%T x(2); sink(%l.Set(x));", "write", GL),
    "g-set-const": ("const %T x(2); sink(%l.Set<%T>(x));", "write", GL),
    "g-set-result": ("%T &x = %l.Set<%T>(4); x.v = 1;", "write", GL),
    "g-unset": ("%l.Unset<%S>();", "ar-list", GL),
    # lists
    "entities": ("sink(%l.Entities()); sink(%l.PreviousEntities());", "any", None),
    "with": ("sink(%l.EntitiesWith<%T>());", "list1", E), "prev-with": ("sink(%l.PreviousEntitiesWith<%T>());", "list1", E),
    "loop": ("for (auto &x : %l.EntitiesWith<%T>()) sink(x.Has<%T>(%l));", "list1", E),
    "loop-get": ("for (auto x : %l.EntitiesWith<%T>()) x.Get<%T>(%l).v = 1;", "write", E),
    "loop-destroy": ("for (auto &x : %l.Entities()) x.Destroy(%l);", "ar", None),
    "list-assign": ("%l.Entities()[0] = Entity();", "never", None),
    "list-iter-assign": ("*%l.EntitiesWith<%T>().begin() = Entity();", "never", E),
    "list-iter-member": ("%l.PreviousEntities().begin()->generation = 0;", "never", None),
    "list-riter-assign": ("auto v = %l.Entities(); *v.rbegin() = Entity();", "never", None),
    "list-ref": ("for (Entity &x : %l.Entities()) sink(x);", "never", None),
    "list-sub-assign": ("%l.Entities().subview(0)[0].index = 1;", "never", None),
    # observers
    "watch": ("sink(%l.Watch<Tecs::EntityEvent>());", "ar", None),
    "watch-comp": ("Tecs::Observer<W, Tecs::ComponentEvent<%T>> o = %l.Watch<Tecs::ComponentEvent<%T>>(); sink(o);",
                   "ar-list1", None),
    "watch-other": ("sink(%l.Watch<int>());", "never", None),
    "watch-type": ("Tecs::Observer<W, Tecs::EntityEvent> o = %l.Watch<Tecs::ComponentEvent<%T>>(); sink(o);", "never", None),
    "poll": ("Tecs::Observer<W, Tecs::EntityEvent> o; Tecs::EntityEvent ev; sink(o.Poll(%l, ev));", "any", None),
    "poll-comp": ("Tecs::Observer<W, Tecs::ComponentEvent<%T>> o; Tecs::ComponentEvent<%T> ev; sink(o.Poll(%l, ev));", "list1",
                  None),
    "poll-type": ("Tecs::Observer<W, Tecs::ComponentEvent<%T>> o; Tecs::EntityEvent ev; sink(o.Poll(%l, ev));", "never", None),
    "poll-foreign": ("Tecs::Observer<Other, Tecs::EntityEvent> o; Tecs::EntityEvent ev; sink(o.Poll(%l, ev));", "never", None),
    "stop": ("Tecs::Observer<W, Tecs::EntityEvent> o; o.Stop(%l);", "ar", None),
    "stop-comp": ("Tecs::Observer<W, Tecs::ComponentEvent<%T>> o; o.Stop(%l);", "ar-list1", None),
    "stop-watching": ("Tecs::Observer<W, Tecs::EntityEvent> o; %l.StopWatching(o);", "ar", None),
    "stop-foreign": ("Tecs::Observer<Other, Tecs::EntityEvent> o; o.Stop(%l);", "never", None),
    # locks
    "subset": ("sink(%l.Subset<%q>());", "subset", None), "to-lock": ("Lock<W%Q> x = %l; sink(x);", "subset", None),
    "to-lock-direct": ("Lock<W%Q> x(%l); sink(x);", "subset", None), "to-param": ("take(%l);", "subset", None),
    "to-dynamic": ("DynamicLock<W%Q> x(%l); sink(x);", "subset", None),
    "to-foreign": ("Lock<Other> x(%l); sink(x);", "never", None),
    "to-dynamic-foreign": ("DynamicLock<Other> x(%l); sink(x);", "never", None),
    "read-only": ("auto x = %l.ReadOnlySubset(); sink(x);", "any", None),
    "read-only-get": ("auto x = %l.ReadOnlySubset(); sink(%e.Get<%T>(x));", "read", E),
    "read-only-assign": ("auto x = %l.ReadOnlySubset(); %e.Get<%T>(x).v = 1;", "never", E),
    "read-only-write": ("Lock<W, Write<%T>> x = %l.ReadOnlySubset(); sink(x);", "never", None),
    "read-only-add": ("%l.ReadOnlySubset().NewEntity();", "never", None),
    "try": ("DynamicLock<W> d(%l); std::optional<Lock<W%Q>> x = d.TryLock<%q>(); sink(x);", "any", None),
    "index": ("constexpr size_t x = W::GetComponentIndex<%T>(); sink(size_t(x)); sink(%l);", "list1", None),
}
# the ways the lock of the operation is made from the one with the permissions of the case
FORMS = ("ref", "const-ref", "value", "start", "const-start", "dynamic", "subset", "read-only", "try", "dynamic-read-only")


class Case:
    def __init__(self, kinds, items, form, sub, op, entity, comps, second, config):
        (self.kinds, self.items, self.form, self.sub, self.op, self.entity, self.comps, self.second,
         self.config) = kinds, items, form, sub, op, entity, comps, second, config

    def copy(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return Case(**d)

    def permissions(self):
        n = len(self.kinds)
        r, w, ar = sets(self.items, n)
        if self.form in ("subset", "try"):
            r, w, ar = sets(self.sub, n)
        if self.form in ("read-only", "dynamic-read-only"):
            w, ar = set(), False
        return r, w, ar

    def valid(self):
        if self.form == "subset" and not within(sets(self.sub, len(self.kinds)), sets(self.items, len(self.kinds))):
            return False
        if self.op.endswith("return-type") and self.expected():
            return False  # the template parameter itself is not part of the interface
        return bool(self.comps) and all(c < len(self.kinds) for c in self.comps)

    def expected(self):
        _, needs, side = OPS[self.op]
        r, w, ar = self.permissions()
        kinds = [None if c == UNKNOWN else self.kinds[c] for c in self.comps]
        good = all(k is not None and (side is None or k == ("G" if side == GL else "A")) for k in kinds)
        t = self.comps[0]
        return {"any": True, "read": good and t in r, "write": good and t in w, "ar": ar, "never": False,
                "list": good, "list1": good, "ar-list": ar and good, "ar-list1": ar and good,
                "subset": within(sets(self.second, len(self.kinds)), (r, w, ar))}[needs]

    def line(self, k):
        names = [("%s%d" % (x, i), "%s<%d, %d>" % ("C" if x == "A" else "G", k, i)) for i, x in enumerate(self.kinds)]
        s = "namespace s%d { " % k
        s += "".join("using %s = %s; " % x for x in names) + "using U = C<%d, 99>; " % k
        s += "using W = Tecs::ECS<%s>; using Other = Tecs::ECS<U>; " % ", ".join(x[0] for x in names)
        s += "void take(Lock<W%s>); " % text(self.second, self.kinds)
        p, q = text(self.items, self.kinds), text(self.sub, self.kinds)
        f = self.form
        if f in ("ref", "subset", "read-only"):
            arg, init = "Lock<W%s> &source" % p, {"ref": "auto &lock = source;", "read-only": "auto lock = source.ReadOnlySubset();",
                                                 "subset": "auto lock = source.Subset<%s>();" % q[2:]}[f]
        elif f == "const-ref":
            arg, init = "const Lock<W%s> &lock" % p, ""
        elif f == "value":
            arg, init = "Lock<W%s> lock" % p, ""
        elif f in ("start", "const-start"):
            arg, init = "W &ecs", "%sauto lock = ecs.StartTransaction<%s>();" % ("const " if f[0] == "c" else "", p[2:])
        else:
            arg = "const DynamicLock<W%s> &source" % p
            init = {"dynamic": "auto lock = source;", "try": "auto lock = *source.TryLock<%s>();" % q[2:],
                    "dynamic-read-only": "auto lock = source.ReadOnlySubset();"}[f]
        e = {"lvalue": "e", "const": "ce", "list": "lock.Entities()[0]", "value": "Entity(1, 1)"}[self.entity]
        op = OPS[self.op][0]
        op = op.replace("%e", e).replace("%l", "lock").replace("%T", comp(self.comps[0], self.kinds))
        op = op.replace("%S", ", ".join(comp(c, self.kinds) for c in self.comps))
        second = text(self.second, self.kinds)
        op = op.replace("%Q", second).replace("%q", second[2:])
        s += "void f(%s, Entity e, const Entity ce) { %s sink(e); sink(ce); sink(lock); %s } }" % (arg, init, op)
        return s

    def source(self):
        return PRELUDE + self.line(0) + "\n"


def within(a, b):
    return a[0] <= b[0] and a[1] <= b[1] and (b[2] or not a[2])


def planned(rng):
    """Every operation with the cases that decide it: wrong kind of component or one of another world with all permissions,
    exactly the permissions it needs, everything but those."""
    for op in OPS:
        for mode in ("wrong", "wrong", "unknown", "enough", "enough", "lacking", "lacking"):
            yield gen_case(rng, op, mode)


def gen_case(rng, op=None, mode=None):
    n = rng.choice((1, 2, 2, 3, 3, 4, 5))
    op = op or rng.choice(list(OPS))
    _, needs, side = OPS[op]
    kinds = [rng.choice("AAG") for _ in range(n)]
    if side and rng.random() < 0.85 and "AG"[side == GL] not in kinds:
        kinds[rng.randrange(n)] = "AG"[side == GL]
    right = [i for i in range(n) if not side or kinds[i] == "AG"[side == GL]]
    m = rng.choice((1, 1, 2, 3)) if needs in ("list", "ar-list") else 1
    comps = [rng.choice(right) if right and rng.random() < 0.9 else rng.randrange(n) for _ in range(m)]
    # what an observer that no lock can make does, and permissions for components that do not exist, are left open
    if rng.random() < 0.06 and needs not in ("any", "never", "ar", "subset") and op not in ("poll-comp", "stop-comp"):
        comps[rng.randrange(m)] = UNKNOWN
    items = gen_items(rng, n)
    form, sub = rng.choice(FORMS), []
    k = rng.random()
    if mode in ("wrong", "unknown"):
        items, form, k = [rng.choice((("AR",), ("AR",), ("WA",), ("RA",)))], rng.choice(("ref", "const-ref", "value", "start")), 1
        if mode == "wrong" and side and m < 3:
            n = n + 1
            kinds.append("GA"[side == GL])
            comps[rng.randrange(m)] = n - 1
        elif needs not in ("any", "never", "ar", "subset") and op not in ("poll-comp", "stop-comp"):
            comps[rng.randrange(m)] = UNKNOWN
    elif mode:
        form, k = rng.choice(("ref", "const-ref", "value", "start", "const-start", "dynamic")), 0 if mode == "enough" else 0.3
        comps = [rng.choice(right) for _ in range(m)] if right else comps
    t = comps[0]
    if needs == "subset" or form in ("subset", "try") or t == UNKNOWN:
        pass
    elif k < 0.18:  # just enough
        items = {"read": [("R", [t])], "write": [("W", [t])], "ar": [("AR",)], "ar-list": [("AR",)], "ar-list1": [("AR",)]}.get(
            needs, [])
    elif k < 0.4:  # everything but what is needed
        rest = [i for i in range(n) if i != t]
        items = {"read": [("W", rest)], "write": rng.choice(([("W", rest), ("R", [t])], [("W", rest), ("RA",)])),
                 "ar": [("WA",)], "ar-list": [("WA",)], "ar-list1": [("WA",)]}.get(needs, [("AR",)])
    if k < 0.4 and rng.random() < 0.3:
        items = [(rng.choice(("L", "D", "cL", "cD")), items)]
    if needs in ("ar", "ar-list", "ar-list1") and not sets(items, n)[2] and k > 0.7:
        items.insert(rng.randrange(len(items) + 1), ("AR",))
    if form == "subset":
        sub = gen_subset(rng, *sets(items, n), n)
    elif form == "try":
        sub = gen_items(rng, n)
    c = Case(kinds, items, form, sub, op, rng.choice(("lvalue", "const", "list", "value")), comps, [],
             rng.randrange(len(CONFIGS)))
    if needs == "subset" or op == "try":
        c.second = gen_subset(rng, *c.permissions(), n) if rng.random() < 0.5 else gen_items(rng, n)
    return c


# --------------------------------------------------------------------------------------------------------------- compiling
class Compiler:
    def __init__(self, work, cxx=B.CLANG):
        self.work, self.cxx = work, cxx
        self.count = 0
        self.mutex = threading.Lock()

    def compile(self, src, config):
        """-> (exit code, messages)"""
        with self.mutex:
            self.count += 1
            number = self.count
        std, defs = CONFIGS[config]
        path = os.path.join(self.work, "case-%d.cc" % number)
        with open(path, "w") as f:
            f.write(src)
        cmd = [self.cxx, "-std=" + std, "-I" + os.path.join(B.REPO, "inc"), "-w", "-fsyntax-only",
               "-ftemplate-backtrace-limit=0"] + ["-D" + d for d in defs] + [path]
        cmd[5:5] = ["-ferror-limit=0", "-fno-caret-diagnostics"] if "clang" in self.cxx else ["-fmax-errors=0"]
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
        os.unlink(path)
        if r.returncode not in (0, 1):
            raise P.MachineryError("compiler ended with %d: %s" % (r.returncode, r.stderr[-2000:]))
        return r.returncode, r.stderr.replace(path, "case.cc")

    def rejected(self, cases, config):
        """Indexes of the cases which the errors refer to."""
        src = PRELUDE + "".join(c.line(i) + "\n" for i, c in enumerate(cases))
        rc, err = self.compile(src, config)
        if rc == 0:
            return set()
        first = PRELUDE.count("\n") + 1
        out = set(int(m) - first for m in re.findall(r"case\.cc:(\d+)", err))
        return set(i for i in out if 0 <= i < len(cases))

    def alone(self, c):
        return self.compile(c.source(), c.config)[0] == 0


def simpler(c):
    """Candidates for a simpler failing case, simplest first."""
    if c.config:
        yield c.copy(config=0)
        yield c.copy(config=CONFIGS.index((CONFIGS[c.config][0], [])))
    if c.form != "const-ref":
        yield c.copy(form="const-ref", sub=[])
        yield c.copy(form="ref", sub=[])
    if c.entity != "lvalue":
        yield c.copy(entity="lvalue")
    for field in ("items", "sub", "second"):
        v = getattr(c, field)
        for i, x in enumerate(v):
            yield c.copy(**{field: v[:i] + v[i + 1:]})
            if len(x) == 2 and x[0] in ("R", "W"):
                for j in range(len(x[1])):
                    yield c.copy(**{field: v[:i] + [(x[0], x[1][:j] + x[1][j + 1:])] + v[i + 1:]})
            elif len(x) == 2:
                yield c.copy(**{field: v[:i] + list(x[1]) + v[i + 1:]})
    if len(c.comps) > 1:
        for i in range(len(c.comps)):
            yield c.copy(comps=c.comps[:i] + c.comps[i + 1:])
    if len(c.kinds) > 1:
        for d in range(len(c.kinds)):
            def ren(items):
                return [(i[0], [x - (x > d) for x in i[1]]) if i[0] in ("R", "W") else i if len(i) == 1 else (i[0], ren(i[1]))
                        for i in items]

            def uses(items):
                return any(d in i[1] if i[0] in ("R", "W") else len(i) > 1 and uses(i[1]) for i in items)
            if d not in c.comps and not uses(c.items) and not uses(c.sub) and not uses(c.second):
                yield c.copy(kinds=c.kinds[:d] + c.kinds[d + 1:], items=ren(c.items), sub=ren(c.sub), second=ren(c.second),
                             comps=[x - (x > d) for x in c.comps])


def shrink(comp_, c, seconds):
    end = time.time() + seconds
    progress = True
    while progress and time.time() < end:
        progress = False
        want = c.expected()
        cands = [x for x in simpler(c) if x.valid() and x.expected() == want]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for x, got in zip(cands, ex.map(comp_.alone, cands)):
                if got != want:
                    c, progress = x, True
                    break
    return c


def describe(c):
    std, defs = CONFIGS[c.config]
    return "-std=%s %s\n%s" % (std, " ".join("-D" + d for d in defs), c.line(0))


def run(ctx, cases, seconds, batch=40, gcc=False):
    rng = random.Random(ctx.seed * 7919 + (1 if gcc else 0))
    comp_ = Compiler(ctx.work, B.GXX if gcc else B.CLANG)
    t = time.time()
    usable = []
    for k in range(len(CONFIGS)):
        rc, err = comp_.compile(PRELUDE, k)
        if rc == 0:
            usable.append(k)
        else:
            ctx.runner.notes.append("configuration %s does not compile (see C22)" % (CONFIGS[k],))
    if not usable:
        raise B.BuildError("Tecs.hh does not compile in any configuration: " + err[-2000:])
    groups = {}
    todo = [] if gcc else list(planned(rng))
    todo += [gen_case(rng) for _ in range(cases - len(todo))]
    for c in todo:
        if not c.valid() or c.config not in usable:
            continue
        groups.setdefault((c.config, c.expected()), []).append(c)
    jobs = [(k, g[i:i + batch]) for k, g in sorted(groups.items()) for i in range(0, len(g), batch)]
    random.Random(1).shuffle(jobs)
    labels, hashes, samples, done, deviating = {}, set(), [], 0, []

    def job(j):
        (config, want), cs = j
        if time.time() - t > seconds or deviating:
            return None
        rej = comp_.rejected(cs, config)
        bad = [c for i, c in enumerate(cs) if (i in rej) == want]
        for c in bad:
            if comp_.alone(c) == (not want):
                deviating.append(c)
                break
        return bad

    skipped = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, bad in zip(jobs, ex.map(job, jobs)):
            if bad is None:
                skipped += 1
                continue
            for c in j[1]:
                done += 1
                want = j[0][1]
                key = "%s: %s" % (c.op, "compiles" if want else "is rejected")
                labels[key] = labels.get(key, 0) + 1
                lk = "lock from " + c.form
                labels[lk] = labels.get(lk, 0) + 1
                if OPS[c.op][1] != "any" and c.items:
                    hashes.add(hashlib.sha1((describe(c)).encode()).hexdigest())
                    if len(samples) < 6 and rng.random() < 0.02:
                        samples.append({"must compile": want, "case": describe(c).split("\n")})
            odd = [c for c in bad if c not in deviating]
            if odd and not deviating:
                # an error of another case mentioned it
                ctx.runner.notes.append("%d cases were blamed together with others but behave alone" % len(odd))
    ctx.more_evaluations += done
    ctx.more_nontrivial += len(hashes)
    for a, b in labels.items():
        ctx.extra.setdefault("operations", {})[a] = ctx.extra.setdefault("operations", {}).get(a, 0) + b
    ctx.extra.setdefault("samples", []).extend(samples)
    ctx.extra["compilations " + ("gcc" if gcc else "clang")] = comp_.count
    if skipped:
        ctx.extra["batches not compiled (time limit) " + ("gcc" if gcc else "clang")] = skipped
    if not deviating:
        return
    c = shrink(comp_, deviating[0], 240 if ctx.thorough else 60)
    want = c.expected()
    err = comp_.compile(c.source(), c.config)[1]
    ctx.violation({"kind": "compile", "compiler": comp_.cxx, "config": c.config, "expected": want, "source": c.source(), "message": "operation '%s' %s\n%s" % (
                       c.op, "must compile with these permissions but is rejected: " + err[:1500] if want else
                       "must not compile with these permissions but is accepted", ""), "log": describe(c)})


def replay(ctx, v):
    comp_ = Compiler(ctx.work, v["compiler"])
    got = comp_.compile(v["source"], v["config"])
    print(v["log"])
    print(got[1][:3000])
    bad = (got[0] == 0) != v["expected"]
    print("replay: " + ("violation" if bad else "ok"))
    return 1 if bad else 0
