"""Generates pools of lock permission specifications (C16): sources for one binary per pool.

The expected permissions of each specification are computed here, from the way it was put together, as plain sets."""
import os, random

import build as B


class Spec:
    def __init__(self, items, n):
        self.items = items  # ("R", comps) ("W", comps) ("RA",) ("WA",) ("AR",) ("L"|"D", items, const)
        self.r, self.w, self.ar = sets(items, n)

    def text(self):
        return ", ".join(item_text(i) for i in self.items)


def sets(items, n):
    r, w, ar = set(), set(), False
    for i in items:
        if i[0] == "R":
            r |= set(i[1])
        elif i[0] == "W":
            r |= set(i[1])
            w |= set(i[1])
        elif i[0] == "RA":
            r |= set(range(n))
        elif i[0] == "WA":
            r |= set(range(n))
            w |= set(range(n))
        elif i[0] == "AR":
            r |= set(range(n))
            w |= set(range(n))
            ar = True
        else:
            a, b, c = sets(i[1], n)
            r |= a
            w |= b
            ar |= c
    return r, w, ar


def item_text(i):
    if i[0] in "RW":
        return "Tecs::%s<%s>" % ("Read" if i[0] == "R" else "Write", ", ".join("X<%d>" % c for c in i[1]))
    if len(i) == 1:
        return {"RA": "Tecs::ReadAll", "WA": "Tecs::WriteAll", "AR": "Tecs::AddRemove"}[i[0]]
    inner = "".join(", " + item_text(j) for j in i[1])
    return "%sTecs::%s<World%s>" % ("const " if i[2] else "", "Lock" if i[0] == "L" else "DynamicLock", inner)


def pool(rng, n, count, focus):
    """focus: components that are chosen more often (those whose effects are observed)"""
    def comp():
        return rng.choice(focus) if rng.random() < 0.85 else rng.randrange(n)

    def subset(mean):
        k = 0 if rng.random() < 0.06 else 1
        while k and rng.random() < mean / (mean + 1.0) and k < n:
            k += 1
        out = [comp() for _ in range(k)]
        if rng.random() < 0.85:
            out = sorted(set(out), key=lambda c: rng.random())
        return tuple(out)

    def items(depth):
        out = []
        k = rng.choice((1, 1, 1, 2, 2, 3))
        for _ in range(k):
            x = rng.random()
            if x < 0.38:
                out.append(("R", subset(0.9)))
            elif x < 0.76:
                out.append(("W", subset(0.7)))
            elif x < 0.83:
                out.append(("RA",))
            elif x < 0.88:
                out.append(("WA",))
            elif x < 0.92:
                out.append(("AR",))
            elif depth < 2:
                out.append((rng.choice("LLD"), tuple(items(depth + 1)), rng.random() < 0.25))
        return out

    def weaken(its):
        out = []
        for i in its:
            x = rng.random()
            if x < 0.15 and len(its) > 1:
                continue
            if i[0] == "W" and x < 0.5:
                i = ("R", i[1])
            elif i[0] in "RW" and len(i) == 2 and x < 0.75 and len(i[1]) > 1:
                i = (i[0], tuple(i[1][1:]))
            elif i[0] == "WA" and x < 0.5:
                i = ("RA",)
            elif i[0] == "AR" and x < 0.5:
                i = ("WA",)
            out.append(i)
        if rng.random() < 0.3:
            out = [(rng.choice("LD"), tuple(out), rng.random() < 0.3)]
        rng.shuffle(out)
        return out

    def strengthen(its):
        out = list(its)
        x = rng.random()
        if x < 0.7:
            out.append((rng.choice("RW"), (comp(),)))
        elif x < 0.8:
            out.append(("RA",))
        rng.shuffle(out)
        return out

    out = [Spec([("AR",)], n), Spec([("RA",)], n), Spec([("WA",)], n), Spec([], n)]
    seen = set(s.text() for s in out)
    kinds = {}
    while len(out) < count:
        x = rng.random()
        if x < 0.45 or len(out) < 8:
            s = items(0)
        elif x < 0.75:
            s = weaken(rng.choice(out).items)
        else:
            s = strengthen(rng.choice(out).items)
        s = Spec(s, n)
        # no more than three ways of writing the same set of permissions
        k = (frozenset(s.r), frozenset(s.w), s.ar)
        if s.text() in seen or kinds.get(k, 0) >= (2 if s.ar else 3):
            continue
        kinds[k] = kinds.get(k, 0) + 1
        seen.add(s.text())
        out.append(s)
    return out


def generate(name, seed, n, count, globals_, observed, shuffle, per_file=3,
             roots=None):
    """Writes the sources of one pool; -> list of their paths. Rewrites nothing that is already there."""
    rng = random.Random("%s/%d" % (name, seed))
    order = list(range(n))
    if shuffle:
        rng.shuffle(order)
    specs = pool(rng, n, count, observed)
    # transactions are started with these (with many components, each costs seconds to compile)
    root_set = set(range(count)) if roots is None else set([0, 1] + [i for i in range(4, count) if not specs[i].ar][:roots])
    head = ["// generated by lib/permgen.py: %s, seed %d" % (name, seed),
            "#define PERM_GLOBAL(i) (%s)" % (" || ".join("(i) == %d" % g for g in globals_) or "false"),
            "#define PERM_OBSERVED Comps<%s>" % ", ".join(map(str, observed)),
            '#include "perm_impl.hh"',
            "using World = Tecs::ECS<%s>;" % ", ".join("X<%d>" % c for c in order),
            "namespace perm {"]
    for i, s in enumerate(specs):
        t = s.text()
        sep = ", " if t else ""
        head.append("template<> struct Spec<%d> { using World = ::World; using L = Tecs::Lock<World%s%s>; "
                    "using D = Tecs::DynamicLock<World%s%s>; static constexpr const char *text = \"%s\"; "
                    "static constexpr bool root = %s; static Set set() { return {{%s}, {%s}, %s}; } };" %
                    (i, sep, t, sep, t, t.replace("Tecs::", "").replace("World, ", ""),
                     "true" if i in root_set else "false",
                     ", ".join(map(str, sorted(s.r))), ", ".join(map(str, sorted(s.w))), "true" if s.ar else "false"))
    head.append("}")
    d = os.path.join(B.BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    paths = []

    def put(k, body):
        p = os.path.join(d, "%s_s%d_%d.cc" % (name, seed, k))
        text = "\n".join(head + body) + "\n"
        if not os.path.exists(p) or open(p).read() != text:
            tmp = "%s.%d" % (p, os.getpid())
            open(tmp, "w").write(text)
            os.replace(tmp, p)
        paths.append(p)

    groups = [list(range(a, min(a + per_file, count))) for a in range(0, count, per_file)]
    for k, g in enumerate(groups):
        put(k + 1, ["namespace perm {"] +
            ["Row makeRow%d() { return Maker<%d>::make(std::make_integer_sequence<int, %d>()); }" % (i, i, count)
             for i in g] + ["}"])
    body = ["namespace perm {", "extern const int N = %d, COMPS = %d;" % (count, n),
            "extern const std::vector<int> observed = {%s};" % ", ".join(map(str, observed)),
            "bool isGlobal(int i) { return PERM_GLOBAL(i); }",
            "void *newWorld() { return new World(); }", "void deleteWorld(void *w) { delete (World *)w; }"]
    body += ["Row makeRow%d();" % i for i in range(count)]
    body += ["Row makeRow(int i) {", "switch (i) {"]
    body += ["case %d: return makeRow%d();" % (i, i) for i in range(count)]
    body += ["}", "return {};", "}",
             "#ifdef TECS_ENABLE_PERFORMANCE_TRACING",
             "bool tracing() { return true; }",
             "void startTrace(void *w) { ((World *)w)->StartTrace(); }",
             "std::vector<Acquired> stopTrace(void *w, bool &full) {",
             "  auto tr = ((World *)w)->StopTrace();",
             "  static const int order[] = {%s};" % ", ".join(map(str, order)),
             "  std::vector<Acquired> out(COMPS + 1);",
             "  full = tr.componentEvents.size() != (size_t)COMPS;",
             "  auto one = [&](auto &list, Acquired &a) {",
             "    if (list.size() >= TECS_PERFORMANCE_TRACING_MAX_EVENTS) full = true;",
             "    for (auto &e : list) {",
             "      if (e.type == Tecs::TraceEvent::Type::ReadLock) a.r = true;",
             "      if (e.type == Tecs::TraceEvent::Type::WriteLock) a.w = true;",
             "    }",
             "  };",
             "  for (size_t i = 0; i < tr.componentEvents.size() && i < (size_t)COMPS; i++)",
             "    one(tr.componentEvents[i], out[order[i]]);",
             "  one(tr.metadataEvents, out[COMPS]);",
             "  return out;",
             "}",
             "#else",
             "bool tracing() { return false; }",
             "void startTrace(void *) {}",
             "std::vector<Acquired> stopTrace(void *, bool &) { return {}; }",
             "#endif", "}"]
    put(0, body)
    return paths
