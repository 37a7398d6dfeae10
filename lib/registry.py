"""Which binaries and campaigns decide which property."""
import concurrent.futures, os, subprocess, time

import build as B
import pbtrun as P
from build import Binary

ENGINE = ["engine/pbt.cc", "engine/sched.cc", "engine/shim.cc"]
WORLD = ["harness/world_%d.cc" % i for i in (1, 2, 3, 4)] + ["harness/world_tx.cc", "harness/stranger.cc"]


class Ctx:
    def __init__(self, pid, tier, seed, runner, work):
        self.pid, self.tier, self.seed, self.runner, self.work = pid, tier, seed, runner, work
        self.build_s = 0.0
        self.violations = []
        self.known_hits = {}
        self.extra = {}
        self.more_evaluations = 0
        self.more_nontrivial = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def build(self, binaries, keep_going=False):
        t = time.time()
        r = B.build(binaries, keep_going)
        self.build_s += time.time() - t
        return r

    def violation(self, v):
        self.violations.append(v)

    def unlisted(self, known):
        return [v for v in self.violations if v.get("history") not in known]

    def campaign(self, binary, path, params, quick, thorough, cap=(150, 900), digests=False, name=None,
                 seed_offset=None, **kw):
        """Runs one campaign; on a failure shrinks, confirms and records it. -> (result, failed)"""
        n = thorough if self.thorough else quick
        c = P.Campaign(name or (binary + " " + " ".join("%s=%s" % kv for kv in sorted(params.items()))), path, params, n,
                       cap[1] if self.thorough else cap[0], **kw)
        if n <= 0:
            return None, False
        c.seed_offset = seed_offset if seed_offset is not None else len(self.runner.results)
        res, f = self.runner.run(c, digests=digests)
        if f is None:
            return res, False
        v = self.runner.confirm(f, 240 if self.thorough else 60)
        if v is None:
            return res, False
        v["binary"] = binary
        self.violation(v)
        return res, True


class Check:
    """A check whose deciding step is one or more campaigns of generated cases."""

    def __init__(self, rule, binaries, campaigns, assumptions=(), compile_matters=False):
        self.rule, self._binaries, self._campaigns = rule, binaries, campaigns
        self.assumptions = list(assumptions)
        # a supported build configuration that does not compile although another one does is a violation
        self.compile_matters = compile_matters

    def binaries(self, tier):
        return [b for b in self._binaries if tier == "thorough" or not getattr(b, "thorough_only", False)]

    def run(self, ctx):
        paths = ctx.build(self.binaries(ctx.tier), self.compile_matters)
        broken = [n for n, p in paths.items() if isinstance(p, B.BuildError)]
        if broken:
            if len(broken) == len(paths):
                raise paths[broken[0]]
            ctx.violation({"kind": "build", "binary": broken[0],
                           "message": "configuration %s does not compile: %s" % (broken[0], str(paths[broken[0]])[:3000])})
            return
        for c in self._campaigns:
            c = dict(c)
            if c.pop("thorough_only", False) and not ctx.thorough:
                continue
            b = c.pop("bin")
            _, failed = ctx.campaign(b, paths[b], **c)
            if failed:
                break

    def replay(self, ctx, v):
        if v["kind"] == "build":
            p = ctx.build([b for b in self._binaries if b.name == v["binary"]], True)[v["binary"]]
            print("replay: %s" % ("violation: " + str(p) if isinstance(p, B.BuildError) else "ok"))
            return 1 if isinstance(p, B.BuildError) else 0
        paths = ctx.build([b for b in self._binaries if b.name == v["binary"]])
        path = paths[v["binary"]]
        pin = any(c.get("pin") for c in self._campaigns if c["bin"] == v["binary"])
        c = P.Campaign("replay", path, v["params"], 1, 900, pin=pin)
        if v["kind"] == "case":
            kind, msg, st, out = ctx.runner.replay(c, bytes.fromhex(v["data"]), log=True)
        else:
            c.seed = v["case_seed"]
            f = P.Failure(c, "fail", v["message"], b"", [], v["case"], 77, v["worker"])
            bad, cmd, out = ctx.runner.prefix_replay(f)
            kind, msg = ("violation" if bad else "ok"), v["message"]
        print(out[-8000:])
        print("replay: " + kind)
        return 0 if kind == "ok" else 1


def seq_binary(n):
    b = Binary("seq-b%d" % n, ["harness/seq.cc"] + WORLD + ENGINE, defs=["TECS_ENTITY_ALLOCATION_BATCH_SIZE=%d" % n])
    b.thorough_only = n != 24
    return b


def seq_check(profile, rule, quick=60000, thorough=2000000, extra=(), assumptions=(), large=64):
    """An allocation batch of 24 makes growth frequent and reaches both ways of copying on commit (few or many of the
    allocated entities valid); the thorough tier adds other sizes."""
    camps = list(extra)
    camps.append(dict(bin="seq-b24", params={"profile": profile}, quick=quick, thorough=thorough, cap=(120, 300)))
    if large:
        camps.append(dict(bin="seq-b24", params={"profile": profile, "large": "1"}, quick=large, thorough=100 * large,
                          cap=(60, 200), case_timeout=60))
    for n in (1000, 7):
        camps.append(dict(bin="seq-b%d" % n, params={"profile": profile}, quick=0, thorough=thorough, cap=(120, 180),
                          thorough_only=True))
    return Check(rule, [seq_binary(n) for n in (24, 1000, 7)], camps, assumptions)


SEQ_RULE = ("A case is a generated history: up to three instances, a sequence of transactions of 14 kinds of "
            "permissions, and inside each a sequence of operations (create, destroy, set, get, unset, queries, lists, "
            "lock copies and conversions, observers, invalid accesses) compared step by step with a reference model. ")
SEQ_ASSUME = ["single thread; the concurrent behaviour is decided by C10 to C15",
              "component types: three entity components (one with heap contents and construction counting) and two globals"]

CHECKS = {}


def _seq(pid, profile, nontrivial, **kw):
    CHECKS[pid] = seq_check(profile, SEQ_RULE + "Non-trivial: " + nontrivial, assumptions=SEQ_ASSUME, **kw)


_seq("C01", "core", "the model state was queried after at least one change in the same transaction, several times.")
_seq("C02", "commit", "at least three transactions, of different kinds, with changes and a later check of the whole state.")
_seq("C03", "prev", "previous-state queries were made after changes in the same transaction.")
_seq("C04", "handles", "an index was reused for a new entity after its entity had been destroyed.",
     extra=[dict(bin="seq-b24", params={"profile": "handles", "churn": "70000"}, quick=8, thorough=64, cap=(100, 120))])
_seq("C05", "lists", "a list held by the caller had an entry whose entity stopped matching or grew stale while held.")
_seq("C06", "invalid", "at least one access was expected to be rejected and was attempted.")
_seq("C07", "events", "an observer had events to deliver over at least one commit.")
_seq("C08", "observers", "at least two observers, with stops or creations between commits.")
_seq("C09", "globals", "global components were changed or removed and read back.")
_seq("C18", "scope", "locks were copied, converted or dropped out of order while changes were pending.")
_seq("C19", "release", "values were replaced or removed and their destruction was accounted for.")
_seq("C24", "multi", "operations alternated between, or nested over, several instances.")

# ------------------------------------------------------------------------------------------------ concurrent histories
CWORLD = ["harness/cworld_%d.cc" % i for i in (1, 2, 3, 4)]


def conc_binary(kind, std, batch, spin=None, thorough_only=False):
    """kind: conc (ASan, multi-version model) or race (TSan, no shared model)"""
    defs = ["TECS_ENTITY_ALLOCATION_BATCH_SIZE=%d" % batch]
    if spin is not None:
        defs.append("TECS_SPINLOCK_RETRY_YIELD=%d" % spin)
    if kind == "race":
        defs.append("CW_LIGHT")
    b = Binary("%s-%s" % (kind, std.replace("+", "p")), ["harness/conc.cc"] + CWORLD + ENGINE, defs=defs, std=std,
               san="tsan" if kind == "race" else "asan")
    b.thorough_only = thorough_only
    return b


CONC20, CONC17 = conc_binary("conc", "c++20", 4, 1), conc_binary("conc", "c++17", 40)
RACE20, RACE17 = conc_binary("race", "c++20", 4, 1), conc_binary("race", "c++17", 8)
CONC_RULE = ("A case is a generated program of 2 to 8 threads with up to 4 transactions each (18 kinds of permissions, a "
             "sequence of reads, writes, structural changes, lists and observer polls in each) and a generated schedule "
             "(explicit preemptions, random switching or priorities; spurious compare-exchange failures) over every "
             "atomic access of the library and every access to a component value. ")
CONC_ASSUME = ["interleavings are sequentially consistent at the granularity of atomic operations and component accesses; "
               "too weak memory orders are decided by C15 (ThreadSanitizer on the same interleavings)",
               "each thread has one active transaction at a time; component types A, B, C (entities) and G (global)"]


def conc_camps(profile, quick, thorough):
    return [dict(bin="conc-cpp20", params={"profile": profile}, quick=quick * 2 // 3, thorough=thorough, cap=(60, 400), pin=True),
            dict(bin="conc-cpp17", params={"profile": profile}, quick=quick // 3, thorough=thorough, cap=(60, 300), pin=True)]


CONC_NT = "Non-trivial: transactions of different threads overlapped or waited at least twice and at least two committed changes."
CHECKS["C10"] = Check(CONC_RULE + CONC_NT, [CONC20, CONC17], conc_camps("snapshot", 120000, 6000000), CONC_ASSUME)
CHECKS["C11"] = Check(CONC_RULE + CONC_NT, [CONC20, CONC17], conc_camps("update", 120000, 6000000), CONC_ASSUME)
CHECKS["C12"] = Check(CONC_RULE + CONC_NT, [CONC20, CONC17], conc_camps("progress", 100000, 6000000), CONC_ASSUME)
CHECKS["C15"] = Check(CONC_RULE + "Non-trivial: at least one thread wrote and threads were preempted.", [RACE20, RACE17],
                      [dict(bin="race-cpp20", params={"profile": "race"}, quick=80000, thorough=5000000, cap=(60, 450), pin=True),
                       dict(bin="race-cpp17", params={"profile": "race"}, quick=40000, thorough=5000000, cap=(60, 350), pin=True)],
                      ["the schedules are those of the controlled scheduler, which is invisible to ThreadSanitizer; the "
                       "happens-before relation is that of the library's own atomics with their real memory orders",
                       "each thread has one active transaction at a time and uses only its own locks and observers"])
def wait_binary(std, batch, spin=None):
    defs = ["TECS_ENTITY_ALLOCATION_BATCH_SIZE=%d" % batch]
    if spin is not None:
        defs.append("TECS_SPINLOCK_RETRY_YIELD=%d" % spin)
    return Binary("wait-" + std.replace("+", "p"), ["harness/waiting.cc"] + CWORLD + ENGINE, defs=defs, std=std)


WAIT20, WAIT17 = wait_binary("c++20", 4, 1), wait_binary("c++17", 40)
WAIT_RULE = ("A case is a generated set of threads, each with transactions whose start and end are opened one by one by a "
             "controller, which then lets everything run until nothing can move (or keeps interleaving) and compares who "
             "has started, who is waiting and who has ended with what the permissions allow, in every generated schedule. ")


def wait_camps(profile):
    return [dict(bin="wait-cpp20", params={"profile": profile}, quick=60000, thorough=6000000, cap=(60, 400), pin=True),
            dict(bin="wait-cpp17", params={"profile": profile}, quick=30000, thorough=4000000, cap=(60, 300), pin=True)]


CHECKS["C13"] = Check(WAIT_RULE + "Non-trivial: a start had to wait and an end had to wait.", [WAIT20, WAIT17],
                      wait_camps("wait"), CONC_ASSUME)
CHECKS["C14"] = Check(WAIT_RULE + "Non-trivial: a start was tried behind a waiting commit.", [WAIT20, WAIT17],
                      wait_camps("overtake"), CONC_ASSUME)

_c18 = CHECKS["C18"]
_c18._binaries.append(CONC20)
_c18._campaigns.append(dict(bin="conc-cpp20", params={"profile": "scope"}, quick=30000, thorough=3000000, cap=(60, 300), pin=True))
_c18.rule += " The last campaign is concurrent: transactions kept alive by another lock only, against other threads' transactions."

# --------------------------------------------------------------------------------------------------- views and handles
PBT = ["engine/pbt.cc"]
VIEW = Binary("view", ["harness/view.cc"] + PBT)
VIEWU = Binary("view-unchecked", ["harness/view.cc"] + PBT, defs=["TECS_UNCHECKED_MODE"], std="c++20")
CHECKS["C20"] = Check(
    "A case is one to three underlying lists (plain, or lists of a real instance with entries that became null) and a "
    "generated family of views over them (constructors, copies, nested subviews, huge and wrong offsets and counts), each "
    "compared with the vector of entities it stands for: size, indexing, both directions of iteration, generated iterator "
    "expressions and comparisons, algorithms, and accesses outside the range, which must throw. Non-trivial: a subview "
    "and a view of at least two elements that does not start at the first element of its list.",
    [VIEW, VIEWU],
    [dict(bin="view", params={}, quick=60000, thorough=3000000, cap=(60, 500)),
     dict(bin="view-unchecked", params={}, quick=100000, thorough=5000000, cap=(60, 300))],
    ["an iterator is used while the view it came from is alive; the difference and order of two iterators are not provided "
     "by the library"], compile_matters=True)
ID_CONFIGS = [("ids-default", [], "c++17"),
              ("ids-16-16-8", ["TECS_ENTITY_INDEX_TYPE=uint16_t", "TECS_ENTITY_GENERATION_TYPE=uint16_t"], "c++20"),
              ("ids-32-32-16", ["TECS_ENTITY_ECS_IDENTIFIER_TYPE=uint16_t"], "c++17")]
CHECKS["C21"] = Check(
    "A case is a pool of 2 to 14 handles, built in all documented ways from generated fields (small, extreme, single bit, "
    "uniform, and neighbours of handles already in the pool), compared with plain wide integers: parts, 64-bit packing, "
    "equality, order, hash, printing, containers. Non-trivial: three distinct handles, two of which differ in one field.",
    [Binary(n, ["harness/ids.cc"] + PBT, defs=d, std=s) for n, d, s in ID_CONFIGS],
    [dict(bin=n, params={}, quick=150000, thorough=20000000, cap=(60, 250)) for n, _, _ in ID_CONFIGS],
    ["supported id types: those that satisfy the library's own static assertions and fit a 64-bit integer (32/32/8, "
     "16/16/8 and 32/32/16 bits)"], compile_matters=True)

# --------------------------------------------------------------------------------------------------- nested transactions
class ScenarioCheck(Check):
    """Also runs fixed histories of known findings: (history, binary, params)."""

    def __init__(self, *a, scenarios=(), **kw):
        Check.__init__(self, *a, **kw)
        self.scenarios = list(scenarios)

    def run(self, ctx):
        Check.run(self, ctx)
        if ctx.violations:
            return
        paths = ctx.build(self.binaries(ctx.tier))
        for history, b, params in self.scenarios:
            c = P.Campaign(history, paths[b], params, 1, 60)
            kind, msg, st, out = ctx.runner.replay(c, b"", timeout=60)
            if kind == "violation" or kind == "hang":
                ctx.known_hits[history] = True
                ctx.violation({"kind": "case", "binary": b, "params": params, "data": "", "history": history,
                               "message": msg or kind, "log": out[-4000:]})
            elif kind != "ok":
                raise P.MachineryError("scenario %s: %s %s" % (history, kind, out[-2000:]))


NESTED = Binary("nested-64", ["harness/nested.cc"] + ENGINE)
NESTED3 = Binary("nested-3", ["harness/nested.cc"] + ENGINE, defs=["TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD=3"], std="c++20")
CHECKS["C17"] = ScenarioCheck(
    "A case is a generated order of starting (seven kinds of permissions, two ways), nesting, copying locks, releasing "
    "them, ending and leaving by an exception of transactions on up to 70 instances in one to three threads, driven one "
    "operation at a time, with the default limit and a limit of 3; the last campaign runs generated concurrent programs "
    "and schedules and compares the transaction ids. Non-trivial: a start was rejected, transactions ended, and a thread "
    "had several active; concurrent: as for C10.",
    [NESTED, NESTED3, CONC20],
    [dict(bin="nested-64", params={}, quick=24000, thorough=600000, cap=(60, 400)),
     dict(bin="nested-3", params={}, quick=30000, thorough=800000, cap=(60, 300)),
     dict(bin="conc-cpp20", params={"profile": "ids"}, quick=30000, thorough=2000000, cap=(60, 200), pin=True)],
    ["in the campaigns a transaction's last lock is released by the thread that started it (see the known finding)"],
    scenarios=[("handoff", "nested-64", {"handoff": "1"})])

# --------------------------------------------------------------------------------------------------- running out of indexes
ID16 = ["TECS_ENTITY_INDEX_TYPE=uint16_t", "TECS_ENTITY_GENERATION_TYPE=uint16_t"]
EXHAUST = {n: Binary("exhaust-%d" % n, ["harness/exhaust.cc"] + PBT, defs=ID16 + ["TECS_ENTITY_ALLOCATION_BATCH_SIZE=%d" % n])
           for n in (1000, 1, 13000, 32768, 65535, 65536)}
CHECKS["C25"] = Check(
    "A case is a history of up to six adding and removing transactions with 16-bit indexes, each creating a few entities, "
    "as many as fit (give or take a few) or until creation throws and again after it, destroying some or all, and changing "
    "values; every handle is compared with all living ones, and values are compared in full or by sample, inside the "
    "transaction and after it. Six allocation batch sizes. Non-trivial: creation threw, and worked again after entities "
    "had been destroyed (batch 65536: threw).",
    list(EXHAUST.values()),
    [dict(bin="exhaust-%d" % n, params={}, quick=q, thorough=t, cap=(40, 200), case_timeout=60)
     for n, q, t in ((1000, 320, 12000), (1, 240, 10000), (13000, 240, 10000), (32768, 160, 8000), (65535, 160, 8000),
                     (65536, 80, 2000))],
    ["index type uint16_t (with the default 32-bit indexes the limit needs more memory than there is); generations stay "
     "below 200 per index"])

# --------------------------------------------------------------------------------------------------- performance traces
def trace_binary(name, std, cap, *defs):
    return Binary(name, ["harness/trace.cc"] + CWORLD + ENGINE, std=std,
                  defs=["TECS_ENABLE_PERFORMANCE_TRACING", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=%d" % cap,
                        "TECS_ENTITY_ALLOCATION_BATCH_SIZE=4"] + list(defs))


CHECKS["C23"] = Check(
    "A case is one to three traces of generated programs of one to five threads (18 kinds of permissions, nested starts "
    "that throw, locks kept alive by copies) under generated schedules, with untraced transactions between them. Every "
    "list of events is run through the automaton of a lock, and every thread's events are matched with its transactions: "
    "kind of lock, order, time window of the transaction's start or end, and nothing earlier missing when there were more "
    "events than the capacity (24 in one build). The CSV text is parsed and compared with the events. Non-trivial: "
    "several threads, commits, and waits, acquisitions given back, or more events than the capacity.",
    [trace_binary("trace-24", "c++17", 24), trace_binary("trace-3000", "c++20", 3000, "TECS_SPINLOCK_RETRY_YIELD=1")],
    [dict(bin="trace-24", params={}, quick=50000, thorough=3000000, cap=(60, 400), pin=True),
     dict(bin="trace-3000", params={}, quick=40000, thorough=3000000, cap=(60, 400), pin=True),
     dict(bin="trace-24", params={"long": "1"}, quick=8, thorough=400, cap=(60, 200), pin=True)],
    ["traces are started and stopped while no transaction is active; component and thread names contain no comma",
     "interleavings are those of the controlled scheduler"], compile_matters=True)

# --------------------------------------------------------------------------------------------------- conversions of locks
import permgen

PERM_TRACE = ["TECS_ENABLE_PERFORMANCE_TRACING", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=64"]
# world: components, specifications, global components, observed components, kept order, roots, san, opt, std
PERM_WORLDS = {
    "p5": (5, 24, [1, 4], [0, 1, 2, 3, 4], True, None, "asan", "-O1", "c++17"),
    "p3": (3, 30, [0], [0, 1, 2], False, None, "asan", "-O1", "c++20"),
    "p1": (1, 10, [], [0], True, None, "asan", "-O1", "c++17"),
    "p31": (31, 12, [4, 30], [0, 1, 15, 29, 30], False, 4, "none", "-O0", "c++17"),
    "p63": (63, 9, [1, 61], [0, 1, 31, 61, 62], False, 2, "none", "-O0", "c++20"),
    "p64": (64, 9, [1, 62], [0, 1, 61, 62, 63], False, 2, "none", "-O0", "c++17"),
    "p100": (100, 10, [1, 99], [0, 1, 62, 63, 64, 99], False, 3, "none", "-O0", "c++17"),
}


class PermCheck(Check):
    def pools(self, tier, seed):
        """-> [(world, pool seed, cases, cap)]"""
        if tier == "quick":
            return [("p5", seed, 20000, 60), ("p63", seed, 1600, 40), ("p64", seed, 1600, 40)]
        out = [("p5", seed + k * 1000, 400000, 120) for k in range(4)]
        out += [("p3", seed + k * 1000, 400000, 120) for k in range(2)]
        out += [("p1", seed, 60000, 60), ("p31", seed, 60000, 120), ("p63", seed, 60000, 120), ("p64", seed, 60000, 120),
                ("p64", seed + 1000, 60000, 120), ("p100", seed, 60000, 120)]
        return out

    def binary(self, world, seed):
        n, count, gl, obs, ordered, roots, san, opt, std = PERM_WORLDS[world]
        src = permgen.generate(world, seed, n, count, gl, obs, not ordered, 3 if roots is None else 1, roots)
        return Binary("%s-%d" % (world, seed), ["harness/perm.cc", "engine/pbt.cc"] + src, defs=PERM_TRACE, san=san, opt=opt,
                      std=std)

    def binaries(self, tier):
        return self._binaries

    def run(self, ctx):
        pools = self.pools(ctx.tier, ctx.seed)
        self._binaries = [self.binary(w, s) for w, s, _, _ in pools]
        self._campaigns = [dict(bin="%s-%d" % (w, s), params={}, quick=n, thorough=n, cap=(c, c)) for w, s, n, c in pools]
        Check.run(self, ctx)
        ctx.extra["pools"] = ["%s seed %d: %d specifications of %d components" % (w, s, PERM_WORLDS[w][1], PERM_WORLDS[w][0])
                              for w, s, _, _ in pools]

    def replay(self, ctx, v):
        w, s = v["binary"].rsplit("-", 1)
        self._binaries = [self.binary(w, int(s))]
        self._campaigns = []
        return Check.replay(self, ctx, v)


CHECKS["C16"] = PermCheck(
    "A pool of lock specifications is generated from the seed (reads, writes, all, add/remove, nested Lock and DynamicLock, "
    "duplicates, empty lists) for worlds of 5, 63 and 64 component types (thorough: 1 to 100), compiled, and every question the "
    "types answer (has_permissions, is_lock_subset, convertible) compared with plain sets. A case is one to three "
    "transactions over the pool, in each a chain of conversions (implicit, Subset, ReadOnlySubset, DynamicLock, TryLock, "
    "copies) and changes and reads through any of the locks; what succeeds, what every lock shows, what is committed and "
    "which component locks the transaction really took (performance trace) are compared with the sets. Non-trivial: TryLock "
    "granted and refused, and a component was written.",
    [], [], ["runtime checks on; single thread (who excludes whom is decided by C13)",
             "what TryLock answers for permissions that the transaction holds but the lock the DynamicLock was made from did not "
             "promise is left open"], compile_matters=True)

# --------------------------------------------------------------------------------------------------- what compiles
import compgen


class CompileCheck(Check):
    def run(self, ctx):
        compgen.run(ctx, 40000 if ctx.thorough else 3000, 1500 if ctx.thorough else 150)
        if not ctx.violations:
            compgen.run(ctx, 12000 if ctx.thorough else 480, 700 if ctx.thorough else 60, gcc=True)

    def binaries(self, tier):
        return []

    def replay(self, ctx, v):
        return compgen.replay(ctx, v)


CHECKS["C26"] = CompileCheck(
    "A case is a program of one operation (90 kinds: every operation on entities, global components, lists, observers and "
    "locks, with the ways to use its result) on a world of one to five component types, through a lock with generated "
    "permissions (lists, All, nested lock types, duplicates, none; often exactly what is needed or everything but that) "
    "obtained in one of ten ways, compiled in six build configurations by clang and gcc. Whether it must compile is decided "
    "by plain sets. Non-trivial: the operation needs a permission or a fitting component type, and the lock has permissions.",
    [], [], ["component types are copyable and default constructible",
             "two compilers (clang 18, gcc 13); what an optional template parameter of an operation is for is left open"])

# ---------------------------------------------------------------------------------------------------- component types
TYPES_SRC = ["harness/types.cc"] + ["harness/types_%d.cc" % i for i in range(1, 7)] + PBT
TYPES = Binary("types", TYPES_SRC, defs=["TECS_ENTITY_ALLOCATION_BATCH_SIZE=8"])
TYPESU = Binary("types-gcc", TYPES_SRC, std="c++20", san="none", cxx=B.GXX, opt="-O2",
                defs=["TECS_ENTITY_ALLOCATION_BATCH_SIZE=3", "TECS_UNCHECKED_MODE"])
TYPESU.thorough_only = True
class TypesCheck(Check):
    """A component type whose histories do not compile although those of int do is a violation too."""

    def all_types(self):
        out = []
        for s in TYPES_SRC:
            with open(os.path.join(B.VERIF, s)) as f:
                text = f.read()
            i, depth, start = text.find("ECS<"), 0, None
            if i < 0:
                continue
            i = start = i + 4
            while depth >= 0:
                ch = text[i]
                depth += (ch in "<(") - (ch in ">)")
                if depth < 0 or (ch == "," and depth == 0):
                    if text[start:i].strip() not in out:
                        out.append(text[start:i].strip())
                    start = i + 1
                i += 1
        return out

    def probe(self, ctx, binary, types):
        """-> compiler's message, or None if the histories of a world of these types compile"""
        src = os.path.join(ctx.work, "probe-%s.cc" % abs(hash((binary.name,) + tuple(types))))
        with open(src, "w") as f:
            f.write('#include "types.hh"\nTotals probe(pbt::Src &s) {\n    return history<Tecs::ECS<%s>, %s>(s);\n}\n' % (
                ", ".join(types), types[0]))
        r = subprocess.run(binary.compile_cmd(src) + ["-fsyntax-only"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=B.ENV)
        os.unlink(src)
        return None if r.returncode == 0 else r.stdout.decode(errors="replace")

    def run(self, ctx):
        binaries = self.binaries(ctx.tier)
        paths = ctx.build(binaries, True)
        for b in binaries:
            if not isinstance(paths[b.name], B.BuildError):
                continue
            if self.probe(ctx, b, ["int"]) is not None or self.probe(ctx, b, ["int", "float"]) is not None:
                raise paths[b.name]
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                types = self.all_types()
                bad = [(t, e) for t, e in zip(types, ex.map(lambda t: self.probe(ctx, b, [t]), types)) if e is not None]
            if not bad:
                raise paths[b.name]
            ctx.violation({"kind": "type", "binary": b.name, "type": bad[0][0],
                           "message": "the operations on components of type %s do not compile (%s), those on int do: %s" % (
                               bad[0][0], ", ".join(t for t, _ in bad), bad[0][1][:2000])})
            return
        Check.run(self, ctx)

    def replay(self, ctx, v):
        if v["kind"] != "type":
            return Check.replay(self, ctx, v)
        b = [b for b in self._binaries if b.name == v["binary"]][0]
        e = self.probe(ctx, b, [v["type"]])
        print("replay: %s" % ("ok" if e is None else "violation: " + e[:3000]))
        return 0 if e is None else 1


CHECKS["C27"] = TypesCheck(
    "A case is a history of transactions (adding and removing, writing everything or a few types, reading) over one of six "
    "worlds of 5 to 8 component types of very different nature (numbers, pointers, containers, callables, over-aligned, "
    "identity-dependent, copy-only, polymorphic, greedy constructors, overloaded operators, assignment from other types; "
    "global and not). Components are set from arguments, variables, constants, each other and themselves, changed in place, "
    "added by reference, unset, copied into events, and moved by growth; each is compared, as text, with what the same "
    "operations on a plain variable give. Non-trivial: at least two commits, two types and six changes.",
    [TYPES, TYPESU],
    [dict(bin="types", params={}, quick=400000, thorough=12000000, cap=(60, 400)),
     dict(bin="types-gcc", params={}, quick=0, thorough=20000000, cap=(60, 300), thorough_only=True)],
    ["single thread; about 35 component types stand for all"])

# --------------------------------------------------------------------------------------------------- build configurations
def _cfg(name, std, batch, san="asan", defs=(), cxx=B.CLANG, opt="-O1", extra=(), thorough_only=False, conc=False):
    d = list(defs) + ["TECS_ENTITY_ALLOCATION_BATCH_SIZE=%d" % batch]
    src = (["harness/conc.cc"] + CWORLD if conc else ["harness/seq.cc"] + WORLD) + ENGINE
    b = Binary("cfg-" + name, src, std=std, san=san, defs=d, cxx=cxx, opt=opt, extra=extra)
    b.thorough_only = thorough_only
    return b


UNCHECKED, HEADER = "TECS_UNCHECKED_MODE", "TECS_HEADER_ONLY"
TRACING = ["TECS_ENABLE_PERFORMANCE_TRACING", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=100"]
TRACY = ["TECS_ENABLE_TRACY", "TECS_TRACY_INCLUDE_LOCKS", "TECS_TRACY_INCLUDE_DETAILED_COMMIT"]
TRACY_INC = ["-I" + os.path.join(B.VERIF, "harness", "tracystub")]
ECS16 = ["TECS_ENTITY_ECS_IDENTIFIER_TYPE=uint16_t"]
# the first one is the default configuration
CONFIGS = [
    _cfg("default", "c++17", 1000),
    _cfg("unchecked", "c++20", 24, defs=[UNCHECKED]),
    _cfg("header", "c++17", 7, defs=[HEADER]),
    _cfg("tracing-id16", "c++20", 1, defs=TRACING + ID16),
    _cfg("gcc-O2", "c++20", 24, san="none", cxx=B.GXX, opt="-O2", defs=[HEADER, UNCHECKED] + ECS16),
    _cfg("tracy", "c++17", 100, defs=TRACY + [UNCHECKED], extra=TRACY_INC),
    _cfg("gcc-O3", "c++17", 3, san="none", cxx=B.GXX, opt="-O3", defs=TRACING + [UNCHECKED], thorough_only=True),
    _cfg("clang-O2", "c++20", 1000, san="none", opt="-O2", thorough_only=True),
    _cfg("header-id16", "c++20", 24, defs=[HEADER] + ID16, thorough_only=True),
    _cfg("tracy-all", "c++20", 2, defs=TRACY + TRACING + [HEADER], extra=TRACY_INC, thorough_only=True),
    _cfg("tracy-light", "c++17", 24, defs=["TECS_ENABLE_TRACY"], extra=TRACY_INC, thorough_only=True),
    _cfg("unchecked-id16", "c++17", 65536, defs=[UNCHECKED] + ID16, thorough_only=True),
]
CONC_CONFIGS = [
    _cfg("conc-default", "c++17", 40, conc=True),
    _cfg("conc-header-unchecked", "c++20", 4, defs=[HEADER, UNCHECKED], conc=True),
    _cfg("conc-tracing-unchecked", "c++17", 4, defs=TRACING + [UNCHECKED, "TECS_SPINLOCK_RETRY_YIELD=1"], conc=True),
    _cfg("conc-tracy", "c++20", 4, defs=TRACY, extra=TRACY_INC, conc=True),
]


class DiffCheck(Check):
    """The same generated programs in every build configuration: every observation must be the same."""

    def __init__(self, *a, conc=(), **kw):
        Check.__init__(self, *a, **kw)
        self.conc = list(conc)

    def differ(self, ctx, f, a, b, pa, pb):
        """f: a failure of configuration a; confirmed only when b does not do the same."""
        f.campaign.other = pb
        v = ctx.runner.confirm(f, 240 if ctx.thorough else 60)
        f.campaign.other = None
        if v is None or v["kind"] != "case":
            ctx.runner.notes.append("%s fails and so does %s (or it did not reproduce): %s" % (a, b, f.msg[:200]))
            return False
        v["binary"], v["other"] = a, b
        ctx.violation(v)
        return True

    def run(self, ctx):
        allb = self.binaries(ctx.tier)
        paths = ctx.build(allb + [b for b in self.conc if ctx.thorough or not b.thorough_only], True)
        bad = [n for n, p in paths.items() if isinstance(p, B.BuildError)]
        names = [b.name for b in allb]
        base = names[0]
        if bad:
            if base in bad:
                raise paths[base]
            ctx.violation({"kind": "build", "binary": bad[0],
                           "message": "configuration %s does not compile: %s" % (bad[0], str(paths[bad[0]])[:3000])})
            return
        n, cap = (600000, 400) if ctx.thorough else (24000, 60)
        params = {"profile": "valid", "diff": "1"}
        results = {}
        for name in names:
            c = P.Campaign(name, paths[name], params, n, cap, samples=2 if name == base else 0)
            c.seed_offset = 0
            res, f = ctx.runner.run(c, digests=True)
            results[name] = (c, res)
            if f is None:
                continue
            others = names[1:] if name == base else [base]
            for o in others:
                if self.differ(ctx, f, name, o, paths[name], paths[o]):
                    return
        c0, r0 = results[base]
        compared = 0
        for name in names[1:]:
            c, r = results[name]
            common = [i for i in r0["digests"] if i in r["digests"]]
            compared += len(common)
            wrong = sorted(i for i in common if r0["digests"][i] != r["digests"][i])
            if not wrong:
                continue
            tried = 0
            for i in wrong[:5]:
                data, marks = ctx.runner.record(c0, i)
                f = P.Failure(c, "fail", "digests of case %d differ" % i, data, marks, i, 77, i % P.WORKERS)
                if self.differ(ctx, f, name, base, paths[name], paths[base]):
                    return
        ctx.extra["compared"] = compared
        # concurrent programs: the model's verdict must be the same
        failed, passed = [], 0
        for b in [x for x in self.conc if ctx.thorough or not x.thorough_only]:
            c = P.Campaign(b.name, paths[b.name], {"profile": "update"}, 1500000 if ctx.thorough else 20000,
                           300 if ctx.thorough else 40, pin=True, samples=1)
            c.seed_offset = 50
            res, f = ctx.runner.run(c)
            if f is None:
                passed += 1
            else:
                failed.append((b.name, f))
        for name, f in failed:
            if not passed:
                ctx.runner.notes.append("every configuration fails the concurrent model, so none differs: " + f.msg[:200])
                return
            v = ctx.runner.confirm(f, 240 if ctx.thorough else 60)
            if v is None:
                continue
            v["binary"] = name
            ctx.violation(v)
            return

    def replay(self, ctx, v):
        if "other" not in v:
            self._binaries = self._binaries + self.conc
            self._campaigns = [dict(bin=b.name, pin=True) for b in self.conc]
            return Check.replay(self, ctx, v)
        paths = ctx.build([b for b in self._binaries if b.name in (v["binary"], v["other"])])
        c = P.Campaign("replay", paths[v["binary"]], v["params"], 1, 900)
        c.other = paths[v["other"]]
        kind, msg, st, out = ctx.runner.replay(c, bytes.fromhex(v["data"]), log=True)
        print(out[-8000:])
        print("replay: %s %s" % (kind, msg))
        return 0 if kind == "ok" else 1


CHECKS["C22"] = DiffCheck(
    "A case is a generated history of valid operations (as in C01, up to three instances) executed in the default build "
    "configuration and in others (checks off, header-only, performance tracing, Tracy hooks with a stand-in client, "
    "C++17 and C++20, clang and gcc, allocation batch sizes 1 to 1000 (thorough: 65536), id types of 16 and 32 bits); "
    "everything it observes is folded into a digest, and the digests are compared case by case. A last campaign runs "
    "generated concurrent programs and schedules in other configurations, against the multi-version model of C11. "
    "Non-trivial: at least five changes and six transactions (counted once per configuration).",
    CONFIGS, [], ["which index a new entity gets is not part of the digest", "Tracy itself is not installed: its hooks are "
                  "compiled against a stand-in that does nothing"], conc=CONC_CONFIGS)

TECHNIQUE, LEVEL_NOTE, NOT_APPLICABLE = {}, {}, {}
TECHNIQUE["C22"] = ("differential property-based testing: the same generated histories in every build configuration, "
                    "shrinking; generated concurrent programs against a model in other configurations")
LEVEL_NOTE["C22"] = ("Generated histories, compared observation by observation between builds; not all combinations of "
                     "options are built (6 quick, 12 thorough). No proof of absence.")
TECHNIQUE["C26"] = ("property-based testing over generated one-operation programs: accepted or rejected by the compiler, against "
                    "sets of permissions, shrinking")
LEVEL_NOTE["C26"] = ("Generated programs, compiled against the real headers by two compilers in six configurations; every "
                     "deviation is confirmed alone. No proof of absence. Trusts the compilers and the set model.")
TECHNIQUE["C27"] = ("model-based property testing: generated histories over worlds of many kinds of types, against plain "
                    "variables of the same types, shrinking")
LEVEL_NOTE["C27"] = ("Generated histories under ASan and UBSan, every component compared with a variable treated alike; no proof "
                     "of absence. The component types are a fixed selection.")
TECHNIQUE["C16"] = ("property-based testing over generated lock specifications (types) and generated chains of conversions, "
                    "against sets of permissions, shrinking")
LEVEL_NOTE["C16"] = ("Generated types and chains on the real code; every answer and effect compared with sets; no proof of "
                     "absence. Trusts the compiler and the set model.")
TECHNIQUE["C23"] = ("property-based testing over generated programs and schedules: lock automaton and per-transaction "
                    "reference over the recorded events, CSV round-trip, shrinking")
LEVEL_NOTE["C23"] = ("Generated programs and schedules of real threads; every recorded event is accounted for. No proof of "
                     "absence. Trusts the monotonic clock and the scheduler.")
TECHNIQUE["C25"] = "model-based property testing: generated histories up to and beyond the index limit, shrinking"
LEVEL_NOTE["C25"] = ("Generated histories under ASan and UBSan with 16-bit indexes against a model of all handles and values; "
                     "no proof of absence.")
TECHNIQUE["C17"] = ("stateful model-based property testing of start/end orders over threads and instances, shrinking; "
                    "generated schedules for the uniqueness of ids")
LEVEL_NOTE["C17"] = ("Generated histories in real threads against a model of what is active; generated concurrent programs "
                     "and schedules for ids; no proof of absence.")
TECHNIQUE["C20"] = "model-based property testing: generated views and iterator expressions against std::vector, shrinking"
LEVEL_NOTE["C20"] = ("Generated lists, views and accesses under ASan and UBSan, everything compared with a vector; no proof "
                     "of absence. Trusts std::vector and the compiler.")
TECHNIQUE["C21"] = "property testing: generated handles against wide-integer arithmetic, in every id type configuration"
LEVEL_NOTE["C21"] = ("Generated pools of handles with extreme and neighbouring fields, in three type configurations; no proof "
                     "of absence.")
CONC_TECHNIQUE = ("property-based testing over generated programs and schedules: controlled scheduler, multi-version "
                  "reference model, shrinking")
for _p in ("C10", "C11", "C12"):
    TECHNIQUE[_p] = CONC_TECHNIQUE
    LEVEL_NOTE[_p] = ("Generated programs and schedules of real threads on the real code, every observation compared with "
                      "the set of states a multi-version model allows; no proof of absence. Trusts the model, the "
                      "scheduler and the wrapper around the public API.")
for _p in ("C13", "C14"):
    TECHNIQUE[_p] = ("property-based testing over generated programs, gate sequences and schedules: controlled scheduler, "
                     "who-may-proceed reference model over permission sets, shrinking")
    LEVEL_NOTE[_p] = ("Generated programs and schedules of real threads on the real code; who starts, waits and ends is "
                      "compared with a model of the permission sets. No proof of absence. Trusts the scheduler's "
                      "detection of a thread that waits.")
TECHNIQUE["C15"] = ("generated programs and schedules under a controlled scheduler, with ThreadSanitizer as the oracle "
                    "(its happens-before relation does not see the scheduler)")
LEVEL_NOTE["C15"] = ("Generated programs and schedules; ThreadSanitizer decides each execution. No proof of absence; "
                     "sequentially consistent interleavings only.")
SEQ_TECHNIQUE = "stateful model-based property testing (generated histories against a reference model, shrinking)"
SEQ_NOTE = ("Generated single-thread histories, every step compared with a reference model under ASan and UBSan; no "
            "proof of absence. Trusts the model, the type-erased wrapper around the public API and the compiler.")
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C18", "C19", "C24"):
    TECHNIQUE[_p], LEVEL_NOTE[_p] = SEQ_TECHNIQUE, SEQ_NOTE
