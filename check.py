#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]     decide one property
   check.py --replay <file>                                      re-run a saved failing case
   check.py --setup                                              warm up: build every quick binary once
   check.py --list
Exit 0: held on everything explored. Exit 1: "VIOLATION property=<id> replay=<path>". Exit 2: the machinery failed."""
import json, os, shutil, sys, tempfile, time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build as B
import pbtrun as P
import registry as R

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings():
    """Lines 'known: property=<id> history=<name> <text>' (still present); 'fixed:' lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                parts = l[7:].split(None, 2)
                kv = dict(p.split("=", 1) for p in parts[:2])
                out.append((kv["property"], kv["history"], parts[2]))
    return out


def run_check(pid, tier, seed):
    t0 = time.time()
    check = R.CHECKS[pid]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    violations = []
    runner = P.Runner(seed, work)
    ctx = R.Ctx(pid, tier, seed, runner, work)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    try:
        check.run(ctx)
        for prop, hist, text in known_findings():
            if prop == pid and ctx.known_hits.get(hist):
                print("KNOWN-FINDING: property=%s %s" % (pid, text))
        for v in ctx.unlisted(set(h for p, h, _ in known_findings() if p == pid)):
            violations.append(v)
        build_s = ctx.build_s
        hashes = set()
        ev = 0
        labels, counters, samples, per = {}, {}, [], []
        capped = False
        for r in runner.results:
            hashes |= set((r["campaign"], h) for h in r["hashes"])
            ev += r["evaluations"]
            capped |= r["capped"]
            for a, b in r["labels"].items():
                labels[a] = labels.get(a, 0) + b
            for a, b in r["counters"].items():
                counters[a] = counters.get(a, 0) + b
            samples += [{"campaign": r["campaign"], "case": s.split("\n")} for s in r["samples"]][:2]
            per.append({"campaign": r["campaign"], "cases": r["evaluations"], "non_trivial": r["nontrivial"],
                        "distinct_non_trivial": len(r["hashes"]), "wall_s": r["wall_s"], "capped": r["capped"]})
        coverage = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": check.rule, "samples": samples[:6],
                    "labels": labels, "counters": counters, "campaigns": per, "build_s": round(build_s, 1),
                    "stopped_by_time_limit": capped}
        coverage.update(ctx.extra)
        coverage["evaluations"] += ctx.more_evaluations
        coverage["distinct_nontrivial"] += ctx.more_nontrivial
        if runner.notes:
            coverage["notes"] = runner.notes
        evidence = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                    "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2),
                    "violations": len(violations)}
        tmp = os.path.join(ev_dir, ".%s.%d" % (pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(ev_dir, pid + ".json"))
        for v in violations:
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-seed%d.json" % (pid, tier, seed))
            v["property"], v["tier"], v["seed"] = pid, tier, seed
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("-" * 60)
            print(v["message"][:3000])
            if v.get("log"):
                print("--- minimal case:")
                print(v["log"][-4000:])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            break
        if not violations:
            print("%s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s" %
                  (pid, coverage["evaluations"], coverage["distinct_nontrivial"], time.time() - t0, build_s,
                   " [time limit reached]" if capped else ""))
        for n in runner.notes:
            print("note: " + n)
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        runner = P.Runner(v["seed"], work)
        ctx = R.Ctx(v["property"], v["tier"], v["seed"], runner, work)
        return R.CHECKS[v["property"]].replay(ctx, v)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = None
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--seed":
            seed = int(a[i + 1])
            i += 1
        elif a[i] == "--replay":
            sys.exit(replay(a[i + 1]))
        elif a[i] == "--setup":
            # nothing has to be kept: every check builds what it needs; this shows that the toolchain works
            print(B.build([R.seq_binary(24)]))
            sys.exit(0)
        elif a[i] == "--list":
            print("\n".join(R.CHECKS))
            sys.exit(0)
        else:
            pid = a[i]
        i += 1
    if tier not in ("quick", "thorough") or pid not in R.CHECKS:
        print(__doc__)
        sys.exit(2)
    try:
        sys.exit(run_check(pid, tier, seed))
    except (P.MachineryError, B.BuildError) as e:
        print("MACHINERY ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("MACHINERY ERROR")
        sys.exit(2)


if __name__ == "__main__":
    main()
