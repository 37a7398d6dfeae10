"""Runs property-based campaigns of a harness binary in parallel workers, shrinks and replays failures, writes evidence."""
import json, mmap, os, shutil, signal, struct, subprocess, sys, tempfile, time
import concurrent.futures

import build as B

VERIF = B.VERIF
WORKERS = 8
HDR = 8 * 5
MSG = 8192
MARKS = 1 << 16
STATUS_SIZE = HDR + MSG + 4 * MARKS + (1 << 20)

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:symbolize=1:detect_stack_use_after_return=0:hard_rss_limit_mb=2500",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=0:detect_deadlocks=0:report_thread_leaks=0:history_size=4",
}


class MachineryError(Exception):
    pass


def env_for(extra=None):
    e = dict(B.ENV)
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    if extra:
        e.update(extra)
    return e


def read_status(path):
    try:
        with open(path, "rb") as f:
            d = f.read()
    except OSError:
        return None
    if len(d) < STATUS_SIZE:
        return None
    magic, case, state, nbytes, nmarks = struct.unpack_from("<5Q", d, 0)
    msg = d[HDR:HDR + MSG].split(b"\0", 1)[0].decode(errors="replace")
    marks = list(struct.unpack_from("<%dI" % min(nmarks, MARKS), d, HDR + MSG))
    off = HDR + MSG + 4 * MARKS
    return {"case": case, "state": state, "msg": msg, "marks": marks, "data": d[off:off + nbytes]}


def quick_case_state(path):
    try:
        with open(path, "rb") as f:
            d = f.read(24)
        return struct.unpack("<3Q", d)[1:]
    except Exception:
        return None


def classify(rc, stderr):
    """-> 'ok' | 'violation' | 'broken'"""
    if rc == 0:
        return "ok"
    if rc == 77 or rc in (66, 99):
        return "violation"
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP):
        return "violation"
    return "broken"


def tail_of(text, rc):
    """The informative part of a crash report."""
    lines = text.splitlines()
    for i, l in enumerate(lines):
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "WARNING: ThreadSanitizer" in l or \
                "terminate called" in l or "ERROR: LeakSanitizer" in l or "rss limit" in l:
            return "\n".join(lines[i:i + 25])
    return "\n".join(lines[-15:])


class Failure:
    def __init__(self, campaign, kind, msg, data, marks, case, rc, worker=None):
        self.campaign, self.kind, self.msg, self.data, self.marks = campaign, kind, msg, data, marks
        self.case, self.rc, self.worker = case, rc, worker


class Campaign:
    """One binary with fixed parameters, and the number of generated cases to run."""

    def __init__(self, name, path, params, count, cap, pin=False, case_timeout=120, env=None, hard=None, samples=2):
        self.name, self.path, self.params, self.count, self.cap = name, path, dict(params), count, cap
        self.pin, self.case_timeout, self.env = pin, case_timeout, env
        self.seed_offset = 0
        self.samples = samples
        # differential replays: a case fails when this other binary does not do the same with it
        self.other = None

    def args(self):
        return ["%s=%s" % kv for kv in sorted(self.params.items())]


class Runner:
    def __init__(self, seed, workdir):
        self.seed, self.dir = seed, workdir
        self.results = []
        self.notes = []

    # ------------------------------------------------------------------ running
    def run(self, c, digests=False):
        """Runs a campaign; returns (result dict, Failure or None)."""
        c.seed = self.seed * 1000003 + c.seed_offset
        procs = []
        tag = "".join(ch if ch.isalnum() else "_" for ch in c.name)
        for k in range(WORKERS):
            n = (c.count - k + WORKERS - 1) // WORKERS
            if n <= 0:
                continue
            base = os.path.join(self.dir, "%s.%d" % (tag, k))
            cmd = [c.path, "--run", "--seed", str(c.seed), "--start", str(k), "--stride", str(WORKERS), "--count",
                   str(n), "--max-seconds", str(c.cap), "--out", base + ".json", "--status", base + ".st", "--hashes",
                   base + ".h"]
            if digests:
                cmd += ["--digests", base + ".d"]
            if k == 0:
                cmd += ["--samples", str(c.samples)]
            cmd += c.args()
            if c.pin:
                cmd = ["taskset", "-c", str(k % (os.cpu_count() or 8))] + cmd
            err = open(base + ".err", "wb")
            p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env_for(c.env), cwd=self.dir)
            procs.append({"p": p, "base": base, "k": k, "last": None, "t": time.time(), "done": False})
        t0 = time.time()
        failure = None
        try:
            while any(not q["done"] for q in procs):
                time.sleep(0.05)
                for q in procs:
                    if q["done"]:
                        continue
                    rc = q["p"].poll()
                    if rc is None:
                        s = quick_case_state(q["base"] + ".st")
                        if s != q["last"]:
                            q["last"], q["t"] = s, time.time()
                        elif time.time() - q["t"] > c.case_timeout:
                            q["p"].kill()
                            q["p"].wait()
                            q["done"] = True
                            st = read_status(q["base"] + ".st")
                            if st and failure is None:
                                failure = Failure(c, "hang", "the case did not finish within %d s" % c.case_timeout,
                                                  st["data"], st["marks"], st["case"], -9, q["k"])
                        continue
                    q["done"] = True
                    if rc == 0:
                        continue
                    with open(q["base"] + ".err", errors="replace") as f:
                        err = f.read()
                    st = read_status(q["base"] + ".st")
                    kind = classify(rc, err)
                    msg = (st["msg"] if st and st["msg"] else "") or tail_of(err, rc)
                    if kind == "broken" or st is None:
                        raise MachineryError("worker of %s ended with %d: %s" % (c.name, rc, msg or err[-2000:]))
                    if rc != 77 and st["state"] != 2:
                        msg = "crash (%d): %s" % (rc, tail_of(err, rc))
                    if failure is None:
                        failure = Failure(c, "fail", msg, st["data"], st["marks"], st["case"], rc, q["k"])
                if failure is not None:
                    break
        finally:
            for q in procs:
                if q["p"].poll() is None:
                    q["p"].kill()
                    q["p"].wait()
        res = {"campaign": c.name, "evaluations": 0, "nontrivial": 0, "labels": {}, "counters": {}, "samples": [],
               "capped": False, "wall_s": round(time.time() - t0, 2), "hashes": set(), "digests": {}}
        for q in procs:
            try:
                with open(q["base"] + ".json") as f:
                    d = json.load(f)
            except (OSError, ValueError):
                continue
            res["evaluations"] += d["evaluations"]
            res["nontrivial"] += d["nontrivial"]
            res["capped"] |= d["capped"]
            for key in ("labels", "counters"):
                for a, b in d[key].items():
                    res[key][a] = res[key].get(a, 0) + b
            res["samples"] += d["samples"]
            with open(q["base"] + ".h", "rb") as f:
                h = f.read()
            res["hashes"].update(struct.unpack("<%dQ" % (len(h) // 8), h))
            if digests:
                with open(q["base"] + ".d", "rb") as f:
                    h = f.read()
                for i, v in enumerate(struct.unpack("<%dQ" % (len(h) // 8), h)):
                    res["digests"][q["k"] + i * WORKERS] = v
        self.results.append(res)
        return res, failure

    # ------------------------------------------------------------------ replaying and shrinking
    def replay(self, c, data, timeout=None, log=False):
        """-> (kind, msg, status, stdout)"""
        if c.other is None:
            return self.replay_one(c, c.path, data, timeout, log)
        a = self.replay_one(c, c.path, data, timeout, log)
        b = self.replay_one(c, c.other, data, timeout, log)

        def outcome(r):
            dig = [l for l in r[3].splitlines() if l.startswith("OK digest=")]
            return (r[0], dig[0].split()[1] if r[0] == "ok" and dig else "")
        x, y = outcome(a), outcome(b)
        if "broken" in (x[0], y[0]) or x == y:
            return ("broken" if "broken" in (x[0], y[0]) else "ok"), "", a[2] or b[2], a[3] + b[3]
        # the status of the run that came to an end describes the case best
        st = b[2] if b[0] == "ok" else a[2]
        msg = "the same program behaves differently in two build configurations: %s: %s%s; %s: %s%s" % (
            os.path.basename(c.path).rsplit("-", 1)[0], " ".join(x), (" (" + a[1][:1500] + ")") if a[1] else "",
            os.path.basename(c.other).rsplit("-", 1)[0], " ".join(y), (" (" + b[1][:1500] + ")") if b[1] else "")
        return "violation", msg, st, "--- %s\n%s\n--- %s\n%s" % (os.path.basename(c.path), a[3], os.path.basename(c.other), b[3])

    def record(self, c, case):
        """The choices of one case of a campaign (of a case that comes to an end)."""
        base = os.path.join(self.dir, "record")
        cmd = [c.path, "--run", "--seed", str(c.seed), "--start", str(case), "--count", "1", "--status", base + ".st",
               "--out", base + ".json"] + c.args()
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_for(c.env), cwd=self.dir,
                       timeout=c.case_timeout)
        st = read_status(base + ".st")
        return st["data"], st["marks"]

    def replay_one(self, c, path_, data, timeout=None, log=False):
        fd, path = tempfile.mkstemp(dir=self.dir, suffix=".case")
        os.write(fd, data)
        os.close(fd)
        st_path = path + ".st"
        cmd = [path_, "--replay", path, "--status", st_path] + (["--log"] if log else []) + c.args()
        if c.pin:
            self._pin = (getattr(self, "_pin", 0) + 1) % WORKERS
            cmd = ["taskset", "-c", str(self._pin % (os.cpu_count() or 8))] + cmd
        try:
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_for(c.env),
                                   cwd=self.dir, timeout=timeout or c.case_timeout)
                out = r.stdout.decode(errors="replace")
                kind = classify(r.returncode, out)
                st = read_status(st_path)
                msg = (st["msg"] if st and st["state"] == 2 else "") or (tail_of(out, r.returncode) if kind != "ok" else "")
                if kind == "violation" and (not st or st["state"] != 2):
                    msg = "crash (%d): %s" % (r.returncode, msg)
                return kind, msg, st, out
            except subprocess.TimeoutExpired:
                st = read_status(st_path)
                return "hang", "did not finish", st, ""
        finally:
            for p in (path, st_path):
                try:
                    os.unlink(p)
                except OSError:
                    pass

    def shrink(self, f, budget):
        c = f.campaign
        deadline = time.time() + budget
        best, marks = f.data, f.marks
        timeout = 20
        stats = {"tried": 0, "kept": 0}

        def attempt(cand):
            kind, msg, st, _ = self.replay(c, cand, timeout=timeout)
            return kind == "violation", st

        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            def first_success(cands):
                """Tries candidates (in parallel batches, in order); returns status of the first that still fails."""
                i = 0
                while i < len(cands) and time.time() < deadline:
                    batch = cands[i:i + WORKERS]
                    rs = list(ex.map(attempt, batch))
                    stats["tried"] += len(batch)
                    for j, (ok, st) in enumerate(rs):
                        if ok and st is not None:
                            stats["kept"] += 1
                            return i + j, st
                    i += WORKERS
                return None

            improved = True
            while improved and time.time() < deadline:
                improved = False
                # remove runs of steps, long runs first
                n = max(1, len(marks))
                size = n
                while size >= 1 and time.time() < deadline:
                    pos = sorted(set(m for m in marks if m < len(best))) + [len(best)]
                    cands = []
                    for i in range(0, len(pos) - 1, max(1, size)):
                        j = min(i + size, len(pos) - 1)
                        cand = best[:pos[i]] + best[pos[j]:]
                        if len(cand) < len(best):
                            cands.append(cand)
                    cands.reverse()
                    got = first_success(cands)
                    if got and (len(got[1]["data"]), got[1]["data"]) < (len(best), best):
                        best, marks = got[1]["data"], got[1]["marks"]
                        improved = True
                        continue
                    size //= 2
                # lower single bytes, from the end
                spans = [(i, i + 8) for i in range(0, len(best), 8)] if len(best) > 64 else []
                cands = [best[:a] + bytes(len(best[a:b])) + best[b:] for a, b in reversed(spans) if any(best[a:b])]
                got = first_success(cands)
                while got and time.time() < deadline:
                    if (len(got[1]["data"]), got[1]["data"][::-1]) < (len(best), best[::-1]) or \
                            sum(1 for x in got[1]["data"] if x) < sum(1 for x in best if x):
                        best, marks = got[1]["data"], got[1]["marks"]
                        improved = True
                    else:
                        break
                    cands = [best[:a] + bytes(len(best[a:b])) + best[b:] for a, b in reversed(spans) if any(best[a:b])]
                    got = first_success(cands)
                if len(best) <= 600:
                    again = True
                    while again and time.time() < deadline:
                        again = False
                        cands = []
                        for i in range(len(best) - 1, -1, -1):
                            v = best[i]
                            for w in sorted({0, v // 2, v - 1}):
                                if 0 <= w < v:
                                    cands.append(best[:i] + bytes([w]) + best[i + 1:])
                        got = first_success(cands)
                        if got:
                            nb = got[1]["data"]
                            if (len(nb), sum(nb)) < (len(best), sum(best)):
                                best, marks = nb, got[1]["marks"]
                                again = improved = True
        self.notes.append("shrinking: %d replays, %d accepted, %d -> %d bytes" %
                          (stats["tried"], stats["kept"], len(f.data), len(best)))
        return best

    def prefix_replay(self, f):
        """Re-runs the failing worker's exact sequence of cases (for failures that need earlier cases)."""
        c = f.campaign
        base = os.path.join(self.dir, "prefix")
        n = (f.case - f.worker) // WORKERS + 1
        cmd = [c.path, "--run", "--seed", str(c.seed), "--start", str(f.worker), "--stride", str(WORKERS), "--count",
               str(n), "--out", base + ".json", "--status", base + ".st", "--hashes", base + ".h"] + c.args()
        if f.worker == 0:
            cmd += ["--samples", str(c.samples)]
        if c.pin:
            cmd = ["taskset", "-c", str(f.worker)] + cmd
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_for(c.env), cwd=self.dir,
                               timeout=c.case_timeout * 3)
        except subprocess.TimeoutExpired:
            return False, cmd, ""
        out = r.stdout.decode(errors="replace")
        return classify(r.returncode, out) == "violation", cmd, out

    def confirm(self, f, shrink_budget):
        """Shrinks and replays three times. Returns a replay description, or None when it does not reproduce."""
        c = f.campaign
        if f.kind == "hang":
            for _ in range(3):
                kind, msg, st, out = self.replay(c, f.data, timeout=60)
                if kind not in ("hang", "violation"):
                    return None
            return {"kind": "case", "binary": os.path.basename(c.path), "params": c.params, "data": f.data.hex(),
                    "message": f.msg, "log": ""}
        kinds = [self.replay(c, f.data)[0] for _ in range(3)]
        if all(k == "violation" for k in kinds):
            best = self.shrink(f, shrink_budget)
            outs = [self.replay(c, best, log=True) for _ in range(3)]
            if not all(o[0] == "violation" for o in outs):
                best = f.data
                outs = [self.replay(c, best, log=True) for _ in range(3)]
            if all(o[0] == "violation" for o in outs):
                return {"kind": "case", "params": c.params, "campaign": c.name, "data": best.hex(),
                        "message": outs[0][1] or f.msg, "log": outs[0][3][-20000:]}
        oks = [self.prefix_replay(f) for _ in range(3)]
        if all(o[0] for o in oks):
            return {"kind": "sequence", "params": c.params, "campaign": c.name, "case_seed": c.seed, "worker": f.worker,
                    "case": f.case, "command": oks[0][1][1:], "message": f.msg, "log": oks[0][2][-20000:]}
        self.notes.append("a failure did not reproduce (case %d of %s): %s; replays: %s, sequences: %s" %
                          (f.case, c.name, f.msg[:300], kinds, [o[0] for o in oks]))
        return None
