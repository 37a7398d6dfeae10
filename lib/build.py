"""Builds harness binaries from /verif's harness sources and /repo's current working tree.

Objects are kept in /verif/build under a name derived from the full content of everything that can influence them (all
of /repo/inc and /repo/src, all of /verif/engine and /verif/harness, the command line), so a stale object is never used.
"""
import concurrent.futures, hashlib, os, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ)
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
CLANG = "/usr/bin/clang++"
GXX = "/usr/bin/g++"
JOBS = max(2, min(8, os.cpu_count() or 8))


class BuildError(Exception):
    def __init__(self, cmd, log):
        Exception.__init__(self, "build failed: " + " ".join(cmd) + "\n" + log[-6000:])
        self.cmd, self.log = cmd, log


def _tree_digest(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith(".pyc") or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


_base = None


def base_digest():
    global _base
    if _base is None:
        _base = _tree_digest(os.path.join(REPO, "inc"), os.path.join(REPO, "src"), os.path.join(VERIF, "engine"),
                             os.path.join(VERIF, "harness"))
    return _base


SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"],
    "none": [],
}

# Engine files that must never be instrumented (the controlled scheduler hands over between threads by itself)
PLAIN = {"engine/sched.cc"}


class Binary:
    """name; sources relative to /verif (or absolute); san; std; defs; compiler; opt; fuzzer"""

    def __init__(self, name, sources, san="asan", std="c++17", defs=(), cxx=CLANG, opt="-O1", fuzzer=False, extra=(),
                 tecs_src=True):
        self.name, self.san, self.std, self.cxx, self.opt = name, san, std, cxx, opt
        self.defs = list(defs)
        self.fuzzer = fuzzer
        self.extra = list(extra)
        self.sources = list(sources)
        if tecs_src and "engine/tecs_src.cc" not in self.sources:
            self.sources.append("engine/tecs_src.cc")

    def compile_cmd(self, src):
        plain = src in PLAIN
        cmd = [self.cxx, "-std=" + self.std, self.opt, "-g1", "-Wall", "-Wno-unused-function", "-pthread",
               "-I" + os.path.join(REPO, "inc"), "-I" + os.path.join(VERIF, "engine"),
               "-I" + os.path.join(VERIF, "harness"),
               "-DVERIF_TECS_SOURCE=\"%s\"" % os.path.join(REPO, "src/Tecs.cc") if src.endswith("tecs_src.cc")
               else "-DVERIF_HARNESS=1"]
        if not plain:
            cmd += SAN[self.san]
            if self.fuzzer:
                cmd += ["-fsanitize=fuzzer-no-link"]
        if self.fuzzer:
            cmd += ["-DPBT_FUZZER"]
        cmd += ["-D" + d for d in self.defs]
        cmd += self.extra
        p = src if os.path.isabs(src) else os.path.join(VERIF, src)
        return cmd + ["-c", p]

    def link_cmd(self):
        cmd = [self.cxx, "-pthread", "-g1"] + SAN[self.san]
        if self.fuzzer:
            cmd += ["-fsanitize=fuzzer"]
        return cmd


def _content(src):
    p = src if os.path.isabs(src) else os.path.join(VERIF, src)
    with open(p, "rb") as f:
        return f.read()


def _run(cmd, out):
    tmp = "%s.tmp%d.%d" % (out, os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if r.returncode != 0:
        try:
            os.unlink(tmp)
        except OSError:
            pass
        raise BuildError(cmd, r.stdout.decode(errors="replace"))
    os.replace(tmp, out)


def build(binaries, keep_going=False):
    """Returns {name: path}; with keep_going a failed binary maps to its BuildError."""
    os.makedirs(BUILD, exist_ok=True)
    base = base_digest()
    objs, jobs = {}, {}
    for b in binaries:
        for s in b.sources:
            cmd = b.compile_cmd(s)
            key = hashlib.sha256((base + "\0".join(cmd)).encode() + _content(s)).hexdigest()[:24]
            o = os.path.join(BUILD, key + ".o")
            objs[(b.name, s)] = o
            if not os.path.exists(o):
                jobs[o] = cmd
    errors = {}
    # heavier files first
    order = sorted(jobs, key=lambda o: -os.path.getsize(jobs[o][-1]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(_run, jobs[o], o): o for o in order}
        for f in concurrent.futures.as_completed(futs):
            if f.cancelled():
                continue
            try:
                f.result()
            except BuildError as e:
                errors[futs[f]] = e
                if not keep_going:
                    for g in futs:
                        g.cancel()
        links = {}
        res = {}
        for b in binaries:
            os_ = [objs[(b.name, s)] for s in b.sources]
            bad = [errors[o] for o in os_ if o in errors]
            if bad:
                res[b.name] = bad[0]
                continue
            if errors and not keep_going:
                continue
            cmd = b.link_cmd() + os_
            key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:16]
            out = os.path.join(BUILD, "%s-%s" % (b.name, key))
            res[b.name] = out
            if not os.path.exists(out):
                links[b.name] = ex.submit(_run, cmd, out)
        for n, f in links.items():
            try:
                f.result()
            except BuildError as e:
                res[n] = e
    for n, v in res.items():
        if isinstance(v, BuildError) and not keep_going:
            raise v
    return res
