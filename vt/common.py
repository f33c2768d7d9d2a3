"""Shared infrastructure: scratch space, building the library, running TLC and the replay runner, evidence."""
import atexit
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class InfraError(Exception):
    """The machinery itself failed; says nothing about the property."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        if base:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 2 << 30:
                base = None
        _scratch = tempfile.mkdtemp(prefix="vt-", dir=base)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(shutil.rmtree, _scratch, True)
        else:
            log("scratch", _scratch)
    return _scratch


def rng(*key):
    h = hashlib.sha256(repr((SEED,) + key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# --------------------------------------------------------------------------- build

MIRROR = ["CMakeLists.txt", "CMakePresets.json", "cmake", "src", "extras", "thirdparty", "tools", "LICENSE",
          "CHANGELOG.md", "examples", "docs"]
CMAKE_FLAGS = ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-O1 -g0", "-DBUILD_TESTING=OFF",
               "-DPRECICE_BUILD_UNITY=OFF", "-DPRECICE_FEATURE_MPI_COMMUNICATION=OFF",
               "-DPRECICE_FEATURE_PETSC_MAPPING=OFF", "-DPRECICE_FEATURE_PYTHON_ACTIONS=OFF",
               "-DPRECICE_HIDE_SYMBOLS=OFF", "-DPRECICE_BINDINGS_FORTRAN=ON", "-DPRECICE_BUILD_TOOLS=ON",
               "-DPRECICE_CONFIGURE_PACKAGE_GENERATION=OFF"]

# what needs MPI, PETSc or Python; processes are singletons of MPI
FULL_FLAGS = ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-O1 -g0", "-DBUILD_TESTING=OFF",
              "-DPRECICE_BUILD_UNITY=ON", "-DPRECICE_FEATURE_MPI_COMMUNICATION=ON",
              "-DPRECICE_FEATURE_PETSC_MAPPING=ON", "-DPRECICE_FEATURE_PYTHON_ACTIONS=ON", "-DPython3_EXECUTABLE=/usr/bin/python3",
              "-DPRECICE_HIDE_SYMBOLS=OFF", "-DPRECICE_BINDINGS_FORTRAN=ON", "-DPRECICE_BUILD_TOOLS=OFF",
              "-DPRECICE_CONFIGURE_PACKAGE_GENERATION=OFF"]
MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader",
               OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_hwloc_base_binding_policy="none",
               OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_oob_tcp_if_include="lo", OMPI_MCA_plm="isolated",
               OMPI_MCA_rmaps_base_oversubscribe="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               CC="gcc", CXX="g++", FC="gfortran", PYTHONDONTWRITEBYTECODE="1")


def _run(cmd, logname, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise InfraError("%s failed (%d)" % (logname, p.returncode))
    return p.stdout


def build(full=False):
    """Library and runner from the current working tree of /repo.

    The sources are synchronised by content into build/src, so that only what really changed is recompiled."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        src = os.path.join(BUILD, "src")
        lib = os.path.join(BUILD, "lib-full" if full else "lib")
        flags = FULL_FLAGS if full else CMAKE_FLAGS
        if full:
            os.environ.update(MPI_ENV)
        os.makedirs(src, exist_ok=True)
        items = [os.path.join(REPO, m) for m in MIRROR if os.path.exists(os.path.join(REPO, m))]
        _run(["rsync", "-rlpc", "--delete"] + items + [src + "/"], "rsync")
        env = dict(os.environ)
        cache = os.path.join(lib, "CMakeCache.txt")
        stamp = os.path.join(BUILD, "cmake-full.stamp" if full else "cmake.stamp")
        want = " ".join(flags)
        if not os.path.exists(os.path.join(lib, "build.ninja")) or not os.path.exists(stamp) \
                or open(stamp).read() != want or ("CMAKE_HOME_DIRECTORY:INTERNAL=%s\n" % src) not in open(cache).read():
            shutil.rmtree(lib, ignore_errors=True)
            _run(["cmake", "-S", src, "-B", lib, "-G", "Ninja"] + flags, "cmake", env=env)
            with open(stamp, "w") as f:
                f.write(want)
        _run(["ninja", "-C", lib, "-j", str(JOBS)], "ninja", env=env)
        run = os.path.join(BUILD, "runner-full" if full else "runner")
        deps = [os.path.join(VERIF, "harness", x) for x in ("runner.cpp", "api.hpp", "gate.hpp", "drive.hpp")]
        hdrs = [os.path.join(src, "src/precice/Participant.hpp"), os.path.join(src, "extras/bindings/c/include/precice/preciceC.h"),
                os.path.join(src, "extras/bindings/fortran/include/precice/preciceFortran.hpp")]
        h = hashlib.sha256()
        for d in deps + hdrs:
            h.update(open(d, "rb").read())
        tag = h.hexdigest()
        rs = run + ".stamp"
        if not os.path.exists(run) or not os.path.exists(rs) or open(rs).read() != tag:
            _run(["g++", "-std=c++17", "-O1", "-I", os.path.join(src, "src"), "-I", os.path.join(lib, "src"),
                  "-I", os.path.join(src, "extras/bindings/c/include"),
                  "-I", os.path.join(src, "extras/bindings/fortran/include"),
                  deps[0], "-o", run, "-rdynamic", "-L", lib, "-lprecice", "-ldl", "-Wl,-rpath," + lib], "runner")
            with open(rs, "w") as f:
                f.write(tag)
        log("%sbuild %.1fs" % ("full " if full else "", time.time() - t))
    return run


TOOLS = os.path.join(BUILD, "lib", "precice-tools")

# --------------------------------------------------------------------------- TLC


def tla(v):
    """Python value to TLA+ constant syntax."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def write_cfg(path, spec, consts, invs=(), props=(), deadlock=False, extra=""):
    with open(path, "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if consts:
            f.write("CONSTANTS\n")
            for k, v in consts.items():
                f.write(" %s = %s\n" % (k, tla(v)))
        for i in invs:
            f.write("INVARIANT %s\n" % i)
        for i in props:
            f.write("PROPERTY %s\n" % i)
        f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        f.write(extra)


def _tlc_cmd(module, cfg, args, heap):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    return ["java", "-Xmx%s" % heap, "-Xss16m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + scratch(),
            "-cp", TLA_CP, "tlc2.TLC", "-config", cfg, "-metadir", meta, "-noGenerateSpecTE"] + args + [module]


def tlc_exhaustive(module, consts, spec="Spec", invs=(), props=(), workers=4, timeout=600, heap="4g", deadlock=False, extra=""):
    """Exhaustive check; returns dict(ok, distinct, generated, depth, out)."""
    cfg = os.path.join(tempfile.mkdtemp(prefix="cfg", dir=scratch()), module + ".cfg")
    write_cfg(cfg, spec, consts, invs, props, deadlock, extra)
    cmd = _tlc_cmd(module, cfg, ["-workers", str(workers)], heap)
    try:
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise InfraError("TLC timeout on %s" % module)
    out = p.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return dict(ok="No error has been found" in out, generated=int(m.group(1)) if m else 0,
                distinct=int(m.group(2)) if m else 0, depth=int(d.group(1)) if d else 0, out=out, rc=p.returncode)


class Background:
    """Exhaustive checks running while something else is done."""

    def __init__(self, jobs, parallel=4):
        # jobs: list of (name, kwargs for tlc_exhaustive)
        import concurrent.futures
        self.pool = concurrent.futures.ThreadPoolExecutor(parallel)
        self.jobs = [(n, self.pool.submit(tlc_exhaustive, **k)) for n, k in jobs]

    def collect(self, c):
        for n, f in self.jobs:
            c.tlc(n, f.result())
        self.pool.shutdown()


class Sim:
    """Behaviours printed by several TLC -simulate processes."""

    def __init__(self, module, jobs, depth=8000, invs=(), heap="1500m", spec="GSpec"):
        # jobs: list of (consts, num, seed)
        self.procs = []
        for consts, num, seed in jobs:
            d = tempfile.mkdtemp(prefix="sim", dir=scratch())
            cfg = os.path.join(d, module + ".cfg")
            write_cfg(cfg, spec, consts, invs)
            outp = os.path.join(d, "out")
            cmd = _tlc_cmd(module, cfg, ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-workers", "1"], heap)
            f = open(outp, "w")
            self.procs.append((subprocess.Popen(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT), outp, module))
            f.close()

    def collect(self, timeout=400):
        """All behaviours, in a deterministic order; also the number of states TLC generated."""
        end = time.time() + timeout
        res, states = [], 0
        for p, outp, module in self.procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                log("TLC simulation stopped at its time limit")
            bad = None
            with open(outp) as f:
                for line in f:
                    if line.startswith('"@@'):
                        s = line.rstrip("\n")
                        if not s.endswith('"'):
                            continue
                        res.append(json.loads(s[3:-1].replace('\\"', '"').replace("\\\\", "\\")))
                    elif line.startswith("Error:") and bad is None:
                        bad = line + f.readline() + f.readline()
                    else:
                        m = re.match(r"The number of states generated: (\d+)", line)
                        if m:
                            states += int(m.group(1))
            if bad:
                raise InfraError("TLC simulation of %s: %s" % (module, bad))
            if p.returncode not in (0, -9):
                raise InfraError("TLC simulation of %s exited with %s" % (module, p.returncode))
            os.unlink(outp)
        return res, states


# --------------------------------------------------------------------------- scenarios


class Proc:
    def __init__(self, part, rank=0, size=1, backend="cpp", delay=0, name=None):
        self.part, self.rank, self.size, self.backend, self.delay = part, rank, size, backend, delay
        self.lines = []      # script lines
        self.expect = []     # checker or None per line
        self.name = name or "%s%d" % (part, rank)

    def add(self, line, check=None):
        self.lines.append(line)
        self.expect.append(check)
        return len(self.lines) - 1


class Scenario:
    """A configuration and one script per process, with a checker per script line."""

    def __init__(self, xml=None, timeout=20.0, xmls=None, info=None):
        self.xml, self.timeout, self.procs, self.info = xml, timeout, [], info
        self.xmls = xmls or {}
        self.files = {}
        self.dir = None
        self.post = None     # callable(scenario) -> list of problems, after all processes ended
        self.judge = None    # callable(scenario) -> problems, replaces the line by line comparison
        self.backend = None

    def write(self, d):
        self.dir = d
        os.makedirs(d)
        if self.xml is not None:
            with open(os.path.join(d, "c.xml"), "w") as f:
                f.write(self.xml)
        for n, x in list(self.xmls.items()) + list(self.files.items()):
            with open(os.path.join(d, n), "w") as f:
                f.write(x)
        for p in self.procs:
            with open(os.path.join(d, p.name + ".in"), "w") as f:
                f.write("\n".join(p.lines) + "\n")

    def results(self, p):
        """List of (op, state, payload) per executed line."""
        r = []
        try:
            with open(os.path.join(self.dir, p.name + ".out")) as f:
                for line in f:
                    x = line.rstrip("\n").split(" ", 3)
                    r.append((x[1], x[2], x[3].strip() if len(x) > 3 else ""))
        except OSError:
            pass
        return r

    def logtext(self, p):
        try:
            with open(os.path.join(self.dir, p.name + ".log"), errors="replace") as f:
                return f.read()
        except OSError:
            return ""


def run_scenarios(scs, runner, jobs=None, base=None, patience=10):
    """Runs all scenarios; sets s.status (list per process) and s.elapsed."""
    if not scs:
        return
    jobs = jobs or JOBS * 3
    base = base or tempfile.mkdtemp(prefix="run", dir=scratch())
    batch = os.path.join(base, "batch")
    with open(batch, "w") as f:
        for i, s in enumerate(scs):
            d = os.path.join(base, "s%d" % i)
            s.write(d)
            f.write("S %s %s %d\n" % (d, s.timeout, len(s.procs)))
            for p in s.procs:
                f.write("P %s %d %d %s.in %s.out %s.log %s %d\n" % (p.part, p.rank, p.size, p.name, p.name, p.name, p.backend, p.delay))
    env = dict(os.environ, OMP_NUM_THREADS="1", PWD=base)
    pr = subprocess.run([runner, batch, str(jobs), str(patience)], stdout=subprocess.PIPE, text=True, env=env)
    seen = 0
    for line in pr.stdout.splitlines():
        x = line.split()
        if x and x[0] == "R":
            s = scs[int(x[1])]
            s.elapsed = float(x[2])
            s.status = x[3:]
            seen += 1
    if seen != len(scs) or pr.returncode != 0:
        raise InfraError("runner ended with %d, %d of %d scenarios" % (pr.returncode, seen, len(scs)))


def floats(s):
    return [float(x) for x in s.split()]


def judge_lines(s):
    """Compare every executed line with its checker; returns list of problems."""
    probs = []
    if "skipped" in s.status:
        return None
    if s.judge:
        return s.judge(s)
    for p, st in zip(s.procs, s.status):
        if getattr(p, "unjudged", False):
            continue
        res = s.results(p)
        for i, (line, chk) in enumerate(zip(p.lines, p.expect)):
            if i >= len(res):
                if isinstance(getattr(p, "ends", None), tuple) and i >= p.ends[0] and st == p.ends[1]:
                    break
                if getattr(chk, "aborts", False) and st == "sig:6" and "error" in s.logtext(p).lower():
                    break
                probs.append("%s: line %d '%s' was not completed (%s): %s" % (p.name, i, line[:80], st, tail(s.logtext(p))))
                break
            op, state, pay = res[i]
            if chk is None:
                if state != "ok":
                    probs.append("%s: line %d '%s' failed: %s" % (p.name, i, line[:80], pay[:300]))
                    break
                continue
            m = chk(state, pay)
            if m:
                probs.append("%s: line %d '%s': %s" % (p.name, i, line[:80], m))
                break
            if state != "ok" and not (getattr(s, "soft", False) and getattr(chk, "illegal", False)):
                break
        else:
            if isinstance(getattr(p, "ends", None), tuple) and st == p.ends[1]:
                continue
            if st != "exit:0" and not (getattr(p, "ends", None) == "abort" and st == "sig:6" and "error" in s.logtext(p).lower()):
                probs.append("%s: ended with %s: %s" % (p.name, st, tail(s.logtext(p))))
    if not probs and s.post:
        probs = s.post(s)
    return probs


def tail(t, n=400):
    return " | ".join(t.strip().splitlines()[-6:])[-n:]


def eq(expected):
    """Checker for a list of integers/booleans."""
    e = " ".join(str(int(x)) for x in expected) if isinstance(expected, (list, tuple)) else str(int(expected))

    def chk(state, pay):
        if state != "ok":
            return "failed: " + pay[:300]
        return None if pay == e else "returned %s, expected %s" % (pay, e)
    return chk


def near(expected, tol=1e-9, scale=None):
    def chk(state, pay):
        if state != "ok":
            return "failed: " + pay[:300]
        v = floats(pay)
        if len(v) != len(expected):
            return "%d values, expected %d" % (len(v), len(expected))
        sc = scale if scale is not None else max([1.0] + [abs(x) for x in expected])
        for i, (a, b) in enumerate(zip(v, expected)):
            if not abs(a - b) <= tol * sc:
                return "value %d is %.15g, expected %.15g (all: %s expected: %s)" % (i, a, b, pay[:200], " ".join("%.10g" % x for x in expected)[:200])
        return None
    return chk


def must_fail(state, pay):
    return None if state == "err" else "state %s %s, expected an error" % (state, pay[:200])


def any_state(state, pay):
    return "unexpected exception " + pay[:200] if state == "exc" else None


# --------------------------------------------------------------------------- reporting


class Check:
    """Collects what a check explored and ends it with the right exit status."""

    def __init__(self, pid, technique=""):
        self.pid = pid
        self.tier = sys.argv[1] if len(sys.argv) > 1 else TIER
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.counts = {}
        self.skipped = 0
        self.kf = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            self.kf = [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "open"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def tlc(self, name, r):
        if not r["ok"]:
            tail_ = r["out"][-3000:]
            m = re.search(r"(Invariant \S+ is violated|Temporal properties were violated|Deadlock reached|Error: [^\n]*)", r["out"])
            # The specification itself contradicts the property: a fault of the machinery, not of the code.
            sys.stderr.write(tail_)
            raise InfraError("specification check %s failed: %s" % (name, m.group(1) if m else "?"))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.notes.append("%s: %d distinct states, %d generated, depth %d" % (name, r["distinct"], r["generated"], r["depth"]))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, text, scen=None, extra=None):
        self.violations.append((text, scen, extra))

    def known_as(self, text):
        return next((k for k in self.kf if all(re.search(x, text) for x in k["match"])), None)

    def replay(self, scs, runner=None, chunk=400, jobs=None):
        """Run scenarios, re-run failing ones, record violations."""
        runner = runner or build()
        for k in range(0, len(scs), chunk):
            part = scs[k:k + chunk]
            base = tempfile.mkdtemp(prefix="run", dir=scratch())
            run_scenarios(part, runner, base=base, jobs=jobs)
            bad = []
            for s in part:
                pr = judge_lines(s)
                if pr is None:
                    self.count("skipped after repeated timeouts")
                elif pr:
                    bad.append((s, pr))
                else:
                    self.traces += 1
            new = 0
            # quick ones first
            for s, pr in sorted(bad, key=lambda z: z[0].elapsed)[:40]:
                text = "; ".join(pr)
                label = getattr(s, "label", "")
                if label:
                    text = label + ": " + text
                if self.known_as(text):
                    self.violation(text, s)
                    self.traces += 1
                    continue
                # a failure has to be reproducible, with the machine otherwise idle and more time
                s.timeout = max(s.timeout, 30)
                fails = 0
                for rep in range(2):
                    b2 = tempfile.mkdtemp(prefix="again", dir=scratch())
                    run_scenarios([s], runner, base=b2, jobs=64)
                    pr2 = judge_lines(s)
                    if pr2:
                        fails += 1
                        text = (label + ": " if label else "") + "; ".join(pr2)
                    if fails and new:
                        break
                if fails:
                    self.violation(text, s)
                    new += 1
                    if new >= 2:
                        break
                else:
                    self.count("not reproduced")
                    log("not reproduced:", pr)
                    self.traces += 1
            if len(bad) > 40:
                log("many failures: %d" % len(bad))
            if new:
                break
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(base, ignore_errors=True)
        return self

    def save_replay(self, n, text, scen, extra):
        d = os.path.join(VERIF, "evidence", "replay-%s-%d" % (self.pid, n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "what.txt"), "w") as f:
            f.write(text + "\n")
            if extra:
                f.write(str(extra) + "\n")
        if scen is not None and scen.dir and os.path.isdir(scen.dir):
            shutil.copytree(scen.dir, os.path.join(d, "scenario"), dirs_exist_ok=True,
                            ignore=shutil.ignore_patterns("precice-run"))
            if scen.info is not None:
                with open(os.path.join(d, "behaviour.json"), "w") as f:
                    json.dump(scen.info, f)
            with open(os.path.join(d, "scenario", "batch"), "w") as f:
                f.write("S %s %s %d\n" % (".", scen.timeout, len(scen.procs)))
                for p in scen.procs:
                    f.write("P %s %d %d %s.in %s.out %s.log %s %d\n" % (p.part, p.rank, p.size, p.name, p.name, p.name, p.backend, p.delay))
        return d

    def finish(self, assumptions=()):
        new = []
        for text, scen, extra in self.violations:
            hit = self.known_as(text)
            if hit:
                self.known.append((hit, text))
            else:
                new.append((text, scen, extra))
        for k in {h["id"]: h for h, _ in self.known}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        paths = []
        for n, (text, scen, extra) in enumerate(new[:3]):
            paths.append((text, self.save_replay(n, text, scen, extra)))
        self.write_evidence(len(new), assumptions)
        for text, d in paths:
            print("VIOLATION property=%s replay=%s" % (self.pid, d))
            print("  " + text[:1500])
        log("%s: %d states, %d behaviours replayed, %d violations, %s" % (self.pid, self.states, self.traces, len(new), self.counts))
        sys.stdout.flush()
        sys.exit(1 if new else 0)

    def write_evidence(self, nviol, assumptions):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = evidence(self, nviol, assumptions)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def evidence(c, nviol, assumptions):
    samples = c.samples[:]
    while len(samples) > 1 and len(json.dumps(samples)) > 40000:
        samples.pop()
    cov = {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
           "samples": samples or ["none"], "counts": c.counts, "explanation": "; ".join(c.notes)}
    return {"property": c.pid, "tier": c.tier, "seed": SEED, "level": "model_checking", "coverage": cov,
            "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 1), "violations": nviol}


def main(pid, fn):
    c = Check(pid)
    try:
        a = fn(c)
    except InfraError as e:
        print("check %s could not decide: %s" % (pid, e), file=sys.stderr)
        sys.exit(2)
    c.finish(a or ())
