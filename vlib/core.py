"""Runner: builds, drives, checks against the TLA+ specifications, reports."""
import os, sys, json, time, shutil, tempfile, subprocess, random, re, atexit, signal, threading
import concurrent.futures as cf
import importlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class InfraError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, files=()):
        Exception.__init__(self, what)
        self.files = list(files)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else self.work
        self.shm = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.notes = []
        self.violation = None
        self.lock = threading.Lock()
        self.quick = tier != "thorough"
        self._objs = {}
        self._progs = {}
        atexit.register(self.cleanup)

    def cleanup(self):
        for d in (self.work, self.shm):
            shutil.rmtree(d, ignore_errors=True)

    def rng(self, *salt):
        return random.Random("%s/%d/%s" % (self.pid, self.seed, "/".join(map(str, salt))))

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # ---- building -------------------------------------------------------
    def lib(self, flavour, extra=()):
        from vlib import build
        if flavour not in self._objs:
            self._objs[flavour] = build.build_lib(self.work, flavour, extra=extra)
        return self._objs[flavour]

    def prog(self, name, flavour="rel", srcs=None, cextra=(), ldextra=(), fallback=None):
        from vlib import build
        k = (name, flavour)
        if k not in self._progs:
            objs = self.lib(flavour)
            try:
                self._progs[k] = build.build_prog(self.work, name, srcs or [name + ".c"], objs,
                                                  flavour, cextra=cextra, ldextra=ldextra)
            except build.BuildError:
                if fallback is None:
                    raise
                self._progs[k] = build.build_prog(self.work, name, srcs or [name + ".c"], objs,
                                                  flavour, cextra=fallback, ldextra=ldextra)
        return self._progs[k]

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, files=(), args=(), jopts=(), heap="2g",
            count=True):
        """Runs TLC on spec/<module>.tla with the configuration text `cfg`.
        Returns (rc, output)."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for f in os.listdir(VERIF + "/spec"):
            if f.endswith(".tla"):
                shutil.copy(VERIF + "/spec/" + f, d)
        for f in files:
            shutil.copy(f, d)
        with open(d + "/MC.cfg", "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Xmx" + heap, "-Xss32m", "-Djava.io.tmpdir=" + d] + list(jopts) + \
              ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-config", "MC.cfg",
               "-metadir", d + "/states", "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            rc, out = "timeout", (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        shutil.rmtree(d + "/states", ignore_errors=True)
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out):
            pass
        if m and count:
            with self.lock:
                self.transitions += int(m.group(1).replace(",", ""))
                self.states += int(m.group(2).replace(",", ""))
        return rc, out

    def model(self, module, cfg, workers=4, timeout=300, expect_ok=True, args=(), heap="6g", env=None):
        """Exhaustive model checking of a design specification.  A failure is an
        error of the specification, not of the code."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, args=args, heap=heap, env=env)
        if rc != 0:
            raise InfraError("model %s: rc=%s\n%s" % (module, rc, out[-3000:]))
        return out

    # ---- reporting --------------------------------------------------------
    def replay_dir(self):
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        return d

    def save_replay(self, name, files, text):
        d = os.path.join(self.replay_dir(), name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in files:
            if os.path.exists(f):
                shutil.copy(f, d)
        with open(d + "/WHAT", "w") as f:
            f.write(text + "\n")
        return d

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def evidence(self, level, violations):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6] or ["none"])
        cov.update(self.extra)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick",
                  seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  violations=violations)
        if self.notes:
            ev["assumptions"] = self.notes
        p = VERIF + "/evidence/%s.json" % self.pid
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def known_findings(pid):
    out = []
    try:
        for ln in open(VERIF + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except FileNotFoundError:
        pass
    return out


def run_driver(cmd, timeout, env=None, cwd=None, retries=1):
    """Runs a driver; returns (status, stderr) where status is 0, ("died", sig),
    ("exit", rc) or ("hung",).  A run that did not end is repeated with a much
    longer limit before it counts as hung."""
    e = dict(os.environ)
    e.update({"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0", "UBSAN_OPTIONS": "abort_on_error=1"})
    e.update(env or {})
    for t in [timeout, timeout * 3][:retries + 1]:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=cwd,
                             start_new_session=True)
        try:
            _, err = p.communicate(timeout=t)
            err = err.decode("utf8", "replace")
            if p.returncode == 0:
                return 0, err
            rc = p.returncode
            if rc == -9 or rc == 137:
                raise InfraError("driver was killed: %s" % " ".join(cmd))
            if rc < 0:
                return ("died", -rc), err
            if rc > 128:
                return ("died", rc - 128), err
            return ("exit", rc), err
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.communicate()
    return ("hung",), ""


def pmap(fn, items, n=6):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module("checks." + pid.lower())
    level = getattr(mod, "LEVEL", "model_checking")
    for f in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, f), flush=True)
    try:
        mod.run(ctx)
    except Violation as v:
        d = ctx.save_replay("%s-%d" % (tier, seed), v.files, str(v))
        ctx.extra["violation"] = str(v)[:2000]
        ctx.evidence(level, 1)
        print(str(v)[:4000])
        print("VIOLATION property=%s replay=%s" % (pid, d), flush=True)
        ctx.cleanup()
        sys.exit(1)
    except InfraError as x:
        print("ERROR: %s" % x, file=sys.stderr)
        ctx.cleanup()
        sys.exit(2)
    ctx.evidence(level, 0)
    print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
        pid, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0))
    ctx.cleanup()
    sys.exit(0)
