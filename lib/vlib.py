"""Shared machinery: scratch build of /repo, harness linking, TLC runs, evidence."""
import atexit, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NBSP_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
NCPU = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()
# what is started here finds the signals as they usually are, however the check itself was started (in the background, with nohup)
for _s in (signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU):
    if threading.current_thread() is threading.main_thread() and signal.getsignal(_s) == signal.SIG_IGN: signal.signal(_s, signal.SIG_DFL)
if hasattr(signal, "pthread_sigmask"): signal.pthread_sigmask(signal.SIG_SETMASK, ())

class CheckError(Exception): pass       # the check itself failed (not a verdict)

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get("NBSPV_TMP", "/tmp")
        _scratch = tempfile.mkdtemp(prefix="nbspv.", dir=base)
        os.chmod(_scratch, 0o755)
        if not os.environ.get("NBSPV_KEEP"):
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        def onsig(s, f): sys.exit(2)
        signal.signal(signal.SIGTERM, onsig)
    return _scratch

def stop():
    subprocess.run(["pkill", "-KILL", "-P", str(os.getpid())], stderr=subprocess.DEVNULL)
    if _scratch and not os.environ.get("NBSPV_KEEP"):
        for i in range(5):
            shutil.rmtree(_scratch, ignore_errors=True)
            if not os.path.exists(_scratch): break
            time.sleep(0.1)

def subdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d

def thorough(): return TIER == "thorough"
def pick(q, t): return t if thorough() else q

def run(cmd, cwd=None, timeout=600, inp=None, check=True, env=None):
    p = subprocess.run(cmd, cwd=cwd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, env=env)
    if check and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s\n%s" % (p.returncode, cmd, p.stdout.decode(errors="replace")[-3000:], p.stderr.decode(errors="replace")[-3000:]))
    return p

# ------------------------------------------------------------------ building
class Build:
    """A scratch copy of /repo's sources, configured and compiled."""
    def __init__(self, dirs=("src",)):
        self.top = subdir("repo")
        names = ["configure.sh", "configure.inc", "Makefile.inc.in", "Makefile.in", "VERSION", "src", "conf", "filters/filterlib/c"]
        names += [d for d in dirs if d not in names]
        for n in names:
            s = os.path.join(REPO, n)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(self.top, n), symlinks=True,
                    ignore=shutil.ignore_patterns("*.o", "*.a", "_build", ".git"))
            elif os.path.exists(s):
                os.makedirs(os.path.dirname(os.path.join(self.top, n)), exist_ok=True)
                shutil.copy2(s, os.path.join(self.top, n))
        env = dict(os.environ); env.pop("CFLAGS", None); env.pop("MAKEFLAGS", None)
        if os.path.isdir("/usr/lib/ccache") and os.environ.get("NBSPV_CCACHE"):
            env["PATH"] = "/usr/lib/ccache:" + env["PATH"]
        self.env = env
        conf = "set -e; . ./configure.inc; configure_default Makefile.inc; for d in conf %s; do (cd $d; ./configure.sh); done" % " ".join(dirs)
        run(["sh", "-c", conf], cwd=self.top, env=env)
        w = 'CCWFLAGS=-Wall -Wextra -Wformat-security'
        self.src = os.path.join(self.top, "src")
        run(["make", "-j%d" % NCPU, ".SHELLFLAGS=-ec", w, "lib"], cwd=self.src, env=env)
        run(["make", "-j%d" % NCPU, ".SHELLFLAGS=-ec", w], cwd=self.src, env=env)
        for d in dirs:
            if d != "src": run(["make", ".SHELLFLAGS=-ec", w], cwd=os.path.join(self.top, d), env=env)
        self._main = None

    def objects(self):
        """All objects of the daemon, with main() renamed."""
        if self._main is None:
            m = os.path.join(self.src, "nbspd_main.obj")
            run(["objcopy", "--redefine-sym", "main=nbspd_main", os.path.join(self.src, "main.o"), m])
            self._main = m
        # what the daemon is linked from, taken from its own makefile
        p = run(["make", "-s", "-n", "-B", "nbspd"], cwd=self.src, env=self.env)
        link = [l for l in p.stdout.decode().splitlines() if " -o nbspd " in l]
        if not link: raise CheckError("cannot find the link line of nbspd")
        words = link[-1].split()
        i = words.index("-o")
        args = words[i+2:]
        objs = [self._main if a == "main.o" else a for a in args]
        return objs

    def harness(self, name, sources, wrap=(), extra=(), defines=()):
        out = os.path.join(subdir("bin"), name)
        h = os.path.join(VERIF, "harness")
        cmd = ["gcc", "-g", "-O1", "-w", "-DDEBUG", "-iquote", self.src, "-iquote", h, "-I/usr/include/tcl8.6"]
        cmd += ["-D" + d for d in defines]
        cmd += ["-o", out] + [os.path.join(h, s) for s in sources]
        cmd += ["-Wl,--wrap=%s" % w for w in wrap]
        cmd += self.objects() + list(extra)
        run(cmd, cwd=self.src)
        return out

CLOCKWRAP = ("time", "clock_gettime", "gettimeofday", "pthread_cond_timedwait")

def run_harness(exe, args, script, timeout=300, env=None, cwd=None):
    """Runs a harness on a script (list of lines); returns (list of JSON lines, returncode)."""
    data = ("\n".join(script) + "\n").encode()
    try:
        p = subprocess.run([exe] + [str(a) for a in args], input=data, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", e.stdout or b"", e.stderr or b""
    lines = []
    for l in out.decode("latin-1").split("\n"):
        if not l.strip(): continue
        try: lines.append(json.loads(l))
        except ValueError: lines.append({"garbled": l[:200]}); break
    return lines, rc, err.decode("latin-1")[-2000:]

# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m2: self.generated = self.distinct = int(m2[-1].replace(",", ""))
        self.ok = rc == 0
        self.violated = rc in (10, 11, 12, 13) or "is violated" in out or "Deadlock reached" in out or "was not true" in out
        self.error = (not self.ok) and (not self.violated)

_n = [0]
_nlock = threading.Lock()
def tlc(module, cfg, files=None, workers=None, timeout=850, heap="3g", args=(), dfs=False, simulate=None, depth=None, deadlock=False, seed=None):
    """Runs TLC on /verif/specs/<module>.tla with config text or file cfg, in a scratch directory."""
    with _nlock: _n[0] += 1; num = _n[0]
    d = subdir("tlc%d" % num)
    for f in glob.glob(os.path.join(VERIF, "specs", "*.tla")): shutil.copy(f, d)
    for n, text in (files or {}).items():
        mode = "wb" if isinstance(text, bytes) else "w"
        with open(os.path.join(d, n), mode) as fh: fh.write(text)
    cfgp = os.path.join(d, "run.cfg")
    if os.path.exists(os.path.join(VERIF, "specs", cfg)): shutil.copy(os.path.join(VERIF, "specs", cfg), cfgp)
    else:
        with open(cfgp, "w") as fh: fh.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC"]
    cmd += ["-cp", JARS, "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
            "-workers", str(workers or NCPU)]
    if not deadlock: cmd.append("-deadlock")
    if simulate is not None: cmd += ["-simulate", "num=%d" % simulate]
    if depth: cmd += ["-depth", str(depth)]
    if seed is not None: cmd += ["-seed", str(seed)]
    cmd += list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        r = TlcResult(p.returncode, p.stdout.decode("utf-8", errors="replace"))
    except subprocess.TimeoutExpired as e:
        r = TlcResult(-1, (e.stdout or b"").decode("utf-8", errors="replace"))
        r.error = True; r.ok = r.violated = False; r.timedout = True
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    r.dir = d
    return r

# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, pid, level="model_checking"):
        scratch()
        self.pid, self.level = pid, level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.knownhit = set()

    def add_model(self, name, r, bounds=None):
        """Account a TLC run of the design (not of traces)."""
        if r.violated:
            # The design itself breaks the property: the specification no longer
            # describes what was agreed; that is an error of the check.
            raise CheckError("model %s violated:\n%s" % (name, r.out[-4000:]))
        if r.error: raise CheckError("TLC failed on %s:\n%s" % (name, r.out[-4000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", []).append(dict(name=name, distinct=r.distinct, generated=r.generated, bounds=bounds or ""))

    def violation(self, what, replay):
        d = os.path.join(VERIF, "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f: json.dump(dict(property=self.pid, what=what, seed=SEED, tier=TIER, replay=replay), f, indent=1, default=str)
        self.violations.append((what, path))

    def finish(self):
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        for k in sorted(self.knownhit): print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for what, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + what[:600])
        sys.stdout.flush()
        return 1 if self.violations else 0

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

# ------------------------------------------------------------------ trace checking
def ndjson(events): return "".join(json.dumps(e, separators=(",", ":")) + "\n" for e in events)

def check_traces(chk, module, cfg, traces, extra_files=None, heap="4g", timeout=600, workers=None):
    """Validate recorded traces: a list of event lists. The trace module reads
    traces.ndjson (one line per event, traces are concatenated; field "tr" is the
    1-based number of the trace) and index.ndjson ({"a":first,"n":count} per trace).
    Returns a list of (trace number, event number, tail of TLC's output) rejections."""
    files = dict(extra_files or {})
    evs, idx = [], []
    for t in traces:
        idx.append(dict(a=len(evs) + 1, n=len(t)))
        evs.extend(t)
    files["traces.ndjson"] = ndjson(evs)
    files["index.ndjson"] = ndjson(idx)
    r = tlc(module, cfg, files=files, deadlock=True, heap=heap, timeout=timeout, workers=workers)
    if r.error: raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-6000:]))
    if r.ok:
        if r.distinct < len(evs): raise CheckError("%s: only %d states for %d events" % (module, r.distinct, len(evs)))
        chk.cov["traces_validated_against_impl"] += len(traces)
        chk.cov["events_validated"] = chk.cov.get("events_validated", 0) + len(evs)
        chk.cov["states"] += r.distinct
        chk.cov["transitions"] += r.generated
        return []
    return rejection(r)

def check_traces_nd(chk, module, cfg, traces, extra_files=None, heap="4g", timeout=600, parts=1):
    """As check_traces, for specifications with silent steps: accepted when some
    behaviour explains the whole trace (TLC registers hold how far each got)."""
    parts = max(1, min(parts, len(traces)))
    def part(p):
        files = dict(extra_files or {}); nos = list(range(p, len(traces), parts))
        evs, idx = [], []
        for k in nos:
            t = traces[k]
            idx.append(dict(a=len(evs) + 1, n=len(t)))
            evs.extend(t)
        files["traces.ndjson"] = ndjson(evs); files["index.ndjson"] = ndjson(idx)
        r = tlc(module, cfg, files=files, heap=heap, timeout=timeout, workers=1)
        m = re.findall(r'<<"REJECTED", (\d+), (\d+)>>', r.out)
        if not m and not r.ok: raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-6000:]))
        if not m and r.distinct < len(evs): raise CheckError("%s: only %d states for %d events" % (module, r.distinct, len(evs)))
        return [(nos[int(a) - 1] + 1, int(b), "") for a, b in m], r, len(evs)
    if parts == 1: R = [part(0)]
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(parts) as ex: R = list(ex.map(part, range(parts)))
    bad = [x for m, _, _ in R for x in m]
    if bad: return bad
    for _, r, n in R:
        chk.cov["events_validated"] = chk.cov.get("events_validated", 0) + n
        chk.cov["states"] += r.distinct
        chk.cov["transitions"] += r.generated
    chk.cov["traces_validated_against_impl"] += len(traces)
    return []

def explain(module, cfg, trace, at, extra_files=None, heap="4g"):
    """What the specification expected at event `at` of a single rejected trace."""
    files = dict(extra_files or {})
    files["traces.ndjson"] = ndjson(trace); files["index.ndjson"] = ndjson([dict(a=1, n=len(trace))])
    r = tlc(module, cfg.replace("FreeAt = 0", "FreeAt = %d" % at), files=files, deadlock=True, heap=heap, timeout=300, workers=1)
    k = r.out.rfind("\nState ")
    return r.out[k:k+6000] if "NotExplained" in r.out else "no step possible"

def rejection(r):
    # the last state printed gives the trace and the position
    st = re.findall(r"/\\ tr = (\d+)", r.out)
    li = re.findall(r"/\\ l = (\d+)", r.out)
    return [(int(st[-1]) if st else 0, int(li[-1]) if li else 0, r.out[-6000:])]
