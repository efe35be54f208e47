"""C30: deletion by inventory (Inventory.tla)."""
import errno, glob, hashlib, json, os, random, shutil, stat, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
"""
MC = """SPECIFICATION Spec
CONSTANTS MaxLines = %d
 MaxInvs = %d
INVARIANTS OnlyListed TestDeletesNothing AllGone InventoryLast InventoryGone Reported LeftReported
PROPERTY Ends
"""
WRAPS = ("unlink", "unlinkat", "remove", "rmdir", "rename", "truncate", "chdir")
NOBODY = 65534

def models(chk):
    for a in pick([(2, 2), (3, 1)], [(2, 2), (4, 1)]):
        chk.add_model("%d lines, %d inventories" % a, tlc("MCInventory", MC % a, workers=pick(3, NCPU), timeout=800))

# the tree of every run; directories by label: (path below the top, owned by the user of the program)
DIRS = dict(data="data", sub="data/sub", other="other", deep="other/dd/y", prot="prot", deny="deny", work="work", invs="work/invs")
NAMES = ["alpha", "beta", "gamma", "delta", "eps.txt", "two words", "-dash", "n" * 250, "caf\u00e9", "s", "x", "keepme", "busyone", "%s%n"]
PROT = ("prot", "deny")

class World:
    def __init__(self, r, top):
        self.r, self.top = r, top
        self.files = {}                                   # (label, name) -> content | ("link", target) | "dir"
        for d in DIRS:
            for n in NAMES:
                if r.random() < 0.45: self.files[(d, n)] = "%s/%s" % (d, n)
        for d in ("data", "other"): self.files[(d, "lnk")] = ("link", "../other/keepme")
        self.files[("data", "sub")] = "dir"
        # ways to name a directory, and what it is
        self.phys = {top + "/" + p: d for d, p in DIRS.items()}
        self.phys[top + "/deny"] = "denied"
        for alias, d in (("lnkdata", "data"), ("data/../data", "data"), ("work/../other", "other"), ("/data", "data")): self.phys[top + "/" + alias] = d
        self.phys[top + "/missing"] = "absent"; self.phys[top + "/missing/more"] = "absent"
        self.phys[top + "/afile"] = "denied"              # not a directory
        self.phys[top + "/deny/inner"] = "denied"
        self.phys[top + "/eio"] = "denied"; self.phys[""] = "absent"

    def entry(self, kind, d="", n=""):
        """-> (entry, bytes of the line)"""
        if kind == "full": t = d + "/" + n
        elif kind == "name": t = n
        elif kind == "partial": t = d + "/" + n
        elif kind == "blank": t = ""
        else: t = n
        return dict(k=kind, d=d if kind == "full" else "", n=n, key=t), t.encode()

    def random_lines(self, base):
        r = self.r
        E = []
        k = r.randrange(0, 9)
        same = [p for p, d in self.phys.items() if p and d == self.phys[base]] if base in self.phys else [base]
        for i in range(k):
            x = r.random()
            n = r.choice(NAMES + ["lnk", "sub", "nothere"])
            if i == 0 and x < 0.9: E.append(self.entry("full", base, n))
            elif x < 0.4: E.append(self.entry("full", base, n))
            elif x < 0.6: E.append(self.entry("name", "", n))
            elif x < 0.7: E.append(self.entry("full", r.choice(same), n))
            elif x < 0.8: E.append(self.entry("full", r.choice([p for p in self.phys if p]), n))
            elif x < 0.9: E.append(self.entry("partial", r.choice(["sub", "../data", "../other", "../work", ".", "../work/invs", "sub/.."]), n))
            elif x < 0.94: E.append(self.entry("blank"))
            elif x < 0.97: E.append(self.odd(r))
            else: E.append(self.entry("name", "", r.choice([".", ".."])))
        return E

    def odd(self, r):
        x = r.randrange(3)
        if x == 0: return dict(k="bad", d="", n="", key="\u2400" + "x"), b"\0" + r.choice(NAMES).encode()
        if x == 1: return dict(k="bad", d="", n="", key="\u2400" + "y"), r.choice(NAMES).encode() + b"\0" + b"zz"
        # a line longer than any path, cut so that what follows a piece of it is the name of a file
        return dict(k="name", d="", n="long", key="\u2400z"), b"L" * r.choice([4095, 4094, 4096, 8190]) + r.choice(NAMES).encode()

def build_tree(w, invs, nouser):
    top = w.top
    os.makedirs(top, exist_ok=True); os.chmod(top, 0o755)
    for d, p in DIRS.items(): os.makedirs(os.path.join(top, p), exist_ok=True)
    os.symlink("data", top + "/lnkdata")
    open(top + "/afile", "w").write("afile")
    os.mkdir(top + "/eio")
    for (d, n), c in w.files.items():
        p = os.path.join(top, DIRS[d], n)
        if c == "dir": os.makedirs(p, exist_ok=True)
        elif isinstance(c, tuple): os.symlink(c[1], p)
        else: open(p, "w").write(c)
    for i in invs:
        p = os.path.join(top, DIRS[i["d"]], i["n"])
        if i["kind"] == "none": continue
        if i["kind"] == "dir": os.mkdir(p); continue
        if i["kind"] == "mem": os.symlink("/proc/self/mem", p); continue
        data = b"".join(t + b"\n" for _, t in i["lines"])
        if i["cut"]: data = data[:-1]
        open(p, "wb").write(data)
    if not nouser:
        for d, p in DIRS.items():
            q = os.path.join(top, p)
            if d in PROT: os.chmod(q, 0o755 if d == "prot" else 0o700)
            else:
                os.chown(q, NOBODY, NOBODY)
        for i in invs:
            if i["kind"] == "locked": os.chmod(os.path.join(top, DIRS[i["d"]], i["n"]), 0o600)

def snapshot(top):
    s = {}
    for dp, dn, fn in os.walk(top):
        for n in dn + fn:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode): v = "l" + os.readlink(p)
            elif stat.S_ISDIR(st.st_mode): v = "d%o" % st.st_mode
            else: v = "f" + hashlib.sha1(open(p, "rb").read()).hexdigest()
            s[os.path.relpath(p, top)] = v
    return s

class Run:
    def __init__(self, seed, invs=None, flags=None, fail=None):
        self.seed, self.invs0, self.flags0, self.fail0 = seed, invs, flags, fail

    def make(self, top):
        r = random.Random(self.seed)
        w = World(r, top)
        bases = [top + "/data", top + "/other", top + "/lnkdata", top + "/data", top + "/prot", top + "/missing", top + "/deny", top + "/afile", top + "/eio", top + "/other/dd/y", top + "/work", top + "/data/../data"]
        self.flags = self.flags0 if self.flags0 is not None else r.choice([["-v"], ["-v"], ["-s", "-v"], [], ["-s"], ["-v", "-t"]])
        invs = []
        if self.invs0 is None:
            for k in range(r.choice([1, 1, 2, 3])):
                kind = r.choice(["file"] * 12 + ["none", "dir", "mem", "locked"])
                d = r.choice(["work", "invs", "invs", "data"])
                invs.append(dict(d=d, n="inv%d" % k, kind=kind, lines=w.random_lines(r.choice(bases)), cut=r.random() < 0.2, rel=r.random() < 0.6))
        else: invs = self.invs0(w)
        self.invs = invs
        self.w = w
        self.fail = self.fail0 if self.fail0 is not None else r.choice([[], [], [("unlink", "busyone", errno.EBUSY)], [("unlink", "busyone", errno.EACCES), ("unlink", "x", errno.EIO)]])
        return w

    def arg(self, i):
        p = os.path.join(self.w.top, DIRS[i["d"]], i["n"])
        return os.path.relpath(p, self.w.top + "/work") if i["rel"] else p

def execute(exe, k, run_, nouser):
    base = subdir("inv/%d" % k); shutil.rmtree(base); os.makedirs(base)
    top = os.path.join(os.path.realpath(base), "t")
    w = run_.make(top)
    build_tree(w, run_.invs, nouser)
    os.chmod(base, 0o777)
    log = os.path.join(base, "log"); open(log, "w").close(); os.chmod(log, 0o666)
    before = snapshot(top)
    env = dict(os.environ, INV_TOP=top, INV_LOG=log, INV_FAIL="\n".join("%s:%s:%d" % f for f in run_.fail + [("chdir", top + "/eio", errno.EIO)]))
    def drop():
        if not nouser: os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
    args = [run_.arg(i) for i in run_.invs]
    try:
        p = subprocess.run([exe] + run_.flags + args, cwd=top + "/work", env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60, preexec_fn=drop)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e: rc, so, se = -99, b"", b""
    after = snapshot(top)
    esc = [l.rstrip("\n") for l in open(log, errors="replace")]
    lab = {p: d for d, p in DIRS.items()}
    def files(s): return [dict(d=lab[os.path.dirname(p)], n=os.path.basename(p)) for p, v in s.items() if v[0] != "d" and os.path.dirname(p) in lab]
    changed = [p for p in after if before.get(p) != after[p]] + [p for p, v in before.items() if p not in after and (v[0] == "d" or os.path.dirname(p) not in lab)]
    keys = {}
    for i, a in zip(run_.invs, args):
        keys[a] = 1
        for e, t in i["lines"]:
            keys[e["key"]] = 1; keys[e["d"]] = 1
    keys.pop("", None)
    def names(i): return [e for e, t in i["lines"]]
    out, errlines = [], []
    for l in so.decode("utf-8", "replace").split("\n"):
        if l.startswith("L" * 1000): l = "\u2400z"
        if l in keys: out.append(l)
        elif l: errlines.append(l)
    errlines += se.decode("utf-8", "replace").split("\n")
    # texts that are not printed whole (nulls, more than a path) need not be reported by name
    err = [q for q in keys if q[0] == "\u2400" or any(token(q, l) for l in errlines)]
    meta = dict(e="M", phys={p: v for p, v in w.phys.items()}, prot=[] if nouser else list(PROT),
                busy=[f[1] for f in run_.fail], fs=files(before), test="-t" in run_.flags, verbose="-v" in run_.flags, silent="-s" in run_.flags,
                queue=[dict(key=a, at=dict(d=i["d"], n=i["n"]), ok=i["kind"] in ("file", "mem") or (nouser and i["kind"] == "locked") or i["kind"] == "dir" and False,
                            lines=[e for e, t in i["lines"]] if i["kind"] in ("file", "locked") else [], rderr=i["kind"] == "mem") for i, a in zip(run_.invs, args)])
    res = dict(e="X", fs=files(after), changed=changed, escapes=esc, status=rc, out=out if "-v" in run_.flags else so.decode("latin-1").split("\n")[:-1], err=err, stderr=len(se))
    shutil.rmtree(base, ignore_errors=True)
    return [meta, res], dict(args=run_.flags + args, stdout=so.decode("latin-1")[-1500:], stderr=se.decode("latin-1")[-1500:])

def token(q, l):
    i = l.find(q)
    while i >= 0:
        a = l[i - 1] if i > 0 else " "; z = l[i + len(q)] if i + len(q) < len(l) else " "
        if a in " '\"" and z in " .:'\",": return True
        i = l.find(q, i + 1)
    return False

class Fix:
    def __init__(s, x, n): s.x, s.n = x, n
    def randrange(s, k): return s.x
    def choice(s, l): return l[s.n % len(l)]

def targeted():
    R = []
    def inv(lines, n="inv0", d="invs", kind="file", cut=False, rel=True): return dict(d=d, n=n, kind=kind, lines=lines, cut=cut, rel=rel)
    def one(f, **kw): R.append(Run(len(R) + 5000, lambda w: [inv(f(w), **kw)], flags=["-v"], fail=[]))
    T = lambda w, d: w.top + "/" + d
    for n in NAMES + ["lnk", "sub", "nothere", ".", ".."]:
        one(lambda w, n=n: [w.entry("full", T(w, "data"), n)])
        one(lambda w, n=n: [w.entry("full", T(w, "data"), "nothere"), w.entry("name", "", n)], cut=True)
        one(lambda w, n=n: [w.entry("blank"), w.entry("full", T(w, "data"), n)])
        one(lambda w, n=n: [w.entry("name", "", n), w.entry("full", T(w, "data"), n)])
        one(lambda w, n=n: [w.entry("full", T(w, "data"), "nothere"), w.entry("full", T(w, "other"), n), w.entry("name", "", "beta")])
        for q in ("../other", "../work", "sub", "../work/invs", ".", "sub/.."):
            one(lambda w, n=n, q=q: [w.entry("full", T(w, "data"), "nothere"), w.entry("partial", q, n)])
    for x in range(3):
        for n in range(6):
            one(lambda w, x=x, n=n: [w.entry("full", T(w, "data"), "nothere"), w.odd(Fix(x, n)), w.entry("name", "", "beta")])
            if x < 2: one(lambda w, x=x, n=n: [w.odd(Fix(x, n)), w.entry("full", T(w, "data"), "alpha")])
    for d in ("missing", "missing/more", "deny", "deny/inner", "afile", "eio", "prot", "lnkdata"):
        one(lambda w, d=d: [w.entry("full", T(w, d), "alpha"), w.entry("name", "", "beta"), w.entry("full", T(w, "data"), "gamma")])
        # the next inventory is found from where the program was started
        R.append(Run(len(R) + 5000, lambda w, d=d: [inv([w.entry("full", T(w, d), "alpha")]), inv([w.entry("full", T(w, "other"), n) for n in NAMES], n="inv1")], flags=["-v"], fail=[]))
    for fl in ([], ["-s"], ["-t"], ["-t", "-v"], ["-s", "-v"]):
        for kind in ("file", "none", "dir", "mem", "locked"):
            R.append(Run(len(R) + 5000, lambda w, kind=kind: [inv([w.entry("full", T(w, "data"), n) for n in NAMES], kind=kind), inv([w.entry("full", T(w, "other"), "beta")], n="inv1", rel=False), inv([], n="inv2", d="work")], flags=fl, fail=[("unlink", "busyone", errno.EBUSY)]))
    # the inventory lists itself
    one(lambda w: [w.entry("full", T(w, "work/invs"), "inv0"), w.entry("name", "", "alpha")])
    one(lambda w: [w.entry("full", T(w, "data"), "alpha"), w.entry("full", T(w, "data"), "alpha"), w.entry("name", "", "alpha")], d="prot")
    return R

def main(pid):
    chk = Check(pid)
    chk.assumptions = ["nothing else changes the directories while the program runs",
                       "the exit status is not part of the contract (the program always ends with 0): failures are reported in the output"]
    pool = ThreadPoolExecutor(NCPU)
    mj = pool.submit(models, chk)
    b = Build(dirs=("src", "utils/nbspinvrm"))
    d = os.path.join(b.top, "utils/nbspinvrm")
    exe = os.path.join(subdir("bin"), "nbspinvrm")
    run(["gcc", "-g", "-w", "-o", exe, os.path.join(VERIF, "harness", "invrm.c")] + sorted(glob.glob(d + "/*.o")) + ["-Wl,--wrap=" + w for w in WRAPS], cwd=d)
    x = exe
    while len(x) > 4: os.chmod(x, os.stat(x).st_mode | 0o055); x = os.path.dirname(x)
    x = subdir("inv")
    while len(x) > 4: os.chmod(x, os.stat(x).st_mode | 0o055); x = os.path.dirname(x)
    # as an unprivileged user where that is possible; what the wrappers refuse never happens either way
    try: subprocess.run(["true"], preexec_fn=lambda: (os.setgroups([]), os.setgid(NOBODY), os.setuid(NOBODY))); nouser = False
    except (subprocess.SubprocessError, OSError): nouser = True
    R = targeted() + [Run(SEED * 100000 + k) for k in range(pick(250, 6000))]
    def go(k): return execute(exe, k, R[k], nouser)
    res = list(pool.map(go, range(len(R))))
    traces = [t for t, _ in res]
    rej = check_traces(chk, "TraceInventory", CFG, traces)
    if rej:
        n = rej[0][0]
        tr, io = go(n - 1)
        if check_traces(chk, "TraceInventory", CFG, [tr]):
            exp = explain("TraceInventory", CFG, tr, 1)
            gone = [f for f in tr[0]["fs"] if f not in tr[1]["fs"]]
            chk.violation("nbspinvrm %s: not what Inventory does: deleted %s, refused %s, changed %s, status %s, output %s" % (
                io["args"], json.dumps(gone)[:400], tr[1]["escapes"], tr[1]["changed"], tr[1]["status"], io["stdout"][-300:]),
                dict(inventories=[dict(file=i["d"] + "/" + i["n"], kind=i["kind"], lines=[t.decode("latin-1")[:300] for _, t in i["lines"]]) for i in R[n-1].invs],
                     fail=R[n-1].fail, run=io, trace=tr, expected=exp))
            return chk.finish()
    mj.result()
    chk.cov["samples"] = [json.dumps(res[-1][1])[:800]]
    return chk.finish()
