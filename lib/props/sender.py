"""C29: packing files into frames (Sender.tla composed with Ingest.tla)."""
import glob, json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import sbn
from props.ingest import rnd_header, WRAPS as IWRAPS

CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANTS NotExplained FilesAreProducts
"""
MC = """SPECIFICATION Spec
CONSTANTS Blk = %d
 CcbLen = %d
 Sizes = {%s}
 MaxFiles = %d
 Max = %d
 Faults = %d
INVARIANTS ReceivedExactly NoErrors ReportsFailure FrameFits Numbered
PROPERTY Ends
"""
WRAPS = ("sendto", "usleep", "nanosleep", "clock_nanosleep", "time", "gettimeofday", "clock_gettime")
MAXFIT = 65535 * 4000 - 1 - 24
DEFSTART = (2**32 - 1) // 4 - 2
def word(n): return [n >> 16 & 65535, n & 65535]

def models(chk):
    m = [(2, 1, "0, 1, 2, 3, 4, 5", 2, 3, 1), (3, 4, "0, 1, 2, 3", 3, 3, 1)]
    if thorough(): m += [(2, 1, "0, 1, 2, 3, 4, 5, 6", 3, 3, 2), (1, 0, "0, 1, 2, 3", 4, 3, 2), (3, 2, "0, 1, 2, 3, 4, 5, 6, 7", 3, 3, 3)]
    for a in m: chk.add_model("blocks of %d, ccb of %d, sizes %s, lists of %d files, at most %d blocks, %d lost frames" % a, tlc("MCSender", MC % a, workers=pick(3, NCPU), timeout=800))

class Run:
    """One execution of nbspmcast: options, a list of files, frames that fail."""
    def __init__(self, files, radar=False, dst=None, rate=None, seq=None, fseq=None, fail="", stdin=False, now=None, big=False, blank=False):
        self.__dict__.update(locals()); del self.__dict__["self"]

    def script(self):
        f = [dict(kind=k, size=n, head=(t or b"")[:90].decode("latin-1")) for k, n, t in self.files]
        return dict(args=self.args(), files=f, fail=self.fail, stdin=self.stdin, now=self.now, big=self.big)

    def args(self):
        a = []
        if self.radar: a += ["-r"]
        if self.dst: a += ["-a", self.dst[0], "-p", str(self.dst[1])]
        if self.rate is not None: a += ["-u", str(self.rate)]
        if self.seq is not None: a += ["-s", str(self.seq)]
        if self.fseq is not None: a += ["-f", str(self.fseq)]
        return a

    def meta(self):
        now = self.now or (86400 * 3 + 100, 7)
        return dict(e="M", radar=self.radar, dst="%s:%d" % self.dst if self.dst else "", rate=self.rate or 0,
                    seq=word(self.seq or 0), fstart=word(DEFSTART if self.fseq is None else self.fseq),
                    daysec=now[0] % 86400, msec=now[1],
                    files=[dict(ok=k == "file", size=min(n, 1900000000), text=list(t or b"")) for k, n, t in self.files])

def execute(exe, iexe, k, run_):
    d = subdir("snd/%d" % k)
    names = []
    for i, (kind, n, t) in enumerate(run_.files):
        p = os.path.join(d, "f%d" % i)
        if kind == "file":
            with open(p, "wb") as fh:
                if t is None: fh.truncate(n)
                else: fh.write(t)
        elif kind == "dir": os.mkdir(p)
        names.append(p)
    now = run_.now or (86400 * 3 + 100, 7)
    env = dict(os.environ, SENDER_OUT=os.path.join(d, "out"), SENDER_FAIL=run_.fail, SENDER_NOW=str(now[0]), SENDER_MS=str(now[1]), TZ="UTC")
    if run_.big: env["SENDER_BIG"] = "1"
    open(env["SENDER_OUT"], "w").close()
    inp = b""
    if run_.stdin:
        sep = "\n\n" if run_.blank else "\n"
        inp = (("\n" if run_.blank else "") + sep.join(names) + ("" if k % 2 else "\n")).encode()
    try:
        p = subprocess.run([exe] + run_.args() + ([] if run_.stdin else names), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, timeout=120)
        rc = p.returncode
    except subprocess.TimeoutExpired: rc = -99
    evs = []
    for l in open(env["SENDER_OUT"]):
        try: e = json.loads(l)
        except ValueError: break
        if e["e"] == "P":
            if evs and evs[-1]["e"] == "F": evs[-1]["pause"] = evs[-1].get("pause", 0) + e["us"]
        else:
            if e["e"] == "F": e["b"] = list(bytes.fromhex(e["b"])); e["pause"] = 0
            evs.append(e)
    ch = 2 if run_.radar else 0
    got = [e for e in evs if e["e"] == "F" and not e["lost"]]
    crash = None
    if got:
        wd = os.path.join(d, "w"); os.mkdir(wd)
        lines, irc, err = run_harness(iexe, [wd, "-", "-"], ["F %d %s" % (ch, bytes(e["b"]).hex()) for e in got])
        if irc != 0 or len(lines) != len(got): crash = "the frame processor stopped (rc=%s) after %d frames: %s" % (irc, len(lines), err[-300:])
        for e, o in zip(got, lines): e.update(o)
    for e in evs:
        if e["e"] == "F" and not e["lost"] and "cnt" not in e: e["cnt"] = {}; e["emit"] = []
    evs.append(dict(e="X", status=rc))
    shutil.rmtree(d, ignore_errors=True)
    return [run_.meta()] + evs, crash

def text(r, n, good=True):
    h = rnd_header(r, good)
    k = n - len(h)
    if k <= 0: return h[:n]
    if k < 200: return h + bytes(r.randrange(256) for _ in range(k))
    a, b = r.randrange(256), r.randrange(1, 256)
    return h + bytes((a + j * b + (j >> 8)) & 255 for j in range(k))

def runs():
    r = random.Random(SEED * 29 + 5)
    F = lambda n, good=True: ("file", n, text(r, n, good))
    R = []
    edge = [4000 * k - 24 + e for k in (1, 2, 3, 4) for e in (-1, 0, 1)]
    R.append(Run([F(n) for n in edge[:6]], seq=5, fseq=100))
    R.append(Run([F(n) for n in edge[6:]], seq=65534, fseq=65530, stdin=True))
    R.append(Run([F(n) for n in edge[:9][::-1]], radar=True, seq=1, stdin=True, blank=True))
    R.append(Run([F(n) for n in (0, 1, 17, 18, 20, 21, 22, 30, 60, 3900, 3976, 4000, 4024)]))
    # buffers of an earlier file are reused: large, small, failed, small, large
    for st in (False, True):
        R.append(Run([F(9000), F(50), ("none", 0, None), F(60), F(9100), ("dir", 0, None), F(3976), F(12), F(16000)], seq=77, stdin=st))
        R.append(Run([("none", 0, None), ("dir", 0, None), F(100)], seq=2**32 - 2, fseq=2**32 - 2, stdin=st))
        R.append(Run([("none", 0, None)], stdin=st))
    R.append(Run([F(4000 * 6 + 5), F(100)], radar=True, dst=("224.0.9.1", 4321), rate=-1, seq=2**31, fseq=2**32 - 3))
    for rate in (0, 1, 3, 10, 999, 1000, 5000): R.append(Run([F(4100), F(30)], rate=rate, dst=("239.1.2.3", 65535) if rate % 2 else None))
    for now in ((86400 * 5, 0), (86400 * 5 + 86399, 999), (86400 * 20000 + 3661, 42), (1700000000, 500)): R.append(Run([F(50), F(70)], now=now))
    # frames that cannot be sent
    for pos in range(1, 8): R.append(Run([F(8100), F(40), F(3976), F(55)], seq=9, fail="%d%s" % (pos, "es"[pos % 2]), stdin=pos > 4))
    R.append(Run([F(8100), F(40), F(4100), F(55)], seq=9, fail="2e,3s,4e"))
    # as many blocks as the headers can count, and more
    R.append(Run([("file", MAXFIT, None)], big=True, seq=1))
    R.append(Run([("file", MAXFIT + 1, None), ("file", MAXFIT + 200000, None), ("file", 2**31 - 1, None), ("file", 2**31 - 25, None), ("file", 2**32 + 50, None), ("file", 5000, None)], big=True, seq=1, stdin=True))
    for k in range(pick(30, 200)):
        fs = []
        for i in range(r.randrange(1, 7)):
            x = r.random()
            if x < 0.08: fs.append((r.choice(["none", "dir"]), 0, None))
            elif x < 0.5: fs.append(F(max(0, 4000 * r.randrange(1, 4) - 24 + r.randrange(-3, 4)), r.random() < 0.9))
            else: fs.append(F(r.choice([r.randrange(0, 100), r.randrange(0, 4100), r.randrange(0, pick(9000, 30000))]), r.random() < 0.9))
        n = sum(1 + (24 + f[1]) // 4000 for f in fs)
        R.append(Run(fs, radar=r.random() < 0.3, seq=r.choice([None, 1, 65535, r.randrange(2**32)]), fseq=r.choice([None, 1, 65534, r.randrange(2**32)]),
                     rate=r.choice([None, 1, 10, 600]), stdin=r.random() < 0.5, blank=r.random() < 0.5,
                     fail="%d%s" % (r.randrange(1, n + 2), r.choice("es")) if r.random() < 0.3 else ""))
    return R

def main(pid):
    chk = Check(pid)
    chk.assumptions = ["the network delivers the frames in order: the frames are given to the frame processor of the daemon as they were offered to the socket",
                       "each file starts from the configured frame number or goes on from the previous one: the documentation does not say which"]
    pool = ThreadPoolExecutor(NCPU)
    mj = pool.submit(models, chk)
    b = Build(dirs=("src", "tools/nbspmcast"))
    iexe = b.harness("ingest", ["ingest.c", "hcommon.c"], wrap=IWRAPS)
    t = os.path.join(b.top, "tools/nbspmcast")
    exe = os.path.join(subdir("bin"), "nbspmcast")
    objs = [o for o in sorted(glob.glob(t + "/*.o") + glob.glob(t + "/sbnpack/*.o")) if os.path.basename(o) != "recv.o"]
    run(["gcc", "-g", "-w", "-o", exe, os.path.join(VERIF, "harness", "sender.c")] + objs + ["-L" + os.path.join(t, "mcast"), "-lmcast"] + ["-Wl,--wrap=" + w for w in WRAPS], cwd=t)
    R = runs()
    def go(k): return execute(exe, iexe, k, R[k])
    res = list(pool.map(go, range(len(R))))
    for k, (tr, crash) in enumerate(res):
        if crash and go(k)[1]: chk.violation(crash, dict(run=R[k].script())); return chk.finish()
    traces = [t for t, _ in res]
    rej = check_traces(chk, "TraceSender", CFG, traces)
    if rej:
        n, l = rej[0][0], rej[0][1]
        tr, _ = go(n - 1)
        rej2 = check_traces(chk, "TraceSender", CFG, [tr])
        if rej2:
            l = min(rej2[0][1], len(tr) - 1)
            exp = explain("TraceSender", CFG, tr, l)
            ev = dict(tr[l]); b_ = ev.pop("b", None)
            if b_ is not None: ev["hdr"] = bytes(b_[:96]).hex(); ev["len"] = len(b_)
            chk.violation("run %d of nbspmcast %s: event %d is not a step of Sender: %s" % (n, R[n-1].args(), l, json.dumps(ev)[:500]),
                          dict(run=R[n - 1].script(), observed=ev, expected=exp))
            return chk.finish()
    mj.result()
    chk.cov["samples"] = [json.dumps(R[0].script())[:800], json.dumps({k: v for k, v in traces[0][1].items() if k != "b"})[:800]]
    return chk.finish()
