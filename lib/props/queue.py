"""C06 C07 C08 (processing queue) and C17 (filter, server and client queues)."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import *

MB = 1048576
SLACK = 8000
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
 Slack = %d
 Nondet = %s
INVARIANT NotExplained
%s
"""
DET = CFG % (SLACK, "FALSE", "CHECK_DEADLOCK TRUE")
NDET = CFG % (SLACK, "TRUE", "CONSTRAINT Seen\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE")

MCCFG = """SPECIFICATION MCSpec
CONSTANTS
 Threads = {%s}
 Queues = {%s}
 Unit = 2
 MaxItems = %d
 MaxOps = %d
 LimSet <- LS
 SizeSet = {%s}
INVARIANTS Fifo Separate
PROPERTIES RefusedOnlyIfFull Bounded EmptyIsEmpty
"""
LS = """---- MODULE MCQ ----
EXTENDS MCLimQueue
LS == {[soft |-> s, hard |-> h, bsoft |-> bs, bhard |-> bh] : s \\in {%s}, h \\in {%s}, bs \\in {%s}, bh \\in {%s}}
====
"""
PDB = """SPECIFICATION %s
CONSTANTS
 Senders = {%s}
 MaxItems = %d
 MaxClock = %d
 MaxRestarts = %d
 TieBreak = TRUE
INVARIANTS OwnData KeysUnique
%s
"""
def models(chk):
    T = thorough()
    def lim(name, th, qs, items, ops, sizes, ls):
        chk.add_model(name, tlc("MCQ", MCCFG % (th, qs, items, ops, sizes), files={"MCQ.tla": LS % ls}, workers=3, timeout=800), name)
    def pdb(name, *a):
        chk.add_model(name, tlc("PctlDb", PDB % a, workers=3, timeout=800), name)
    pid = chk.pid
    if pid in ("C06", "C08"):
        pdb("PctlDb implements LimQueue: 2 readers, 3 products, any clock in 0..2, 1 restart", "Spec", "s1, s2", 3, 2, 1, "PROPERTY Implements")
        pdb("PctlDb: every queued product is received", "LiveSpec", "s1, s2", 2, 1, 1, "PROPERTY Received")
        if T: pdb("PctlDb implements LimQueue: 3 readers, 4 products, 2 restarts", "Spec", "s1, s2, s3", 4, 3, 2, "PROPERTY Implements")
    if pid in ("C07",):
        lim("LimQueue: 2 threads, 1 queue, 4 elements, all limits", "1, 2", "0", 4, 3, "1, 2", ("0, 2", "0, 1, 3", "0, 1", "0, 1, 2"))
        if T: lim("LimQueue: 3 threads, 1 queue, 5 elements", "1, 2, 3", "0", 5, 3, "1, 3", ("0, 2", "0, 3", "0, 1", "0, 2"))
    if pid in ("C17", "C06"):
        lim("LimQueue: 2 threads, 2 queues, 3 elements", "1, 2", "0, 1", 3, 3, "1", ("0, 1", "0, 2", "0", "0"))
        if T: lim("LimQueue: 3 threads, 2 queues, 4 elements", "1, 2, 3", "0, 1", 4, 4, "1", ("0, 1", "0, 2", "0", "0"))

class Sess:
    """One run of the daemon's queue code between an open and a close."""
    def __init__(self, lim, lines): self.lim, self.lines = lim, lines

class Gen:
    """Writes scripts; keeps no model: results are judged by the specification."""
    def __init__(self, r, backend, store): self.r, self.b, self.store = r, backend, store; self.id = r.randrange(1000) * 1000
    def nid(self): self.id += 1; return self.id
    def q(self): return 0 if self.b == "pctl" else self.r.randrange(2)
    def t(self): return self.r.randrange(5) if self.b == "pctl" else self.r.randrange(6)
    def size(self, big=False):
        r = self.r
        if self.b != "pctl": return r.choice([8, 9, 50, 200, 400, 5000])
        if big: return r.choice([MB, MB // 2, MB // 2 + 1, MB // 4, 1, 1000, 300000, MB - 1, MB + 1])
        return r.choice([0, 1, 2, 100, 5000, 8191, 8192, 8193, 20000, 65536])
    def send(self, big=False, q=None): return "S %d %d %d %d" % (self.t(), self.q() if q is None else q, self.nid(), self.size(big))
    def rcv(self, q=None, to=None): return "R 9 %d %d" % (self.q() if q is None else q, self.r.choice([0, 1, 2, 15]) if to is None else to)

def limits(r, small=True):
    soft, hard = r.choice([(0, 0), (0, 3), (2, 4), (3, 0), (3, 3), (5, 2), (1, 1), (4, 8)])
    bs, bh = r.choice([(0, 0), (0, 0), (1, 2), (1, 0), (0, 1), (2, 1)])
    return (soft, hard, bs, bh)

def seq_trace(r, backend, store, nsess, nops, lims=None, clock=True, big=False):
    g = Gen(r, backend, store)
    out = []
    for s in range(nsess):
        lim = lims[s % len(lims)] if lims else limits(r)
        if backend != "pctl": lim = (lim[0], lim[1], 0, 0)
        L = []
        bias = r.choice([0.4, 0.5, 0.7])
        for i in range(nops):
            x = r.random()
            if clock and x < 0.12: L.append(r.choice(["K -5000", "K -1000", "K -1", "K 3000", "U 999995", "U 0", "U 500000", "K -86400000"]))
            elif clock and x < 0.15: L.append("Z 1")
            elif clock and x < 0.18: L.append("Z 0")
            elif x < 0.18 + 0.82 * bias: L.append(g.send(big))
            else: L.append(g.rcv())
        if clock: L.append("Z 0")
        out.append(Sess(lim, L))
    # drain what is left under no limits
    L = []
    for q in ([0] if backend == "pctl" else [0, 1]): L += ["R 9 %d 0" % q] * (nops * nsess // 2 + 3)
    out.append(Sess((0, 0, 0, 0), L)) if backend != "cq" and store == "file" else out[-1].lines.extend(L)
    return dict(backend=backend, store=store, sess=out, nd=False)

def timeouts(backend, store):
    """Timed receives at every phase of the second."""
    L = []
    for us in (0, 1, 1000, 499999, 500000, 900000, 989999, 990000, 998999, 999000, 999998, 999999):
        for to in (0, 1, 9, 15, 101):
            L += ["U %d" % us, "R 9 0 %d" % to]
    L += ["U 990000", "R 9 0 1999"]
    return dict(backend=backend, store=store, sess=[Sess((0, 0, 0, 0), L)], nd=False)

def fifo_clock(backend, store, restart):
    """Same instants, clock set back, restart with the clock behind."""
    a, L, n = [], [], 0
    def S(k, size=20):
        nonlocal n
        for i in range(k): n += 1; L.append("S %d 0 %d %d" % (n % 5, n, size + n))
    L.append("Z 1"); S(4); L.append("K -1"); S(2); L.append("K -999"); S(2); L.append("K 1000"); S(3)
    L += ["R 9 0 0"] * 3; L.append("K -2000"); S(3); L += ["K 2000"]; S(2); L.append("K 1"); S(1)
    if restart:
        a.append(Sess((0, 0, 0, 0), L)); L = []
        L += ["K -10000", "Z 1"]; S(2); L.append("R 9 0 0"); L.append("K 5000"); S(2)
        # retrace every instant used before the restart
        for k in range(8): L.append("K 1000"); S(1)
    L += ["R 9 0 0"] * 32
    a.append(Sess((0, 0, 0, 0), L))
    return dict(backend=backend, store=store, sess=a, nd=False)

def wait_trace(backend):
    L = []
    for i, to in enumerate((20000, 20500, 21001, -1) if backend != "nbspq" else (20000, 20001, -1, -2)):
        L += ["U %d" % (999000 if i % 2 else 100), "W %d %d %d 50 %d" % (0 if backend == "pctl" else i % 2, to, 500 + i, 30 + 20 * i), "R 9 0 1"]
    return dict(backend=backend, store="mem", sess=[Sess((0, 0, 0, 0), L)], nd=True)

def par_trace(r, backend, store, nw, items, nr, lim):
    L = ["P %d %d %d %d" % (nw, items, nr, r.randrange(1 << 20))]
    return dict(backend=backend, store=store, sess=[Sess(lim, L)], nd=True)

def soak(backend, store, n, keep):
    """A long run in which the queue never becomes empty."""
    L = ["S 0 0 %d 400" % i for i in range(1, keep + 1)]
    for i in range(keep + 1, keep + n): L += ["S %d 0 %d 400" % (i % 5, i), "R 9 0 0"]
    L += ["R 9 0 0"] * (keep + 1)
    return dict(backend=backend, store=store, sess=[Sess((0, 0, 0, 0), L)], nd=False)

def scenarios(pid):
    r = random.Random(SEED * 7919 + int(pid[1:]))
    T = []
    n = pick(1, 4)
    if pid == "C06":
        for st in ("file", "mem"):
            T += [timeouts("pctl", st), fifo_clock("pctl", st, st == "file")]
            for i in range(3 * n): T.append(seq_trace(r, "pctl", st, 1, 120, [(0, 0, 0, 0)]))
        T.append(wait_trace("pctl"))
        for i in range(6 * n): T.append(par_trace(r, "pctl", r.choice(["file", "mem"]), 2 + i % 4, 25, 1, r.choice([(0, 0, 0, 0), (3, 6, 0, 0)])))
    if pid == "C07":
        for i in range(8 * n): T.append(seq_trace(r, "pctl", "file" if i % 3 else "mem", 1 if i % 3 == 0 else 3, 60, clock=False, big=i % 2 == 0))
        # every limit, filled to the brim and drained, exact boundaries
        for lim in [(1, 1, 0, 0), (2, 3, 0, 0), (0, 0, 1, 1), (0, 0, 1, 2), (3, 2, 2, 1), (0, 0, 0, 1), (0, 0, 1, 0), (2, 0, 0, 0), (0, 2, 0, 0)]:
            for sz in ([MB], [MB // 2], [MB // 2, 1], [MB - 1, 1, 1], [MB + 1], [0], [MB // 4]):
                L = []; k = 0
                for rep in range(2):
                    for i in range(10): k += 1; L.append("S %d 0 %d %d" % (k % 5, k, sz[i % len(sz)]))
                    L += ["R 9 0 0"] * (3 if rep == 0 else 21)
                T.append(dict(backend="pctl", store="mem", sess=[Sess(lim, L)], nd=False))
        # reload above smaller limits
        for l2 in [(1, 2, 0, 0), (0, 0, 1, 1), (3, 5, 1, 2), (0, 5, 0, 0), (5, 0, 2, 2)]:
            A = ["S 0 0 %d %d" % (i, 400000) for i in range(1, 6)]
            B = []
            for i in range(10, 17): B += ["S 0 0 %d 300000" % i, "R 9 0 0"]
            B += ["S 0 0 %d 100" % i for i in range(20, 26)] + ["R 9 0 0"] * 20
            T.append(dict(backend="pctl", store="file", sess=[Sess((0, 0, 0, 0), A), Sess(l2, B)], nd=False))
        for i in range(4 * n): T.append(par_trace(r, "pctl", "mem", 4, 20, 1, r.choice([(2, 4, 0, 0), (0, 3, 0, 0), (1, 1, 0, 0)])))
    if pid == "C08":
        T.append(fifo_clock("pctl", "file", True))
        for i in range(6 * n): T.append(seq_trace(r, "pctl", "file", 4, 30, [(0, 0, 0, 0)], clock=i % 2 == 1, big=i % 3 == 0))
        for k in (1, 2, 3, 40):     # several restarts with nothing in between; products of every size
            A = ["S %d 0 %d %d" % (i % 5, i, [0, 1, 8192, 100000, 5000][i % 5]) for i in range(1, k + 1)]
            T.append(dict(backend="pctl", store="file", nd=False,
                          sess=[Sess((0, 0, 0, 0), A)] + [Sess((0, 0, 0, 0), [])] * 2 + [Sess((0, 0, 0, 0), ["S 0 0 999 77"] + ["R 9 0 0"] * (k + 2))]))
        # the limits may be lowered by the restart: what is queued is kept
        for i in range(3 * n): T.append(seq_trace(r, "pctl", "file", 4, 20, [(0, 0, 0, 0), limits(r), limits(r)], clock=i % 2 == 1))
        for l2 in [(0, 2, 0, 0), (1, 1, 0, 0), (0, 0, 1, 1), (0, 3, 1, 1)]:
            A = ["S %d 0 %d 400000" % (i % 5, i) for i in range(1, 6)]
            T.append(dict(backend="pctl", store="file", nd=False, sess=[Sess((0, 0, 0, 0), A), Sess(l2, ["R 9 0 0", "S 0 0 50 10"]), Sess((0, 0, 0, 0), ["R 9 0 0"] * 7)]))
        for i in range(2 * n):
            T.append(dict(backend="pctl", store="file", nd=True, sess=[
                Sess((0, 0, 0, 0), ["P 3 8 0 %d" % r.randrange(1 << 20)]), Sess((0, 0, 0, 0), ["R 9 0 0"] * 26)]))
    if pid == "C17":
        for b in ("nbspq", "cq"):
            st = "mem"
            T += [timeouts(b, st), wait_trace(b)]
            for i in range(4 * n): T.append(seq_trace(r, b, st, 1, 150))
            for lim in [(1, 1, 0, 0), (2, 3, 0, 0), (3, 2, 0, 0), (2, 0, 0, 0), (0, 2, 0, 0), (0, 1, 0, 0), (0, 0, 0, 0)]:
                L = []; k = 0
                for rep in range(2):
                    for i in range(12): k += 1; L.append("S 0 %d %d %d" % (i % 2, k, 8 + i * 30))
                    L += ["R 9 0 0", "R 9 1 0"] * (2 if rep == 0 else 12)
                T.append(dict(backend=b, store=st, sess=[Sess(lim, L)], nd=False))
            for i in range(4 * n): T.append(par_trace(r, b, st, 2 + i % 3, 20, 2, r.choice([(0, 0, 0, 0), (2, 4, 0, 0)])))
            T.append(soak(b, st, pick(1500, 8000), 3))
        for i in range(3 * n): T.append(seq_trace(r, "nbspq", "file", 3, 40))
        T += [timeouts("nbspq", "file"), par_trace(r, "nbspq", "file", 3, 20, 2, (0, 0, 0, 0)), soak("nbspq", "file", 500, 3)]
    return T

def execute(exe, k, t):
    d = subdir("w%d" % k)
    ev = []
    for s in t["sess"]:
        lines, rc, err = run_harness(exe, [t["backend"], d, t["store"]] + list(s.lim), s.lines, timeout=100)
        for e in lines:
            if e.get("e") == "open": e["lim"] = list(s.lim); e["kept"] = t["store"] == "file" and t["backend"] != "cq"
        ev += lines
        positions(ev)
        if rc != 0: return ev, dict(rc=rc, err=err, lim=s.lim, script=s.lines)
    shutil.rmtree(d, ignore_errors=True)
    return ev, None

def positions(ev):
    """Position of each value sent in the order in which values are received."""
    pos, n, pend = {}, 0, {}
    for e in ev:
        if e["e"] == "ret" and e.get("v"): n += 1; pos.setdefault(e["v"], n)
    for e in ev:
        if e["e"] == "inv" and e["op"] == "snd":
            if e["v"] not in pos: n += 1; pos[e["v"]] = n
            e["p"] = pos[e["v"]]
    return ev

def main(pid):
    chk = Check(pid)
    chk.assumptions = ["a stop is an orderly close of the databases (the database environment keeps no log)",
                       "promptly = within %d ms" % SLACK]
    pool = ThreadPoolExecutor(NCPU)
    mj = pool.submit(models, chk)
    b = Build()
    exe = b.harness("queue", ["queue.c", "hcommon.c", "hclock.c"], wrap=CLOCKWRAP)
    T = scenarios(pid)
    res = list(pool.map(lambda p: execute(exe, *p), enumerate(T)))
    for (ev, bad), t in zip(res, T):
        if bad:
            chk.violation("the queue code stopped or hung (%s backend, rc=%s, limits %s)" % (t["backend"], bad["rc"], bad["lim"]), dict(bad, last=ev[-3:]))
            return chk.finish()
    for nd, cfg in ((False, DET), (True, NDET)):
        idx = [i for i, t in enumerate(T) if t["nd"] == nd]
        traces = [res[i][0] for i in idx]
        if not traces: continue
        rej = check_traces_nd(chk, "TraceQueue", cfg, traces) if nd else check_traces(chk, "TraceQueue", cfg, traces)
        if rej:
            n, l = rej[0][0], rej[0][1]
            t, tr = T[idx[n - 1]], traces[n - 1]
            l = min(max(l, 1), len(tr))
            exp = "" if nd else explain("TraceQueue", cfg, tr, l)
            chk.violation("%s queue (%s): event %d is not a step of LimQueue: %s after %s" % (t["backend"], t["store"], l, json.dumps(tr[l-1]), json.dumps(tr[max(0, l-3):l-1])),
                          dict(backend=t["backend"], store=t["store"], sessions=[(s.lim, s.lines) for s in t["sess"]], observed=tr[max(0, l-20):l], expected=exp))
            return chk.finish()
    mj.result()
    chk.cov["samples"] = [dict(backend=t["backend"], limits=t["sess"][0].lim, script=t["sess"][0].lines[:6], trace=res[i][0][:6]) for i, t in list(enumerate(T))[:2]]
    return chk.finish()
