"""C11 (memory of products), C14 C15 (memory spool), C16 (its concurrent readers)."""
import random
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from props import proc

WRAP = ("spoolbdb_write2", "spoolbdb_read")
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
VIEW View
ALIAS Alias
CHECK_DEADLOCK TRUE
"""
CFGS = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
CONSTRAINT Seen
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""
MCR = """SPECIFICATION Spec
CONSTANTS Seqs = {1, 2%s}
 MaxOps = %d
INVARIANTS Refines LatestWins
"""
MCSL = """SPECIFICATION MCSpec
CONSTANTS Threads = {%s}
 NotFound <- NF
 Max = %d
 Ops = %d
INVARIANTS AtMost Disjoint NoLeak Unchanged
PROPERTY AllServed
"""
def models(chk):
    T = thorough()
    if chk.pid == "C11":
        chk.add_model("RtxDb", tlc("MCRtxDb", MCR % ((", 3", 7) if T else ("", 7)), workers=4, timeout=800), "2 generations with restarts implement RtxDb: %d products, 7 operations" % (3 if T else 2))
    if chk.pid in ("C14", "C15"):
        chk.add_model("spools", tlc("MCSpool", proc.MCS % ((3, 5) if T else (3, 4)), workers=4, timeout=800), "spools: 3 slots, 2 names, %d operations" % (5 if T else 4))
    if chk.pid == "C16":
        for th, m, o in ([("1, 2, 3, 4", 1, 2), ("1, 2, 3, 4", 2, 2)] if T else []) + [("1, 2, 3", 1, 2), ("1, 2, 3", 2, 2)]:
            chk.add_model("slots %d %s" % (m, th), tlc("MCSlots", MCSL % (th, m, o), workers=4, timeout=800, deadlock=True), "%d slots, threads %s (the last one stores), %d calls each, everyone served" % (m, th, o))

def text(c, d):
    o = dict(spooltype=c["spool"], spooldir=d + "/spool", dbhome=d + "/db", dbcachemb=8, rtxdb_slots=100 if c["on"] else 0, feedmode=1,
             rtxdb_dbfname="rtx.db" if c["keep"] else "", mspoolbdb_ndb=c["ndb"], mspoolbdb_dbcache_mb=1,
             mspoolbdb_maxsize_per128=c["per128"], mspoolbdb_nslots=c["nslots"], cspoolbdb_dir=d + "/cspool")
    return "".join("set %s {%s}\n" % kv for kv in o.items())
def conf(**kw):
    c = dict(spool=2, on=True, keep=True, ndb=2, per128=1, nslots=3); c.update(kw); return c
word = lambda n: [n >> 16, n & 0xffff]

def rtx(seed, n, keep=True, on=True):
    r = random.Random(seed)
    pool = [r.choice([1, 2, 5, 103, 0xff, 0x100, 0x1ff, 0x67, 0x67000000, 0x7fffffff, 0x80000000, 0xffffffff, 65536, 0x01000000, 103 << 8, r.randrange(1 << 32)]) for _ in range(r.choice([3, 6, 12]))]
    c = conf(spool=1, on=on, keep=keep); ev = []
    for i in range(n):
        x = r.random(); q = r.choice(pool)
        if x < 0.35: o = r.randrange(2); ev.append((dict(e="P", q=word(q), o=o), "P %d %d" % (q, o)))
        elif x < 0.45: ev.append((dict(e="T"), "T"))
        elif x < 0.5: ev.append(c)
        else: ev.append((dict(e="L", q=word(q)), "L %d" % q))
    for q in pool: ev.append((dict(e="L", q=word(q)), "L %d" % q))
    return dict(conf=c, ev=ev)
def rtxall(keep):
    """Every order of recordings, truncations and restarts of length 4, looked up at the end."""
    c = conf(spool=1, keep=keep); ev = []; q = 100
    for a in range(256):
        q += 1
        for k in range(4):
            x = (a >> (2 * k)) & 3
            if x < 2: ev.append((dict(e="P", q=word(q), o=x), "P %d %d" % (q, x)))
            elif x == 2: ev.append((dict(e="T"), "T"))
            elif a % 5 == 0: ev.append(c)
            for p in (q, q - 1, q - 2): ev.append((dict(e="L", q=word(p)), "L %d" % p))
    return dict(conf=c, ev=ev)

NAMES = ["a/kwbc_saus70+metar.%06d_%d" % (k, k * 7919) for k in range(40)]
def ins(k, id, n): return (dict(e="I", key=NAMES[k], n=n), "I %s %d %d" % (NAMES[k], id, n))
def get(k): return (dict(e="O", key=NAMES[k]), "O " + NAMES[k])
def size(k): return (dict(e="Z", key=NAMES[k]), "Z " + NAMES[k])
def fails(k): return (dict(e="X"), "X %d" % k)

def mem(seed, n, c, nofile=0.0, hold=True):
    """Random stores and reads; names are few, so that they are stored again."""
    r = random.Random(seed); ev = []; K = r.choice([4, 9, 25]); mx = 8192 * c["per128"]; open_ = []
    kinds = r.choice([[100, 900], [mx // 2, mx // 3], [mx, 1], [mx + 1, mx // 4, 0], [mx // 8, mx // 5, mx // 2 + 1]])
    for i in range(n):
        x = r.random(); k = r.randrange(K)
        if x < 0.45:
            if r.random() < nofile: ev.append(fails(r.choice([1, 1, 2, 3, 4])))
            ev.append(ins(k, seed * 1000 + i, max(0, r.choice(kinds) + r.choice([0, 0, 0, 1, -1]))))
            if r.random() < 0.5: ev.append(get(k))
        elif x < 0.85: ev.append(get(k))
        elif x < 0.9: ev.append(size(k))
        elif hold and x < 0.95 and len(open_) < c["nslots"] - 1: ev.append((dict(e="H", key=NAMES[k]), "H " + NAMES[k])); open_.append(1)
        elif open_: ev.append("close"); open_.pop()
    for k in range(K): ev.append(get(k))
    return dict(conf=c, ev=ev)
def exact(c):
    """Partitions filled exactly, by one more and by one less."""
    ev = []; mx = 8192 * c["per128"]; i = 0
    for d in (-1, 0, 1):
        for parts in ((mx + d,), (mx // 2, mx // 2 + d), (mx // 4, mx // 4, mx // 4, mx // 4 + d), (1, mx - 1 + d), (0, mx + d, 0)):
            for p in parts: i += 1; ev.append(ins(i % 40, i, p))
            for k in range(40): ev.append(get(k))
    return dict(conf=c, ev=ev)
def nospace(c):
    """Every number of failing writes at every fill of the spool."""
    ev = []; mx = 8192 * c["per128"]; i = 0
    for fill in range(0, 3 * c["ndb"] + 1):
        for f in range(0, 5):
            for j in range(fill): i += 1; ev.append(ins(i % 40, i, mx // 3))
            ev.append(fails(f)); i += 1; ev.append(ins(i % 40, i, mx // 3 if f % 2 else 10)); ev.append(fails(0))
            for k in range(40): ev.append(get(k))
    return dict(conf=c, ev=ev)

def slots(seed, nslots, threads, n, missing=0.4, writer=True):
    r = random.Random(seed); names = NAMES[:4]
    c = conf(nslots=nslots, per128=64); ev = []
    for k in range(3): ev.append(ins(k, 9000 + k, 600 + k))
    th = []
    for t in range(threads):
        ops = []
        for i in range(n):
            if r.random() < 0.4: ops.append(".%d" % r.choice([50, 500, 2000, 5000]))
            ops.append("+" + (NAMES[3] if r.random() < missing else r.choice(names[:3])))
            if r.random() < 0.6: ops.append(".%d" % r.choice([100, 1000, 4000]))
            ops.append("-")
        th.append(ops)
    if writer:
        ops = []
        for i in range(n): ops += [".%d" % r.choice([100, 2000, 4000]), "=%s,%d,%d" % (r.choice(names[:3]), 7000 + seed * 100 + i, r.choice([5, 700, 3000]))]
        th.append(ops)
    return dict(conf=c, ev=ev, threads=th, seed=seed)

def burst(seed, nslots, waiters, rounds):
    """One thread holds every buffer until others wait, then releases all at once."""
    r = random.Random(seed); c = conf(nslots=nslots, per128=64)
    ev = [ins(k, 9000 + k, 600 + k) for k in range(3)]
    hold = []
    for i in range(rounds): hold += ["+" + r.choice(NAMES[:3]) for k in range(nslots)] + [".9000"] + ["-"] * nslots + [".%d" % r.choice([1, 3000])]
    th = [hold]
    for t in range(waiters):
        ops = []
        for i in range(rounds): ops += [".%d" % r.choice([4000, 6000, 8000]), "+" + r.choice(NAMES[:3])] + [".%d" % r.choice([1, 1000])] + ["-"]
        th.append(ops)
    return dict(conf=c, ev=ev, threads=th, seed=seed)

def scenarios(pid):
    s = SEED * 100 + int(pid[1:]); q = pick(1, 6); T = []
    if pid == "C11":
        T += [rtxall(True), rtxall(False)]
        for k in range(10 * q): T.append(rtx(s * 50 + k, 300, keep=k % 3 != 2, on=k % 7 != 6))
    if pid in ("C14", "C15"):
        for ndb in (1, 2, 3, 5): T += [exact(conf(ndb=ndb, spool=2 + ndb % 2))] if pid == "C14" else [nospace(conf(ndb=ndb, spool=2 + ndb % 2))]
        for k in range(14 * q):
            T.append(mem(s * 50 + k, 250, conf(spool=2 + k % 2, ndb=[1, 2, 3, 4, 8][k % 5], per128=[1, 1, 2, 16, 64][(k // 2) % 5]), 0.25 if pid == "C15" else 0.05))
        for k in range(2 * q): T.append(mem(s * 70 + k, 200, conf(spool=2, ndb=2 + k % 2, per128=[120, 128][k % 2]), 0.0))
    if pid == "C16":
        for k in range(30 * q): T.append(slots(s * 50 + k, 1 + k % 3, 2 + k % 4, 5, [0.4, 0.0, 0.7][k % 3], k % 2 == 0))
        for k in range(12 * q): T.append(burst(s * 90 + k, 2 + k % 3, 2 + k % 2, 3))
    return T

def execute(exe, k, t):
    d = subdir("s%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    for x in ("spool", "db", "cspool"): os.makedirs(os.path.join(d, x))
    runs, cur = [], [t["conf"]]
    for e in t["ev"]:
        if isinstance(e, dict): runs.append(cur); cur = [e]
        else: cur.append(e)
    runs.append(cur)
    tr, ctr = [], None
    for evs in runs:
        c = evs[0]
        with open(d + "/conf", "w") as f: f.write(text(c, d))
        sc, want = [], []
        for e in evs[1:]:
            if e == "close": sc.append("h"); want.append(dict(e="h")); continue
            sc.append(e[1]); want.append(dict(e[0]))
        if t.get("threads"):
            for i, ops in enumerate(t["threads"]):
                for j in range(0, len(ops), 40): sc.append("Y %d %s" % (i, " ".join(ops[j:j+40])))
            sc.append("G")
            for i in range(c["nslots"]): sc.append("H " + NAMES[0]); want.append(dict(e="H", key=NAMES[0]))
        lines, rc, err = run_harness(exe, [d + "/conf"], sc, timeout=120, cwd=d)
        if not lines or lines[0].get("e") != "start": return tr, ctr, dict(rc=rc, err=err, lines=lines[:2])
        st = lines.pop(0)
        tr.append(dict(e="R", st=st["st"], on=c["on"], keep=c["keep"], ndb=c["ndb"], max=8192 * c["per128"]))
        if st["st"] != 0: return tr, ctr, dict(rc=rc, err=err, start=st)
        if t.get("threads"):
            a = len(evs) - 1
            z = [i for i, x in enumerate(lines) if x.get("e") in ("joined", "stuck")]
            if not z: return tr, ctr, dict(rc=rc, err=err, last=lines[-5:])
            held = {w["key"]: o["v"] for w, o in zip(want[:a], lines[:a])}
            ctr = [dict(e="start", max=c["nslots"], held=[dict(k=k, v=v) for k, v in held.items()])] + lines[a:z[0]+1]
            ctr = prophecy(ctr)
            if lines[z[0]]["e"] == "stuck": return tr, ctr, None
            lines = lines[:a] + lines[z[0]+1:]
            tail = lines[a:]
            if len(tail) < c["nslots"] or tail[-1].get("e") == "stuck": return tr, ctr + [dict(e="stuck", after="all threads have closed theirs")], None
            if any(o["sd"] < 0 for o in tail): return tr, ctr + [dict(e="stuck", after="a buffer was not free: %s" % tail)], None
            continue
        for w, o in zip(want, lines): w.update(o); tr.append(w)
        if lines and lines[-1].get("e") == "stuck": tr.append(dict(e="stuck")); break
        if rc != 0 or len(lines) < len(sc): return tr, ctr, dict(rc=rc, err=err, script=sc[max(0, len(lines) - 8):len(lines) + 1])
    shutil.rmtree(d, ignore_errors=True)
    return tr, ctr, None

def prophecy(ctr):
    """The buffer that an open returns, put in its call; that of a close is the one its thread opened."""
    out, pend, mine = [], {}, {}
    for e in ctr:
        e = dict(e)
        if e["e"] == "inv":
            e.setdefault("v", ""); e["sd"] = (mine[e["t"]].pop(0) if mine.get(e["t"]) else 99) if e["op"] == "close" else -1
            pend[e["t"]] = e
        elif e["e"] == "ret":
            p = pend[e["t"]]
            if p["op"] == "open":
                p["sd"] = e["sd"]
                if e["sd"] >= 0: mine.setdefault(e["t"], []).append(e["sd"])
        out.append(e)
    return out

def main(pid):
    chk = Check(pid)
    chk.assumptions = ["space failures of the memory spool are injected at the put operation of the database"]
    pool = ThreadPoolExecutor(NCPU)
    mj = pool.submit(models, chk)
    b = Build()
    exe = b.harness("store", ["store.c", "hcommon.c"], wrap=WRAP)
    T = scenarios(pid)
    res = list(pool.map(lambda p: execute(exe, *p), enumerate(T)))
    for i, (tr, ctr, bad) in enumerate(res):
        if bad:
            r2 = execute(exe, i, T[i])
            if r2[2]:
                chk.violation("the daemon's spool code stopped (rc=%s) with %s" % (r2[2].get("rc"), T[i]["conf"]), dict(r2[2], last=r2[0][-3:]))
                return chk.finish()
            res[i] = r2
    det = [i for i in range(len(T)) if not T[i].get("threads")]
    nd = [i for i in range(len(T)) if T[i].get("threads")]
    if det:
        rej = check_traces(chk, "TraceStore", CFG, [res[i][0] for i in det], timeout=800)
        if rej:
            i = det[rej[0][0] - 1]
            tr2, _, bad = execute(exe, i, T[i])
            rej2 = check_traces(chk, "TraceStore", CFG, [tr2], timeout=400)
            if rej2:
                l = rej2[0][1]; ev = tr2[l-1] if l <= len(tr2) else None
                chk.violation("run %d (%s): event %d is not a step of the specification: %s" % (i, T[i]["conf"], l, json.dumps(ev)),
                              dict(config=T[i]["conf"], last=tr2[max(0, l-12):l], expected=explain("TraceStore", CFG, tr2, l)))
    if nd:
        bad = check_traces_nd(chk, "TraceSlots", CFGS, [res[i][1] for i in nd], timeout=800)
        for k, l, _ in bad[:1]:
            i = nd[k - 1]; c = res[i][1]
            # a stop in a concurrent run need not repeat: the recorded run itself is the evidence
            chk.violation("concurrent readers of the memory spool (%s): event %d has no explanation: %s" % (T[i]["conf"], l, json.dumps(c[l-1]) if l <= len(c) else "end"),
                          dict(config=T[i]["conf"], threads=T[i]["threads"], trace=c[:l]))
    mj.result()
    chk.cov["samples"] = [dict(config=T[i]["conf"], events=(res[i][1] or res[i][0])[:4]) for i in range(min(3, len(T)))]
    if pid in ("C14", "C15") and not chk.violations: proc.also(chk, b, pid)
    return chk.finish()
