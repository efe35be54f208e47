"""C18 (the filter server: fifos and programs)."""
import json, random
from concurrent.futures import ThreadPoolExecutor
from vlib import *

WRAP = ("e_nbspq_rcv_filter", "poll", "popen", "pclose")
TIMEOUT = 3
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
ALIAS Alias
CHECK_DEADLOCK TRUE
"""
MC = """SPECIFICATION Spec
CONSTANTS N = %d
 Actions = %d
INVARIANTS Good InOrder Programs Complete Present Handles Counted
CHECK_DEADLOCK FALSE
"""
word = lambda n: [n >> 16, n & 0xffff]
MEM = 2
PSIZE = 75              # bytes for the path in a packet; set by main
CHARS = "abcdefghijklmnopqrstuvwxyz0123456789_-+."

class World:
    """A history as it is written: what the script itself did, so that it makes sense."""
    def __init__(w, r, cap, mem=False, sys=()):
        w.r, w.cap, w.mem, w.sys = r, cap, mem, list(sys)
        w.ev = []; w.node = {}; w.ino = 0; w.rd = {}; w.prods = []; w.where = {}; w.room = []; w.paths = set(); w.bad = set()
    def do(w, line, **e): w.ev.append((line, e))
    def mk(w, p, k):
        if p in w.node: return
        i = 0
        if k == "fifo": w.ino += 1; i = w.ino; w.room.append(w.cap(i)); w.where[i] = p
        w.node[p] = (k, i); w.paths.add(p)
        w.do("mk %s %s" % (p, k), e="mk", p=p, k=k, ino=i)
    def rm(w, p):
        if p in w.node: del w.node[p]; w.do("rm " + p, e="rm", p=p)
    def ro(w, p):
        k, i = w.node.get(p, ("", 0))
        if k == "fifo" and i not in w.rd:
            w.rd[i] = p; w.do("ro %s %d %d" % (p, i, 4096 if w.room[i-1] == 1 else 1048576), e="ro", p=p)
    def rc(w, i):
        if i in w.rd: del w.rd[i]; w.do("rc %d" % i, e="rc", ino=i)
    def read(w, i, n=0):
        if i in w.rd: w.do("rd %d %d" % (i, n), e="rd", ino=i, max=n or 1000000)
    def prod(w, name=None, codes=None):
        r = w.r; n = len(w.prods) + 1
        codes = [r.choice([0, 1, 5, 127, 128, 255, r.randrange(256)]) for _ in range(4)] if codes is None else codes
        name = "".join(r.choice(CHARS) for _ in range(r.choice([1, 5, 17, 18]))) if name is None else name
        seq = r.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, r.randrange(1 << 32)])
        path = r.choice(["/s/", "/spool/kwbc/", "a/"]); path += "".join(r.choice(CHARS) for _ in range(r.choice([1, 20, 20] + ([] if w.mem else [PSIZE - len(path) - 2 - len(str(n))])))) + "_%d" % n
        stored = 0
        if w.mem and r.random() < 0.7:
            stored = r.choice([1, 9, 10, 99, 100, 1000])
            w.do("store %s %d" % (path, stored), e="store")
        w.prods.append(dict(dec=list(str(seq).encode()), seq=word(seq), type=codes[0], cat=codes[1], code=codes[2], ch=codes[3], fname=list(name.encode()), fpath=path, stored=stored))
        w.do("prod %d %s %s %d %d %d %d %d" % ((n, name, path, seq) + tuple(codes)), e="prod", pid=n)
    def kill(w, p): w.do("kill " + p, e="kill", p=p)
    def startable(w, p, ok):
        if ok == (p in w.bad): (w.bad.discard if ok else w.bad.add)(p); w.do(("start " if ok else "nostart ") + p, e="start" if ok else "nostart", p=p)
    def simple(w, c): w.do(c, e=c)
    def look(w):
        for i in sorted(w.rd): w.read(i)
        w.simple("pr"); w.simple("report")
    def end(w, quit=True):
        w.look()
        if quit: w.simple("quit"); [w.read(i) for i in sorted(w.rd)]; w.simple("pr")
        return dict(ev=w.ev, sys=w.sys, mem=w.mem, paths=sorted(w.paths), prods=w.prods, room=w.room or [1])

def history(seed, n, small=0.4, mem=False, progs=True, nf=4):
    """Random: filters come and go, readers read or not, programs die, reloads."""
    r = random.Random(seed); full = set()
    sys = r.choice([[], ["/opt/f/one"], ["/opt/f/one", "/opt/f/two", "D/p0"]]) if progs else []
    w = World(r, lambda i: 1 if r.random() < small else 1000, mem, sys)
    fp = ["D/f%d" % k for k in range(nf)]; pp = ["D/p%d" % k for k in range(3)] if progs else []; op = ["D/x%d" % k for k in range(2)]
    def make(p):
        k = "fifo" if p in fp else "prog" if p in pp else "plain"
        if r.random() < 0.15: k = r.choice(["fifo", "prog", "plain", "dir", "link"])
        w.mk(p, k)
    for p in fp + pp + op:
        if r.random() < 0.7: make(p)
        if r.random() < 0.8: w.ro(p)
    if pp and r.random() < 0.3: w.startable(r.choice(pp + sys), False)
    w.simple("go")
    for _ in range(n):
        x = r.random()
        if x < 0.4: w.prod()
        elif x < 0.55 and w.rd: w.read(r.choice(sorted(w.rd)), r.choice([0, 0, 1, 2]))
        elif x < 0.6 and w.rd: w.rc(r.choice(sorted(w.rd)))
        elif x < 0.7: w.ro(r.choice(fp))
        elif x < 0.75: w.rm(r.choice(fp + pp + op))
        elif x < 0.81: make(r.choice(fp + pp + op))
        elif x < 0.85 and pp + sys: w.kill(r.choice(pp + sys))
        elif x < 0.88 and pp + sys: w.startable(r.choice(pp + sys), r.random() < 0.6)
        elif x < 0.92: w.simple("reload")
        elif x < 0.95: w.simple("report")
        elif x < 0.97: w.simple("pr")
        else:
            for i in sorted(w.rd): w.read(i)
    return w.end(r.random() < 0.6)
def steady(seed, n, k):
    """Many filters that stay (the table grows several times), all of them always served."""
    r = random.Random(seed); w = World(r, lambda i: 1000, False, ["/opt/f/s%d" % j for j in range(r.choice([0, 1, 3]))])
    for j in range(k): w.mk("D/f%d" % j, "fifo"); w.ro("D/f%d" % j)
    for j in range(r.choice([0, 2])): w.mk("D/p%d" % j, "prog")
    w.simple("go")
    for _ in range(n):
        w.prod()
        x = r.random()
        if x < 0.1: w.simple("reload")
        elif x < 0.15: w.look()
        elif x < 0.25:
            j = "D/f%d" % (k + len(w.node)); w.mk(j, "fifo"); w.ro(j)
    return w.end()
def stuck(seed, n):
    """Filters that never read among filters that always do."""
    r = random.Random(seed); w = World(r, lambda i: 1 if i % 2 else 1000, False, ["/opt/f/one"])
    for j in range(5): w.mk("D/f%d" % j, "fifo"); w.ro("D/f%d" % j)
    w.mk("D/p0", "prog"); w.simple("go")
    for _ in range(n):
        w.prod()
        for i in sorted(w.rd):
            if i % 2 == 0: w.read(i)
        if r.random() < 0.2: i = r.choice([1, 3, 5]); w.read(i, 1)
    return w.end()
def deaths(seed):
    """Each program dies at each place and comes back; readers of fifos likewise."""
    r = random.Random(seed); w = World(r, lambda i: 1000, False, ["/opt/f/one"])
    w.mk("D/p0", "prog"); w.mk("D/f0", "fifo"); w.ro("D/f0"); w.mk("D/f1", "fifo"); w.ro("D/f1"); w.simple("go")
    for k in range(6):
        for v in ("/opt/f/one", "D/p0"):
            w.prod(); w.kill(v); w.prod(); w.prod()
            if k % 2: w.startable(v, False); w.prod(); w.kill(v); w.prod(); w.startable(v, True); w.prod()
            w.simple("pr")
        i = min(w.rd) if w.rd else 0
        if i: p = w.rd[i]; w.read(i); w.rc(i); w.prod(); w.prod(); w.ro(p); w.prod(); w.read(i)
        if k % 3 == 2:                 # the fifo is replaced while the server writes to the old one
            p = w.rd[i]; w.rm(p); w.mk(p, "fifo"); w.prod(); w.read(i); w.rc(i); w.prod(); w.ro(p); w.prod(); w.look()
        w.simple("reload")
    return w.end()
def kinds(seed):
    """Everything that can be in the directory, at the start and at reloads, in any place of it."""
    r = random.Random(seed); w = World(r, lambda i: 1000, False, r.choice([[], ["/opt/f/one"]]))
    ks = ["fifo", "prog", "plain", "dir", "link"]
    def fill():
        for j in range(8):
            p = "D/%s%d" % (r.choice("abcxyz"), j)
            if p not in w.node: w.mk(p, r.choice(ks)); w.ro(p)
    fill(); w.simple("go"); w.prod(); w.look()
    for _ in range(4):
        for p in sorted(w.node):
            if r.random() < 0.4: w.rm(p)
        if r.random() < 0.5: w.prod()
        fill(); w.simple("reload"); w.prod(); w.look()
    return w.end()

def scenarios():
    S = SEED * 1000; T = []
    T += [history(S + k, pick(60, 120)) for k in range(pick(60, 250))]
    T += [history(S + 300 + k, pick(50, 120), small=0.0) for k in range(pick(20, 60))]
    T += [history(S + 400 + k, pick(40, 100), mem=True, nf=1) for k in range(pick(5, 20))]
    T += [history(S + 500 + k, 60, progs=False, nf=6, small=0.7) for k in range(pick(6, 40))]
    T += [steady(S + 600 + k, pick(20, 50), (1, 2, 4, 7, 9, 16)[k % 6]) for k in range(pick(6, 24))]
    T += [stuck(S + 700 + k, pick(20, 60)) for k in range(pick(5, 16))]
    T += [deaths(S + 800 + k) for k in range(pick(5, 16))]
    T += [kinds(S + 900 + k) for k in range(pick(20, 80))]
    return T

def execute(exe, i, t):
    d = subdir("c18-%04d" % i); D = d + "/dev/"; r = random.Random(i)
    for s in ("dev", "spool", "db", "cspool"): os.makedirs(d + "/" + s, exist_ok=True)
    real = lambda p: D + p[2:] if p.startswith("D/") else p
    back = lambda p: "D/" + p[len(D):] if p.startswith(D) else p
    lst = ""
    for p in t["sys"] + t["sys"][:1]: lst += r.choice(["", " ", ":", "\t"]) + real(p) + r.choice([":", " ", "\t", ": "])
    o = dict(spooltype=MEM if t["mem"] else 1, spooldir=d + "/spool", dbhome=d + "/db", dbcachemb=8, cspoolbdb_dir=d + "/cspool", devdir=d + "/dev", filterlist=lst.strip(": \t") if r.random() < 0.5 else lst,
             mspoolbdb_ndb=2, mspoolbdb_dbcache_mb=1, mspoolbdb_maxsize_per128=64, mspoolbdb_nslots=3,
             fifo_write_timeout_ms=TIMEOUT, filterserver_statefile=d + "/fstate", queue_read_timeout_ms=2)
    with open(d + "/conf", "w") as f: f.write("".join("set %s {%s}\n" % kv for kv in o.items()))
    full = lambda s: " ".join(real(x) for x in s.split(" "))
    out, rc, err = run_harness(exe, [], ["init " + d + "/conf"] + [full(x[0]) for x in t["ev"]], timeout=120, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    if not out or out[0].get("st") != 0: return None, dict(rc=rc, err=err[-800:], out=out[:2])
    psize = out[0]["size"] - 12 - 27
    if t["ev"] == []: return psize, None
    prods = [dict(p, fpath=list(p["fpath"].encode())) for p in t["prods"]]
    tr = [dict(e="meta", system=t["sys"], dir=[p for p in t["paths"]], room=t["room"], prods=prods, mem=t["mem"], pathsize=psize, timeout=TIMEOUT)]
    k = 0
    for o in out[1:]:
        o = dict(o)
        if "rows" in o: o["rows"] = [[back(x[0])] + x[1:] for x in o["rows"]]
        if o.get("p"): o["p"] = back(o["p"])
        e = t["ev"][k][1]
        if not (o["e"] == "pr" and o["p"]): o.update({a: b for a, b in e.items() if a not in ("p",) or a not in o}); k += 1
        o.pop("quits", None)
        tr.append(o)
    return tr, (None if rc == 0 and k == len(t["ev"]) else dict(rc=rc, err=err[-800:], after=[x[0] for x in t["ev"][max(0, k-8):k+1]], last=tr[-3:]))

def main(pid):
    chk = Check(pid)
    chk.assumptions = ["popen and pclose are stand-ins that give one end of a pipe; the script holds the other end"]
    pool = ThreadPoolExecutor(NCPU)
    mj = pool.submit(lambda: [chk.add_model("Filters %d announcements %d actions" % c, tlc("MCFilters", MC % c, workers=3, timeout=800), "a server with two programs and three fifos, readers and programs that do what they want between the writes") for c in pick([(3, 4)], [(4, 4), (3, 5)])])
    b = Build(); exe = b.harness("filters", ["filters.c", "hcommon.c"], wrap=WRAP)
    global PSIZE
    PSIZE, bad = execute(exe, 9999, dict(sys=[], mem=False, ev=[]))
    if bad: raise CheckError("the filter server's configuration is not accepted: %s" % bad)
    T = scenarios()
    hung = []
    def one(p):
        if len(hung) >= 4: return None            # no need to wait for the others
        r = execute(exe, *p)
        if r[0] and r[0][-1].get("hung"): hung.append(p[0])
        return r
    res = list(pool.map(one, enumerate(T)))
    T = [T[i] for i in range(len(T)) if res[i]]; res = [x for x in res if x]
    for i, (tr, bad) in enumerate(res):
        if bad and not (tr and tr[-1].get("hung")):          # the hung ones are judged by the specification
            r2 = execute(exe, i, T[i])
            if r2[1]:
                chk.violation("the filter server stopped (rc=%s)" % r2[1].get("rc"), dict(r2[1]))
                return chk.finish()
            res[i] = r2
    rej = check_traces(chk, "TraceFilters", CFG, [r[0] for r in res], timeout=800)
    for t, l, _ in rej[:3]:
        i = t - 1; tr2, _ = execute(exe, i, T[i])
        rej2 = check_traces(chk, "TraceFilters", CFG, [tr2], timeout=400)
        if rej2:
            l = rej2[0][1]; ev = tr2[l] if l < len(tr2) else None
            short = {k: (v if not isinstance(v, list) or len(v) < 80 else v[:80]) for k, v in (ev or {}).items()}
            chk.violation("history %d: event %d is not a step of the specification: %s" % (i, l, json.dumps(short)),
                          dict(system=T[i]["sys"], script=[x[0] for x in T[i]["ev"]][:200], event=ev, last=[{k: v for k, v in x.items() if k != "b"} for x in tr2[max(1, l-12):l+1]], expected=explain("TraceFilters", CFG, tr2, l)))
            break
    mj.result()
    chk.cov["samples"] = [dict(system=t["sys"], script=[x[0] for x in t["ev"]][:8]) for t in T[:3]]
    return chk.finish()
