"""C20 (protocols of the clients), C21 (table of connections), C22 (delivery to the clients)."""
import json, os, random, shutil, struct
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from props.slave import patt, hx, BLK
import props.wire as W

CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
CHECK_DEADLOCK TRUE
"""
WRAP = CLOCKWRAP + ("poll", "write", "sleep", "bind", "gethostbyaddr", "hosts_access", "connqueue_open", "connqueue_close", "connqueue_snd", "connqueue_rcv",
                    "e_nbspq_rcv_server", "pthread_create")
WAKE, IDSECS = 100000, 2000
FIFOMAX = 255

class Product:
    def __init__(s, pid, r, size=None, prefix=None, emwin=None):
        s.pid = pid; s.seq = r.choice([pid, 0x7fffffff - pid, 0xffffffff - pid, (pid << 16) + r.randrange(65536)])
        s.codes = [r.choice([0, 1, 5, 127, 128, 255]) for _ in range(4)]
        s.name = (prefix or r.choice(["kwbc_saus70-", "tjsj_fxus62-", "kwbc_sxus1-", "phfo_ftpa-"])) + "a%d" % pid
        s.base = s.name + ".%d_%d" % (r.randrange(10**6), pid)
        s.size = r.choice([1, 10, 100, 1024, 5000, 65535, 65536, 65537, 131072, 140000, 0]) if size is None else size
        s.emwin = emwin or ("pass" if r.random() < 0.75 else r.choice(["no", "no2", "no255", "toolong", "longname"]))
        s.esize = r.choice([1, 1023, 1024, 1025, 3000, 0, 10240])
        s.ename = "E%06dX.TXT" % pid if r.random() < 0.7 else "e%d.zis" % pid
        s.allow = dict(name=[], ip=[], all=-1)
        s.text = r.randbytes(s.size); s.etext = r.randbytes(s.esize)
        s.wire = {}
    def build(s, d, psize):
        with open(d + "/spool/p/" + s.base, "wb") as f: f.write(s.text)
        with open(d + "/spool/emw/%d" % s.pid, "wb") as f: f.write(s.etext)
        path = (d + "/spool/emw/%d" % s.pid).encode()
        if s.emwin == "pass": a = b"\0" + struct.pack(">HH", len(path), len(s.ename)) + path + s.ename.encode()
        elif s.emwin == "toolong": a = b"\0" + struct.pack(">HH", 60000, 5)
        elif s.emwin == "longname": a = b"\0" + struct.pack(">HH", len(path), 50) + path
        else: a = bytes([{"no": 1, "no2": 2, "no255": 255}[s.emwin]])
        with open(d + "/ans/" + s.name, "wb") as f: f.write(a)
        nb = (s.size + BLK - 1) // BLK; w = b""
        for k in range(1, nb + 1):
            blk = s.text[(k - 1) * BLK:k * BLK]
            w += struct.pack(">III", 1, 54 + len(blk), 0) + struct.pack(">I4B", s.seq, *s.codes) + s.base.encode().ljust(37, b"\0") + b"\0" + struct.pack(">HHI", nb, k, len(blk)) + blk
        s.wire[1] = w, [(p * (66 + BLK) + 8, 4) for p in range(nb)]
        s.wire[2] = W.packet(None, psize, seq=s.seq, codes=s.codes, fname=s.name.encode(), fpath=(d + "/spool/p/" + s.base).encode()), []
        np = (s.esize + 1023) // 1024; w = b""; hole = []
        for k in range(1, np + 1):
            blk = s.etext[(k - 1) * 1024:k * 1024]
            h = "/PF%-12s/PN %-5d/PT %-5d/CS %-6d/FD" % (s.ename.upper(), k, np, sum(blk))
            hole.append((len(w) + 6 + len(h), 22))
            w += bytes(x ^ 0xff for x in bytes(6) + (h + "\0" * 22 + " " * (80 - 24 - len(h)) + "\r\n").encode() + blk.ljust(1024, b"\0") + bytes(6))
        s.wire[4] = w, hole
    def meta(s): return dict(name=list(s.name.encode()), size=[len(s.wire[p][0]) for p in (1, 2, 4)], emwin=s.emwin == "pass", allow=s.allow)
    def line(s): return "prod %d %s %s %d %d %d %d %d" % (s.pid, s.name, "/p/" + s.base, s.seq, *s.codes)

def blank(b, holes, off=0):
    b = bytearray(b)
    for p, n in holes:
        if p < len(b): b[p:min(p + n, len(b))] = bytes(min(n, len(b) - p))
    return bytes(b)
def segments(stream, prods, cand=(1, 2, 4)):
    """What a connection received, as products."""
    out = []; pos = 0; cand = set(cand)
    while pos < len(stream):
        whole, part = [], []
        for pr in prods:
            for p in cand:
                w, holes = pr.wire[p]
                if not w: continue
                x = stream[pos:pos + len(w)]
                if x[:4] != w[:len(x[:4])]: continue
                if blank(x, holes) == blank(w[:len(x)], holes): (whole if len(x) == len(w) else part).append((pr.pid, p))
        if whole: pid, p = whole[0]; cand = {p}; n = len(next(y for y in prods if y.pid == pid).wire[p][0]); out.append([pid, n]); pos += n
        elif part: out.append([part[0][0] if len(part) == 1 else 0, len(stream) - pos]); break
        else: out.append([-1, len(stream) - pos]); break
    return out

class Run:
    """The configuration of a run, its products and its script."""
    def __init__(s, served=7, max=-1, retry=3, hard=0, soft=0, denied=(), named=(), refuse=((), (), ()), netfilter=0):
        s.__dict__.update(locals()); del s.__dict__["s"]
        s.prods = []; s.ev = []; s.cid = 0; s.host = {}
    def meta(s):
        return dict(e="M", served=[p for p in (1, 2, 4) if s.served & p], max=s.max, retry=s.retry, hard=s.hard, denied=list(s.denied), named=list(s.named), wake=WAKE, idsecs=IDSECS,
                    refuse=[[list(x.encode()) for x in y] for y in s.refuse], netfilter=bool(s.netfilter), prods=[p.meta() for p in s.prods])
    # ---- the script
    def conn(s, host, msg=b"", later=False):
        s.cid += 1; s.host[s.cid] = host
        s.ev.append(("conn %d %d %s%s" % (s.cid, host, hx(msg) if msg else "", " +" if later else ""), dict(msg=list(msg), later=later)))
        return s.cid
    def send(s, c, msg, later=False): s.ev.append(("send %d %s%s" % (c, hx(msg), " +" if later else ""), dict(msg=list(msg), later=later)))
    def op(s, t): s.ev.append((t, {}))
    def prod(s, r, **k):
        p = Product(len(s.prods) + 1, r, **k); s.prods.append(p); s.op(p.line()); return p
    def rcn(s, c, how, gone): s.cid += 1; s.host[s.cid] = s.host[c]; s.op("rcn %d %d %d %d" % (c, how, s.cid, gone)); return s.cid
    def write(s, d):
        for k in ("spool/p", "db", "spool/emw", "ans", "rx"): os.makedirs(d + "/" + k, exist_ok=True)
        psize = len(d + "/spool") + 4 + 1 + 1 + 36 + 1
        for p in s.prods: p.build(d, psize)
        emw = d + "/emwinfilter"
        with open(emw, "w") as f: f.write('#!/bin/sh\nwhile read a b c e f g h; do [ -n "$g" ] || exit 0; cat %s/ans/$g > $1; done\n' % d)
        os.chmod(emw, 0o755)
        allow = []
        for p in s.prods:
            x = " ".join(["allow(host%d.test) %d" % (h, v) for h, v in p.allow["name"]] + ["allow(127.0.0.%d) %d" % (h, v) for h, v in p.allow["ip"]] + (["allow(0) %d" % p.allow["all"]] if p.allow["all"] != -1 else []))
            allow.append("  set rules(%s) {%s}\n" % (p.name, x))
        with open(d + "/netfilter.tcl", "w") as f:
            f.write("if {$command == 0} {\n" + "".join(allow) + "}\nif {$command == 1} {\n  unset -nocomplain allow\n  set f [lindex $input 5]\n"
                    "  if {[info exists rules($f)]} { foreach {k v} $rules($f) { set $k $v } }\n}\nset output_status 0\n")
        t = dict(spooldir=d + "/spool", dbhome=d + "/db", dbcachemb=8, servername="127.0.0.1", serverport=2210, servertype=s.served, server_maxclients=s.max,
                 server_clientid_timeout_secs=IDSECS, client_reconnect_wait_sleep_secs=WAKE, client_reconnect_wait_sleep_retry=s.retry, clientqueuemaxhard=s.hard, clientqueuemaxsoft=s.soft,
                 queue_read_timeout_ms=5, client_queue_read_timeout_ms=20, client_write_timeout_ms=20, serverthreads_logperiod_secs=10**8, serveractivefile=d + "/active", serverstatefile=d + "/state",
                 netfilter_enable=s.netfilter, netfilter=d + "/netfilter.tcl", emwinfilter=emw, emwinfilter_fifo=d + "/emwin.fifo", emwinfilter_read_timeout_secs=5)
        for o, p in zip(("nbs1acceptpatt", "nbs2acceptpatt", "emwinacceptpatt"), s.refuse):
            if p: t[o] = "{%s}" % patt(p)
        with open(d + "/conf", "w") as f: f.write("".join("set %s %s\n" % x for x in t.items()))
    def run(s, exe, k):
        d = subdir("s%d" % k); s.write(d)
        script = ["init %s/conf %s/rx %s" % (d, d, " ".join(["d%d" % h for h in s.denied] + ["n%d" % h for h in s.named]))] + [x[0] for x in s.ev] + ["quit"]
        lines, rc, err = run_harness(exe, [], script, timeout=240, cwd=d)
        if lines and lines[0]["st"] != 0: raise CheckError("the harness did not start: %s %s" % (lines[:1], err[-300:]))
        tr = [s.meta()]
        for x, (_, extra) in zip(lines[1:], s.ev + [("quit", {})]):
            x = dict(x, **extra); x.setdefault("later", False)
            if x["e"] == "report":
                x["head"] = [int(y) for y in x["lines"][0][2:4]]
                nm = {("host%d.test" if h in s.named else "127.0.0.%d") % h: h for h in range(2, 255)}
                x["rows"] = [[nm.get(y[0], -1), int(y[1]), int(y[2])] for y in x.pop("lines")[1:]]
            if x["e"] == "quit":
                x["streams"] = []
                for c in range(1, s.cid + 1):
                    if not os.path.exists(d + "/rx/rx.%d" % c): continue
                    with open(d + "/rx/rx.%d" % c, "rb") as f: x["streams"].append(dict(c=c, segs=segments(f.read(), s.prods)))
            tr.append(x)
        bad = None if rc == 0 and len(lines) == len(script) else dict(rc=rc, at=script[max(0, len(lines) - 1):len(lines) + 1], err=err[-500:])
        shutil.rmtree(d, ignore_errors=True)
        return tr, bad

# ---------------------------------------------------------------- scripts
IDS = {1: b"NBS1", 2: b"NBS2", 4: b"EMWIN"}
MSGS = [b"NBS1", b"NBS2", b"EMWIN", b"NBS", b"NBS11", b"nbs1", b"NBS1\n", b"NBS2\0", b"NBS3", b"EMWI", b"EMWIN2", b"E", b"\0", b"BB-1.0", b"ByteBlast Client|NM-nobody@x|V1", b"\xff" * 40, b"NBS1" * 2, b"NBS2NBS1", b"x" * 511,
        b"N", b"\0NBS1", b" NBS1", b"NBS1 "]
def idents(seed):
    r = random.Random(seed); R = Run(served=1 + seed % 7, max=r.choice([-1, -1, 4, 300]), named=r.choice([(), (3, 5)]))
    hosts = list(range(2, 2 + r.choice([3, 6])))
    if seed % 5 == 0: hosts = list(range(2, 40))
    live = []
    for i in range(pick(26, 60)):
        x = r.random()
        if x < 0.5:
            h = r.choice(hosts); y = r.random()
            if y < 0.2: live.append(R.conn(h))
            elif y < 0.35:
                m = r.choice(MSGS[:5]); n = r.randrange(1, len(m)); c = R.conn(h, m[:n], later=True); live.append(c); R.send(c, m[n:])     # arrives whole
            elif y < 0.5:
                m = r.choice(MSGS[:5]); n = r.randrange(1, len(m)); c = R.conn(h, m[:n]); live.append(c); R.send(c, m[n:])                 # in two pieces
            else: live.append(R.conn(h, r.choice(MSGS) if r.random() < 0.6 else IDS[r.choice([1, 2, 4])]))
        elif x < 0.65 and live: R.send(r.choice(live), r.choice(MSGS))
        elif x < 0.72 and live: R.op("close %d" % live.pop(r.randrange(len(live))))
        elif x < 0.85: R.op("pass %d" % r.choice([1200, 1200, 1990, 2100]))
        elif x < 0.9: R.op("report")
        else: R.prod(r, size=r.choice([1, 100, 2000]))
    R.prod(r, size=10); R.op("report")
    return R
def table(seed):
    r = random.Random(seed)
    R = Run(served=r.choice([1, 2, 3, 3, 7]), max=r.choice([-1, 0, 1, 2, 3, 3, 4]), retry=r.choice([1, 2, 50, 50]), hard=r.choice([0, 3]), denied=r.choice([(), (), (4,)]), named=r.choice([(), (2, 3)]))
    hosts = [2, 3, 4, 5, 6]; live = []
    if seed % 6 == 0: R.max = -1; hosts = list(range(2, 60))
    def start(h):
        x = r.random()
        if x < 0.8: return R.conn(h, IDS[r.choice([p for p in (1, 2, 4) if R.served & p])])
        return R.conn(h) if x < 0.9 else R.conn(h, r.choice(MSGS))
    if seed % 6 == 0:
        ok = [p for p in (1, 2, 4) if R.served & p]
        for h in hosts[:-3]: live.append(R.conn(h, IDS[r.choice(ok)], later=h % 4 != 0))
        live.append(start(hosts[-1]))
        for c in r.sample(live, 8): R.op("close %d" % c)
    n = 0
    while n < pick(24, 60):
        n += 1; x = r.random()
        if x < 0.34:
            if r.random() < 0.2:                       # several at once
                for k in range(r.choice([1, 2])): live.append(R.conn(r.choice(hosts), r.choice([b""] + [IDS[p] for p in (1, 2, 4) if R.served & p]), later=True))
            live.append(start(r.choice(hosts)))
        elif x < 0.42 and live: R.op("close %d" % live.pop(r.randrange(len(live))))
        elif x < 0.6 and live: R.op("hold %d %d" % (r.choice(live[-6:]), r.choice([0, 0, 50, 300])))
        elif x < 0.74: R.prod(r, size=r.choice([1, 100, 1000]))
        elif x < 0.84 and live:
            c = r.choice(live[-4:]); R.op("hold %d %d" % (c, r.choice([0, 50]))); R.prod(r, size=r.choice([100, 1000])); R.op("brk %d %d" % (c, r.choice([1, 2])))
            if r.random() < 0.5: live.append(start(R.host[c]))
        elif x < 0.92 and live and R.retry == 50:
            c = r.choice(live[-4:]); R.op("hold %d %d" % (c, r.choice([0, 50]))); R.prod(r, size=r.choice([100, 1000])); live.append(R.rcn(c, r.choice([1, 2]), r.randrange(2)))
        elif x < 0.95: R.op("pass %d" % r.choice([WAKE + 1, WAKE + 1, 1200, 2100]))
        elif x < 0.97: R.op("reload")
        else: R.op("report")
    R.op("report")
    return R
PREF = ["kwbc_saus70-", "tjsj_fxus62-", "kwbc_sxus1-", "phfo_ftpa-"]
def delivery(seed):
    r = random.Random(seed)
    some = lambda: tuple(r.sample(["kwbc_s", "tjsj_", "phfo_ft", "kwbc_saus"], r.choice([0, 0, 1, 2])))
    R = Run(served=r.choice([1, 2, 3, 3, 7, 7, 5]), max=-1, retry=r.choice([1, 2, 3, 50, 50]), hard=r.choice([0, 0, 1, 2, 3]), named=r.choice([(), (2,), (2, 3)]), refuse=(some(), some(), some()), netfilter=r.randrange(2))
    R.soft = r.choice([0, 1, 2]); hosts = [2, 3, 4, 5][:r.choice([2, 3, 4])]; live = {}
    def start(h): live[h] = R.conn(h, IDS[r.choice([p for p in (1, 2, 4) if R.served & p])])
    def any_(): return live[r.choice(list(live))]
    for h in hosts: start(h)
    n = 0
    def product():
        p = R.prod(r); hs = hosts
        if R.netfilter:
            a = p.allow; y = r.random()
            if y < 0.7: a["all"] = r.choice([1, 1, 1, 0, 2])
            for h in hosts:
                if r.random() < 0.25: a["name"].append([h, r.randrange(2)])
                if r.random() < 0.25: a["ip"].append([h, r.randrange(2)])
    while n < pick(30, 70):
        n += 1; x = r.random()
        if x < 0.42: product()
        elif x < 0.62:
            c = any_(); R.op("hold %d %d" % (c, r.choice([-1, 0, 1, 11, 12, 65, 66, 67, 100, 1116, 1117, 5000, 65602, 65603, 70000])))
        elif x < 0.74:
            h = r.choice(list(live)); c = live[h]
            if r.random() < 0.7: R.op("hold %d %d" % (c, r.choice([0, 1, 12, 70, 1000, 1116, 65602]))); product()
            R.op("brk %d %d" % (c, r.choice([1, 2])))
            if r.random() < 0.4: start(h)
        elif x < 0.8 and R.retry == 50:
            h = r.choice(list(live)); c = live[h]; R.op("hold %d %d" % (c, r.choice([0, 1, 70, 1116]))); product(); live[h] = R.rcn(c, r.choice([1, 2]), r.randrange(2))
        elif x < 0.87: start(r.choice(hosts))
        elif x < 0.95: R.op("pass %d" % (WAKE + 1))
        elif x < 0.97: R.op("close %d" % any_())
        elif x < 0.98: R.op("reload")
        else: R.op("report")
    for h in hosts: R.op("hold %d -1" % live[h])
    R.op("pass %d" % (WAKE + 1)); product(); R.op("report")
    return R

MCS = """SPECIFICATION Spec
CONSTANTS HostSet = {2, 3}
 Conns = %d
 Prods = %d
 Max %s
 Tries = %d
 Limit = %d
 Full = %d
CONSTRAINT Small
INVARIANTS OnlyServed Bounded Allowed OneEach NotShut Sizes Pending Exact Resumes
PROPERTIES SameProtocol Apart
"""
MCT = """SPECIFICATION %s
CONSTANTS HostSet = {1, 2}
 Conns = %d
 Prods = %d
 Packets = 2
 Max = %d
 Tries = %d
 Faults = %d
 CloseOld = TRUE
 Forget = TRUE
INVARIANTS OnePerHost Bounded NoLeak NoneDropped OwnSocket Alone Runs InOrder
%s"""
def models(chk, pid, pool):
    def hist(*a): return pool.submit(lambda: chk.add_model("server histories %s" % (a,), tlc("MCServer", MCS % a, workers=2, timeout=850, heap="3g"), "2 hosts and one denied, %d connections, %d products, limit of clients %s, %d waits, queue limit %d, %d steps" % a))
    def tab(*a): return pool.submit(lambda: chk.add_model("server and client threads %s" % (a[:6],), tlc("ConnTable", MCT % a, workers=3, timeout=850, heap="4g"), "%s: 2 hosts, %d connections, %d products of 2 packets, at most %d clients, %d waits, %d faults" % a[:6]))
    if pid == "C20": return [hist(3, 2, "= 1", 1, 0, pick(6, 9)), hist(3, 2, "<- Unlimited", 2, 1, pick(6, 9))]
    if pid == "C21": return [tab("Spec", 3, 1, 2, 2, 1, ""), tab("Spec", 3, 2, 1, 2, 1, "")] + ([tab("Spec", 4, 1, 2, 2, 2, ""), tab("Spec", 4, 2, 2, 1, 1, "")] if thorough() else [])
    return [hist(3, 3, "<- Unlimited", 2, 1, pick(7, 9)), tab("Live", 2, 1, 2, 1, 1, "PROPERTY AllSent\n")] + ([tab("Live", 3, 2, 2, 1, 1, "PROPERTY AllSent\n"), tab("Spec", 3, 2, 2, 2, 2, ""), tab("Spec", 4, 2, 2, 1, 1, "")] if thorough() else [])

def main(pid):
    chk = Check(pid)
    pool = ThreadPoolExecutor(NCPU)
    mj = models(chk, pid, pool)
    b = Build(dirs=("src",))
    exe = b.harness("server", ["server.c", "hcommon.c", "hclock.c"], wrap=WRAP)
    gen = dict(C20=idents, C21=table, C22=delivery)[pid]
    jobs = [gen(SEED * 1000 + i) for i in range(pick(56, 400))]
    res = list(pool.map(lambda a: a[1].run(exe, a[0]), enumerate(jobs)))
    for k, (t, bad) in enumerate(res):
        if bad:
            t2, bad2 = jobs[k].run(exe, k)
            if bad2:
                chk.violation("the server stopped or hung (rc=%s) at: %s" % (bad2["rc"], str(bad2["at"])[:300]), bad2); return chk.finish()
            res[k] = (t2, None)
    rej = check_traces(chk, "TraceServer", CFG, [t for t, _ in res])
    if rej:
        k = rej[0][0] - 1
        t2, bad2 = jobs[k].run(exe, k)
        again = bad2 or check_traces(chk, "TraceServer", CFG, [t2])
        if again:
            tr = res[k][0]; at = rej[0][1]
            chk.violation("the server did what the specification does not allow, at event %d of run %d: %s" % (at, k, jobs[k].ev[at - 1][0] if at - 1 < len(jobs[k].ev) else "quit"), dict(script=[x[0] for x in jobs[k].ev[:at]], event=tr[at] if at < len(tr) else None, meta={a: c for a, c in tr[0].items() if a != "prods"}))
    for j in mj: j.result()
    chk.cov["samples"] = [dict(given=str([x[0] for x in jobs[0].ev][:8])[:400], event=str(res[0][0][-1])[:300])]
    return chk.finish()
