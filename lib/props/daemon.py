"""C33 (the life of the daemon): the real program, as an unprivileged user, in a directory of its own."""
import glob, hashlib, json, os, random, re, shutil, signal, socket, stat, struct, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import sbn

NOBODY = 65534
WRAPS = ("sleep", "syslog", "vsyslog")
PATIENCE = 12
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
CONSTRAINT Seems
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""
MC = """SPECIFICATION Spec
CONSTANTS N = %d
 Faults = {%s}
 Records = %d
 Crashes = %d
 Signals = {%s}
INVARIANTS AtMostOne Undisturbed NothingLeft OnlyCrashes Paired InOrder Streams
PROPERTIES Decided Stops
CHECK_DEADLOCK FALSE
"""
ALLF = '"", "conf", "script", "lock", "fifo", "open", "late"'
def models(chk):
    m = [(1, ALLF, 2, 1, "1, 15"), (2, '"", "lock"', 0, 1, ""), (2, '"", "script", "fifo"', 0, 0, "15"), (2, '""', 1, 1, "1")]
    if thorough(): m += [(3, '""', 0, 0, ""), (2, ALLF, 0, 1, "15"), (2, '"", "late"', 2, 0, "1, 15"), (3, '"", "conf"', 0, 1, "")]
    for a in m: chk.add_model("%d instances, failures at {%s}, %d records, %d crashes, signals {%s}" % a, tlc("MCDaemon", MC % a, workers=pick(3, NCPU), timeout=880, heap="6g"))

def free_port(kind=socket.SOCK_STREAM):
    s = socket.socket(socket.AF_INET, kind); s.bind(("", 0)); p = s.getsockname()[1]; s.close(); return p
def listening(port):
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try: t = open(f).read()
        except OSError: continue
        for l in t.split("\n")[1:]:
            w = l.split()
            if len(w) > 3 and w[3] == "0A" and int(w[1].split(":")[1], 16) == port: return True
    return False
def read(p):
    try:
        with open(p, "rb") as f: return f.read()
    except OSError: return b""

GROUP = "239.77.3.5"
def mcast_works():
    try:
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.bind((GROUP, 0)); p = s.getsockname()[1]
        s.setsockopt(socket.IPPROTO_IP, socket.IP_ADD_MEMBERSHIP, socket.inet_aton(GROUP) + socket.inet_aton("127.0.0.1"))
        o = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); o.setsockopt(socket.IPPROTO_IP, socket.IP_MULTICAST_IF, socket.inet_aton("127.0.0.1"))
        o.sendto(b"x", (GROUP, p)); s.settimeout(2); return s.recv(4) == b"x"
    except OSError: return False

# ------------------------------------------------------------------ clients of the nbs1 server
class Client(threading.Thread):
    def __init__(s, port):
        super().__init__(daemon=True); s.buf = b""; s.got = []; s.closed = False
        s.k = socket.create_connection(("127.0.0.1", port)); s.k.sendall(b"NBS1"); s.start()
    def run(s):
        parts = b""
        try:
            while True:
                d = s.k.recv(1 << 16)
                if not d: break
                s.buf += d
                while len(s.buf) >= 12:
                    t, n, z = struct.unpack(">III", s.buf[:12])
                    if t != 1 or n < 54: s.got.append(("garbled",)); s.buf = b""; break
                    if len(s.buf) < 12 + n: break
                    b = s.buf[12:12 + n]; s.buf = s.buf[12 + n:]
                    seq, a, c, d_, e = struct.unpack(">I4B", b[:8]); base = b[8:45].split(b"\0")[0]
                    nb, k, m = struct.unpack(">HHI", b[46:54])
                    parts = b[54:] if k == 1 else parts + b[54:]
                    if k == nb: s.got.append((seq, a, c, d_, e, base, hashlib.sha1(parts).hexdigest())); parts = b""
        except OSError: pass
        s.closed = True
    def close(s):
        try: s.k.shutdown(2)
        except OSError: pass
        s.k.close()

class Rec:
    def __init__(s, name, seq, codes, data): s.name, s.seq, s.codes, s.data = name, seq, codes, data; s.sha = hashlib.sha1(data).hexdigest()

class Site:
    """A configuration and the instances started on it."""
    def __init__(s, exe, k, seed, mcast=False, httpd=False, opts=("filters", "readers", "server"), stale=False, slow=0):
        r = s.r = random.Random(seed); s.exe = exe; T = s.T = subdir("dm/%d" % k); s.ev = []; s.p = {}; s.n = 0; s.recs = []; s.ended = set(); s.cl = {}
        s.opts = list(opts) + (["httpd"] if httpd else []); s.mcast = mcast; s.rc = {}; s.what = []; s.oo = {}; s.late = False; s.fault = {}; s.expect = None
        for d in ("run", "stats", "db", "spool", "dev", "in"): os.makedirs(T + "/" + d)
        for n, t in (("start", "start"), ("stop", "stop")):
            with open(T + "/%s.tcl" % n, "w") as f: f.write('set f [open %s/script.log a]; puts $f "%s [pid]"; close $f\n%s' % (T, t, "after %d\n" % slow if t == "start" and slow else ""))
        for n in ("f1", "f2", "f3", "httpd", "sched"): s.program(n, T + "/" + n)
        s.progs = ["f1", "f2"]; s.on = set(); s.port = free_port(); s.mport = free_port(socket.SOCK_DGRAM); s.sbnseq = 100
        s.stale = 9 if stale else 0
        if stale:
            with open(T + "/run/pid", "w") as f: f.write("999999\n")
            os.mkfifo(T + "/run/q.fifo"); os.mkfifo(T + "/run/in.fifo")
        s.own(T); s.seen_scr = 0; s.pos = {c: 0 for c in ("f1", "f2", "f3", "httpd")}; s.dead = {}
        s.ev.append(dict(e="M", progs=s.progs, lock=s.stale))
    def own(s, top):
        for d, _, fs in os.walk(top):
            os.chown(d, NOBODY, NOBODY)
            for f in fs: os.chown(d + "/" + f, NOBODY, NOBODY, follow_symlinks=False)
    def program(s, n, path):
        with open(path, "w") as f:
            f.write('#!/bin/sh\nL=%s/%s.log\necho start >> $L\nwhile read l && [ -n "$l" ]; do echo "$l" >> $L; done\necho eof >> $L\n' % (s.T, n))
        os.chmod(path, 0o755); os.chown(path, NOBODY, NOBODY)
    def conf(s, **over):
        T = s.T
        c = dict(user='""', group='""', home='""', startscript=T + "/start.tcl", stopscript=T + "/stop.tcl", scheduler=T + "/sched", spooldir=T + "/spool",
                 spooldb_fname=T + "/db/spool.state", devdir=T + "/dev", filterlist='"%s/f1 %s/f2"' % (T, T), netfilter_enable=0, emwinfilter='""', emwinfilter_fifo=T + "/run/emwin.fifo",
                 httpd_enable=1 if "httpd" in s.opts else 0, httpd=T + "/httpd", pidfile=T + "/run/pid", qstatefifo=T + "/run/q.fifo", servertype=1, serverport=s.port, servername="127.0.0.1",
                 dbhome=T + "/db", dbcachemb=1, clientqueuedbcachemb=1, queue_read_timeout_ms=40, pctl_read_timeout_ms=40, client_queue_read_timeout_ms=40,
                 infeedfifo=T + "/run/in.fifo", infeedfifogrp="nogroup", slave_read_timeout_secs=1, feedmode=5 if s.mcast else 4,
                 multicastip=GROUP, multicastport=s.mport, ifip="127.0.0.1")
        for o, n in (("statusfile", "status"), ("missinglogfile", "missing"), ("rtxlogfile", "rtx"), ("qstatelogfile", "qstate"), ("qdbstatslogfile", "qdb"), ("serverstatefile", "server"),
                     ("serveractivefile", "active"), ("serverthreadsfile", "sthreads"), ("filterserver_statefile", "filter"), ("slavestatsfile", "slave")): c[o] = "%s/stats/%s" % (T, n)
        extra = over.pop("extra", "")
        c.update(over)
        with open(T + "/conf%d" % s.n, "w") as f: f.write("".join("set %s %s\n" % x for x in c.items()) + extra)
        return T + "/conf%d" % s.n
    def alive(s): return [i for i, p in s.p.items() if i not in s.ended]
    def poll(s):
        for i, p in s.p.items():
            if i not in s.ended and p.poll() is not None: s.ended.add(i); s.rc[i] = p.returncode
    def wait(s, cond, t=PATIENCE):
        end = time.time() + t
        while time.time() < end:
            s.poll()
            if cond(): return True
            time.sleep(0.005)
        s.late = True; return False
    # ------------------------------------------------ what is done
    def spawn(s, at="", kind="run", args=(), less=(), wait=True, **over):
        s.n += 1; i = s.n; opts = [o for o in s.opts if o not in less]
        conf = s.conf(**over) if over.get("file", 1) else "/nonexistent/conf"
        a = ["-F", "-c", conf] + list(args)
        for o, f in (("filters", "-f"), ("readers", "-r"), ("server", "-s")):
            if o in less: a.append(f)
        s.ev.append(dict(e="spawn", i=i, kind=kind, at=at, opts=opts)); s.what.append("start %d%s %s %s" % (i, " which fails at " + at if at else "", " ".join(a[3:]), over or ""))
        s.p[i] = subprocess.Popen([s.exe] + a, user=NOBODY, group=NOBODY, extra_groups=[], cwd=s.T, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  env=dict(os.environ, NBSPD_LOG=s.T + "/log"))
        s.oo[i] = opts; s.fault[i] = at
        if wait: s.settle()
        return i
    def sig(s, i, n, wait=True):
        s.ev.append(dict(e="sig", i=i, s=int(n))); s.what.append("signal %d to %d" % (n, i))
        try: s.p[i].send_signal(n)
        except OSError: pass
        if n in (1, 13, 14) and wait:
            if n == 1 and s.running(i): s.reloaded = {c: s.count(c) for c in s.pos}; s.settle(reload=True)
            else: time.sleep(0.08); s.settle()
        elif wait: s.wait(lambda: i in s.ended); s.settle()
    def kill(s, i):
        s.p[i].kill(); s.wait(lambda: i in s.ended); s.ev.append(dict(e="kill", i=i)); s.what.append("kill %d" % i); s.settle()
    def admin(s):
        s.ev.append(dict(e="admin")); s.what.append("remove what is left")
        for f in os.listdir(s.T + "/run"): os.unlink(s.T + "/run/" + f)
        for f in os.listdir(s.T + "/db"): os.unlink(s.T + "/db/" + f)
    def dir(s, progs):
        for n in ("f3",):
            p = s.T + "/dev/" + n
            if n in progs and not os.path.exists(p): s.program(n, p)
            if n not in progs and os.path.exists(p): os.unlink(p)
        s.progs = list(progs); s.ev.append(dict(e="dir", progs=s.progs)); s.what.append("filters %s" % s.progs)
    def record(s, size=None):
        r = s.r; k = len(s.recs) + 1
        data = r.randbytes(r.choice([3, 100, 5000, 65536, 65537, 140000]) if size is None else size)
        s.recs.append(Rec("r%d" % k, k << 8 | r.randrange(256), [r.choice([0, 1, 4, 255]) for _ in range(3)] + [r.randrange(0, 8)], data)); return s.recs[-1]
    def feed(s, n, wait=True):
        """Records in the input fifo."""
        w = b""
        for _ in range(n):
            x = s.record(); x.path = s.T + "/in/" + x.name
            with open(x.path, "wb") as f: f.write(x.data)
            t = ("%u %d %d %d %d %s %s" % (x.seq, *x.codes, "kwbc_saus70-" + x.name, x.path)).encode(); w += struct.pack(">I", len(t)) + t + b"\n"
            s.ev.append(dict(e="feed", r=x.name))
        s.what.append("%d records" % n)
        try:
            f = os.open(s.T + "/run/in.fifo", os.O_WRONLY | os.O_NONBLOCK); os.write(f, w); os.close(f)
        except OSError as e: s.what.append("cannot write: %s" % e)
        if wait: s.settle()
    def cast(s, n, wait=True):
        """Products on the satellite channel."""
        o = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); o.setsockopt(socket.IPPROTO_IP, socket.IP_MULTICAST_IF, socket.inet_aton("127.0.0.1"))
        for _ in range(n):
            x = s.record(0); head = sbn.wmo("SAUS7%d" % s.r.randrange(10), "KWBC", "%06d" % s.r.randrange(100000, 312359)); body = head + s.r.randbytes(s.r.choice([5, 900, 4000, 9000]))
            x.path = None; x.codes = [4, s.r.choice([1, 5, 9]), 1, 0]; x.seq = len(s.recs) << 8
            x.data = sbn.CCB + body; x.sha = hashlib.sha1(x.data).hexdigest()
            bl = sbn.split(sbn.CCB + body, 4000)
            for j, b in enumerate(bl):
                tt = sbn.PROG | (sbn.START if j == 0 else 0) | (sbn.END if j == len(bl) - 1 else 0)
                s.sbnseq += 1
                o.sendto(sbn.frame(b, b"", blk=j, seq=x.seq, tt=tt, nf=len(bl), sbnseq=s.sbnseq, type=x.codes[0], cat=x.codes[1], code=x.codes[2]), (GROUP, s.mport))
            s.ev.append(dict(e="feed", r=x.name))
        o.close(); s.what.append("%d products" % n)
        if wait: s.settle()
    def connect(s, c):
        s.ev.append(dict(e="connect", c=c)); s.what.append("client " + c)
        s.cl[c] = Client(s.port); s.joined = c
        n = read(s.T + "/log").count(b"Spawned client thread")
        for _ in range(10):                                # until it is served
            s.feed(1)
            end = time.time() + 0.3
            while time.time() < end and read(s.T + "/log").count(b"Spawned client thread") == n: time.sleep(0.01)
            if read(s.T + "/log").count(b"Spawned client thread") > n: s.expect = c; s.feed(1); s.expect = None; s.feed(1); return
            if c in s.on or c not in s.cl: return
    # ------------------------------------------------ what is seen
    def running(s, i):
        return i not in s.ended and read(s.T + "/run/pid").strip() == b"%d" % s.p[i].pid
    def fifo(s, n):
        try: return stat.S_ISFIFO(os.lstat(s.T + "/run/" + n).st_mode)
        except OSError: return False
    def lines(s, c): return read(s.T + "/%s.log" % c).split(b"\n")[:-1]
    def count(s, c): return len(s.lines(c))
    def upto(s, c):
        L = s.lines(c); return [k for k, x in enumerate(L) if x == b"start"], L
    def up(s, c):
        L = s.lines(c); st = [x for x in L if x in (b"start", b"eof")]; return bool(st) and st[-1] == b"start" 
    def settle(s, reload=False):
        def ready():
            a = s.alive()
            if len(a) != 1: return len(a) == 0 and s.stopped()
            i = a[0]; o = s.oo[i]
            return not s.fault[i] and s.running(i) and (s.fifo("q.fifo")) and ("readers" not in o or s.fifo("in.fifo")) and ("server" not in o or listening(s.port)) and ("filters" not in o or all(s.up(c) for c in s.progs)) \
                and ("httpd" not in o or s.up("httpd")) and s.fedall() and (not reload or "filters" not in o or all(s.count(c) >= s.reloaded[c] + 2 - (c not in s.before) for c in s.progs))
        s.before = s.pos_before() if reload else ()
        s.wait(ready); time.sleep(0.02); s.see()
    def pos_before(s):
        return [c for c in ("f1", "f2", "f3") if self_up(s, c)]
    def stopped(s): return not any(s.up(c) for c in s.pos)
    def fedall(s):
        """All that was given since the last look has come out."""
        want = []
        for e in reversed(s.ev):
            if e["e"] in ("seen", "M"): break
            if e["e"] == "feed": want.insert(0, e["r"])
        if not want: return True
        a = s.alive(); o = s.oo[a[0]] if a else ()
        if "filters" in o:
            for c in s.progs:
                if len([x for x in s.lines(c)[s.pos[c]:] if x not in (b"start", b"eof")]) < len(want): return False
        for c, k in s.cl.items():
            if not k.closed and (c in s.on or c == s.expect) and len(k.got) < len(want): return False
        return True
    def ident(s, x, line):
        """The record a line for a filter is about."""
        w = line.split(b" ")
        try: seq, codes = int(w[0]), [int(v) for v in w[1:5]]
        except ValueError: return "?" + line.decode("latin-1")[:80]
        p = w[6].decode("latin-1") if len(w) == 7 else ""
        d = hashlib.sha1(read(p)).hexdigest() if p.startswith(s.T) else ""
        for r in s.recs:
            if r.seq == seq and (r.codes == codes) and r.sha == d and (r.path in (None, p)): return r.name
        return "?" + line.decode("latin-1")[:120]
    def see(s):
        s.poll()
        ids = {p.pid: i for i, p in s.p.items()}
        scr = read(s.T + "/script.log").split(b"\n")[:-1]; new = scr[s.seen_scr:]; s.seen_scr = len(scr)
        e = dict(e="seen", alive=s.alive(), ended=[[i, s.rc[i]] for i in sorted(s.ended)], qf=s.fifo("q.fifo"), inf=s.fifo("in.fifo"), port=listening(s.port),
                 known=sorted(s.on), scr=[[x.split()[0].decode(), ids.get(int(x.split()[1]), -1)] for x in new], out={})
        e["alive"] = [i for i in s.alive()]
        pf = read(s.T + "/run/pid").strip() if os.path.exists(s.T + "/run/pid") else b"0"
        e["lock"] = 0 if pf == b"0" else 9 if pf == b"999999" else ids.get(int(pf), -1) if pf.isdigit() else -1
        for c in s.pos:
            L = s.lines(c)[s.pos[c]:]; s.pos[c] += len(L)
            if c == "httpd": L = [x for x in L if x != b"init"]       # when it is flushed does not matter
            e["out"][c] = [x.decode() if x in (b"start", b"eof") else s.ident(c, x) for x in L]
        for c, k in list(s.cl.items()):
            g, k.got = k.got, []
            if g: s.on.add(c)
            e["out"][c] = [next((r.name for r in s.recs if (r.seq, *r.codes, r.sha) == (x[0], *x[1:5], x[6])), "?") if len(x) == 7 else "?" for x in g]
            if k.closed: s.cl.pop(c); s.on.discard(c)
        s.ev.append(e)
    def end(s):
        for i in s.alive():
            s.p[i].kill()
        for p in s.p.values():
            try: p.wait(5)
            except Exception: pass
        for k in s.cl.values(): k.close()
        shutil.rmtree(s.T, ignore_errors=True)
def self_up(s, c): return s.up(c)

# ------------------------------------------------------------------ faults
def faults(s):
    T, r = s.T, s.r
    F = [("conf", dict(args=["-x"])), ("conf", dict(args=["-f", "-r", "-s"])), ("conf", dict(extra="set foo [\n")), ("conf", dict(feedmode=0)), ("conf", dict(feedmode="abc")),
         ("conf", dict(multicastport='""')), ("conf", dict(user="root")), ("conf", dict(user="nosuchuser")), ("conf", dict(home="/nonexistent")), ("conf", dict(acceptpatt='"("')),
         ("conf", dict(spooldir=T + "/nope")), ("conf", dict(dbhome=T + "/nope")), ("conf", dict(spooltype=9)), ("conf", dict(serverport='""')), ("conf", dict(file=0)),
         ("script", dict(startscript=T + "/bad.tcl")), ("lock", dict(pidfile=T + "/nope/pid")), ("fifo", dict(qstatefifo=T + "/nope/q")),
         ("open", dict(feedmode=1, multicastip="300.1.1.1", multicastport=1201)), ("open", dict(feedmode=1, multicastport='"1201 1202"')), ("open", dict(feedmode=2, masterservers='"1,"')),
         ("open", dict(dbhome=T + "/rodb")), ("late", dict(infeedfifo=T + "/nope/in")), ("late", dict(infeedfifogrp="nosuchgroup")), ("late", dict(serverport="busy")), ("late", dict(netfilter_enable=1, netfilter=T + "/nope"))]
    return F
def with_fault(s, at, f):
    f = dict(f); less = ()
    with open(s.T + "/bad.tcl", "w") as g: g.write(read(s.T + "/start.tcl").decode() + "error x\n")
    os.makedirs(s.T + "/rodb", exist_ok=True)
    b = None
    if f.get("serverport") == "busy":
        b = socket.socket(); b.bind(("127.0.0.1", 0)); b.listen(1); f["serverport"] = b.getsockname()[1]
    s.spawn(at=at, **f)
    if b: b.close()

def history(exe, k, seed, mcast, steps, kind=None):
    r = random.Random(seed)
    s = Site(exe, k, seed, mcast=mcast and r.random() < 0.5, httpd=r.random() < 0.3, stale=kind is None and r.random() < 0.08, slow=r.choice([0, 30, 100]) if kind in ("pair", "early") else 0)
    try:
        if kind == "faults":
            F = faults(s); s.n = 0
            for at, f in F[int(seed) % 4::4][:8]: with_fault(s, at, f)
            return s
        if kind == "early":                       # signals at any moment of the start
            for _ in range(5):
                i = s.spawn(wait=False); time.sleep(r.choice([0, 0.001, 0.003, 0.01, 0.02, 0.04, 0.08]) * r.random() * 2); s.sig(i, r.choice([2, 3, 15]), wait=False)
                s.wait(lambda: i in s.ended); s.settle()
            return s
        if kind == "pair":
            for _ in range(3):
                a = s.spawn(wait=False)
                if r.random() < 0.5: time.sleep(r.random() * 0.03)
                b = s.spawn(wait=False)
                s.wait(lambda: a in s.ended or b in s.ended); s.settle(); live = s.alive()
                if len(live) == 1: s.feed(2); s.sig(live[0], 15)
                else: break
            return s
        if s.stale: s.spawn(); s.admin(); s.see()
        nc = 0
        for _ in range(steps):
            a = s.alive(); x = r.random()
            if len(a) > 1 or s.n >= 8: break
            if not a:
                if x < 0.2: s.dir(["f1", "f2", "f3"] if r.random() < 0.5 else ["f1", "f2"])
                at, f = r.choice(faults(s)) if x > 0.85 else ("", {})
                if at: with_fault(s, at, f)
                else: s.spawn(less=r.choice([(), (), (), (), ("filters",), ("server",), ("readers",), ("filters", "server")]))
                continue
            i = a[0]; o = s.oo[i]; fd = "readers" in o
            if x < 0.10: s.spawn(kind="print", args=["-C"])
            elif x < 0.20: s.spawn(less=r.choice([(), ("filters",)]))
            elif x < 0.26:
                at, f = r.choice([y for y in faults(s) if y[0] == "conf"]); with_fault(s, at, f)
            elif x < 0.50 and fd: s.feed(r.randrange(1, 5))
            elif x < 0.60 and fd and s.mcast: s.cast(r.randrange(1, 4))
            elif x < 0.66: s.sig(i, r.choice([13, 14]))
            elif x < 0.74:
                s.dir(["f1", "f2", "f3"] if "f3" not in s.progs else ["f1", "f2"]); s.sig(i, 1)
            elif x < 0.80 and fd and "server" in o and len(s.cl) < 1 and nc < 2: nc += 1; s.connect("c%d" % nc)
            elif x < 0.86 and fd: s.feed(r.randrange(1, 4), wait=False); s.sig(i, r.choice([2, 3, 15]))
            elif x < 0.90: s.kill(i); s.spawn(); s.admin(); s.see()
            else: s.sig(i, r.choice([2, 3, 6, 15]))
        return s
    finally: pass

def main(pid):
    chk = Check(pid); pool = ThreadPoolExecutor(1)
    mj = pool.submit(models, chk)
    b = Build()
    exe = b.harness("nbspd", ["daemon.c"], wrap=WRAPS)
    os.chmod(os.path.dirname(exe), 0o755)
    mc = mcast_works()
    jobs = [("faults", i) for i in range(4)] + [("early", i) for i in range(pick(4, 40))] + [("pair", i) for i in range(pick(4, 40))] + [(None, i) for i in range(pick(40, 600))]
    def one(j):
        k, (kind, n) = j
        for attempt in (0, 1):
            s = history(exe, 2 * k + attempt, SEED * 1000 + n if kind != "faults" else n, mc, 14, kind)
            s.end(); yield s
    def work(j):
        return next(one(j))
    t0 = time.time()
    with ThreadPoolExecutor(pick(8, NCPU + 4)) as ex: S = list(ex.map(work, enumerate(jobs)))
    chk.cov["histories_s"] = round(time.time() - t0, 1)
    traces = [s.ev for s in S]
    bad = check_traces_nd(chk, "TraceDaemon", CFG, traces, parts=pick(3, NCPU), heap="3g")
    for n, l, _ in bad[:3]:
        j = jobs[n - 1]; first = S[n - 1]
        if first.late:                            # something took long; it must be so again
            for a in (1, 2):
                s2 = history(exe, 100000 * a + n, SEED * 1000 + j[1] if j[0] != "faults" else j[1], mc, 14, j[0]); s2.end()
                b2 = check_traces_nd(chk, "TraceDaemon", CFG, [s2.ev])
                if b2: first, l = s2, b2[0][1]; break
            else:
                chk.cov["not_repeated"] = chk.cov.get("not_repeated", 0) + 1; continue
        chk.violation("history %s: event %d: %s after %s" % (j, l, json.dumps(first.ev[l])[:600], json.dumps(first.ev[max(0, l - 3):l])[:600]),
                      dict(job=j, did=first.what, trace=first.ev, at=l))
    mj.result()
    chk.cov["samples"] = [s.what[:12] for s in S[:3]]
    return chk.finish()
